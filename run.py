#!/usr/bin/env python3
"""Runs one check:  run.py <PROPERTY> [--replay FILE]
Compiles the drivers of the property against /repo/include (current working tree), runs them under
their sanitizer, collects what the monitors observed, writes evidence/<id>.json and prints verdicts.
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide."""
import sys, os, json, hashlib, subprocess, time, fnmatch, re, shutil, tempfile, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks import CHECKS
SEED = int(os.environ.get('VERIF_SEED', '1')); TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'): TIER = 'quick'
CACHE = os.path.join(V, '.build')
COMMON = ['-std=gnu++14', '-w', '-g1', '-DBOOST_ALL_NO_LIB=1', '-D_GLIBCXX_ASSERTIONS']
SAN = {'asan': ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'],
       'tsan': ['-O1', '-fsanitize=thread'],
       'none': ['-O1'], 'val': ['-O1', '-g']}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=23:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_init_order=1',
           UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=23', TSAN_OPTIONS='exitcode=66:halt_on_error=0:second_deadlock_stack=1:report_signal_unsafe=0',
           OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_CXX='g++', LC_ALL='C', VERIF_TIER=TIER, VERIF_SEED=str(SEED))

_h = None
def tree_hash():
    global _h
    if _h is None:
        m = hashlib.sha256()
        for root in (os.path.join(REPO, 'include'), os.path.join(V, 'lib'), os.path.join(V, 'drv')):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f); m.update(p.encode()); m.update(open(p, 'rb').read())
        _h = m.hexdigest()
    return _h

def name(t): return t['src'] + ''.join('-' + x for x in t.get('defs', [])) + '-' + t.get('san', 'asan')

import threading
_locks = {}; _lk = threading.Lock()
def compile_tu(t): # drivers sharing a build are compiled once
    k = json.dumps([t.get(x) for x in ('src', 'defs', 'san', 'cxx', 'flags', 'libs', 'extra')])
    with _lk: l = _locks.setdefault(k, threading.Lock())
    with l:
        r = compile_tu1(t)
        if not r[0] and t.get('fallback') and 'error:' in r[2]: print('note: %s compiled with %s only' % (t['src'], t['fallback'])); r = compile_tu1(dict(t, defs=t.get('defs', []) + [t['fallback']])) # a demanding but inessential part of the driver is left out
        return r

def compile_tu1(t):
    san = t.get('san', 'asan'); cxx = t.get('cxx', 'g++')
    cmd = [cxx] + COMMON + SAN[san] + t.get('flags', []) + ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(V, 'lib')] + ['-D' + d for d in t.get('defs', [])]
    src = [os.path.join(V, 'drv', t['src'] + '.cpp')] + [os.path.join(V, x) for x in t.get('extra', [])]
    key = hashlib.sha256((tree_hash() + ' '.join(cmd + src + t.get('libs', []))).encode()).hexdigest()[:24]
    os.makedirs(CACHE, exist_ok=True); exe = os.path.join(CACHE, key)
    if os.path.exists(exe): return exe, 0.0, ''
    t0 = time.time(); tmp = exe + '.%d.tmp' % os.getpid()
    try: p = subprocess.run(cmd + src + ['-o', tmp] + t.get('libs', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=800)
    except subprocess.TimeoutExpired: return None, time.time() - t0, 'compile timeout'
    if p.returncode: return None, time.time() - t0, p.stdout.decode(errors='replace')
    os.rename(tmp, exe); return exe, time.time() - t0, ''

def classify(rc, out):
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', out)
    if m: return 'asan-' + m.group(1)
    m = re.search(r'runtime error: (.{0,120})', out)
    if m: return 'ubsan-' + re.sub(r'[^a-z]+', '-', re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", '', m.group(1).lower()))[:50].strip('-')
    if 'WARNING: ThreadSanitizer: data race' in out: return 'data-race'
    m = re.search(r'WARNING: ThreadSanitizer: ([\w ()-]+)', out)
    if m: return 'tsan-' + m.group(1).strip().replace(' ', '-')
    if 'Assertion' in out and 'failed' in out: return 'assertion'
    if 'terminate called' in out: return 'terminate'
    return 'crash-%d' % rc

def summarize(out):
    keep = [l for l in out.splitlines() if re.search(r'ERROR|runtime error|WARNING: Thread|#[0-9]+ 0x|#[0-9]+ |Assertion|terminate|what\(\)|Invalid|uninit|depends on', l)]
    return ' | '.join(x.strip()[:200] for x in keep[:9])

def readmark(path):
    try: s = open(path, 'rb').read().split(b'\0')[0].decode(errors='replace').split('\n')
    except OSError: return ('', '', -1, '')
    s += [''] * 4
    return (s[0], s[1], int(s[2]) if s[2].lstrip('-').isdigit() else -1, s[3])

def run_tu(t, exe, work, extra_args=()):
    nm = re.sub(r'[^A-Za-z0-9_=.-]', '_', name(t)) + '-%d' % (abs(hash((tuple(t.get('pre', [])), tuple(t.get('args', []))))) % 100000)
    out = os.path.join(work, nm + '.json'); mark = os.path.join(work, nm + '.mark')
    for f in (out, mark):
        if os.path.exists(f): os.unlink(f)
    cmd = t.get('pre', []) + [exe, '--out', out, '--mark', mark] + t.get('args', []) + list(extra_args)
    env = dict(ENV); env.update(t.get('env', {}))
    t0 = time.time(); to = t.get('timeout', 500) if TIER == 'quick' else 6 * 3600
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work, start_new_session=True)
    timed = False
    try: o, _ = p.communicate(timeout=to)
    except subprocess.TimeoutExpired:
        timed = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, _ = p.communicate()
    o = o.decode(errors='replace'); res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except ValueError: res = None
    return dict(rc=p.returncode, out=o, res=res, mark=readmark(mark), timed=timed, wall=time.time() - t0)

def crash_violation(t, r):
    st, grp, idx, desc = r['mark']
    kind = 'hang' if r['rc'] == 77 else classify(r['rc'], r['out'])
    return dict(key='%s/%s:%s' % (t['src'], grp, kind), msg='[%s] %s' % (desc, summarize(r['out']) or 'exit code %s' % r['rc']), group=grp, index=idx)

def known():
    k = []
    for l in open(os.path.join(V, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
        if m: k.append(m.groups())
    return k

def do_tu(t, work):
    exe, ct, err = compile_tu(t)
    if not exe: return dict(t=t, cerr=err, ct=ct)
    r = run_tu(t, exe, work)
    viol = list((r['res'] or {}).get('violations', [])); inc = ''
    if r['timed']: inc = 'wall-clock timeout'
    elif r['rc'] == 77:  # CPU-time watchdog of one case: confirm alone
        st, grp, idx, desc = r['mark']; r2 = run_tu(t, exe, work, ['--group', grp, '--index', str(idx)])
        if r2['rc'] == 77 and not r2['timed']: viol.append(crash_violation(t, r))
        else: inc = 'unconfirmed hang'
    elif r['rc'] != 0 or not r['res'] or not r['res']['finished']:
        if t.get('mpi') and not re.search(r'Sanitizer|runtime error|Assertion', r['out']):
            r2 = run_tu(t, exe, work)
            if r2['rc'] == 0 and r2['res'] and r2['res']['finished']: r = r2; viol = list(r['res']['violations'])
            else: viol.append(crash_violation(t, r2))
        else: viol.append(crash_violation(t, r))
    return dict(t=t, ct=ct, r=r, viol=viol, inc=inc)

def main():
    prop = sys.argv[1]; t0 = time.time()
    if '--replay' in sys.argv:
        j = json.load(open(sys.argv[sys.argv.index('--replay') + 1])); exe, _, err = compile_tu(j['tu'])
        if not exe: print(err[-3000:]); return 2
        ENV['VERIF_SEED'] = str(j['seed']); ENV['VERIF_TIER'] = j['tier']; w = tempfile.mkdtemp(prefix='verif-')
        r = run_tu(j['tu'], exe, w, ['--group', j['group'], '--index', str(j['index'])] if j.get('group') else [])
        print(r['out'][-4000:]); shutil.rmtree(w); bad = r['rc'] != 0 or (r['res'] and r['res']['violations'])
        print('replay:', 'violation reproduced' if bad else 'no violation'); return 1 if bad else 0
    c = CHECKS[prop]; work = tempfile.mkdtemp(prefix='verif-')
    only = os.environ.get('VERIF_ONLY')
    tus = [t for t in c['tus'] if (TIER == 'thorough' or not t.get('thorough')) and (not only or only in name(t))]
    os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
    tree_hash()
    with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex: results = list(ex.map(lambda t: do_tu(t, work), tus))
    shutil.rmtree(work, ignore_errors=True)
    errs, viols, ev, dist, counters, maxima, samples, groups = [], [], 0, 0, {}, {}, [], {}
    for x in results:
        t = x['t']
        if 'cerr' in x and re.search(r'\berror:', x['cerr']) and not re.search(r'internal compiler error|Killed|out of memory|No space left|cannot allocate', x['cerr']):
            viols.append((t, dict(key='%s/compile:public-interface' % t['src'], msg='use of the public interface no longer compiles: ' + ' | '.join([l for l in x['cerr'].splitlines() if 'error:' in l][:4]), group='', index=-1))); continue
        if 'cerr' in x: errs.append('%s does not compile: %s' % (name(t), '\n'.join([l for l in x['cerr'].splitlines() if 'error' in l][:4]) or x['cerr'][-300:])); continue
        if x['inc']: errs.append('%s: %s' % (name(t), x['inc']))
        for v in x['viol']: viols.append((t, v))
        j = x['r']['res']
        if j:
            if j['finished'] and j['evaluations'] == 0: errs.append(name(t) + ': observed nothing')
            ev += j['evaluations']; dist += j['distinct_nontrivial']
            for k, n in j['counters'].items(): counters[k] = counters.get(k, 0) + n
            for k, n in j['maxima'].items(): maxima[k] = max(maxima.get(k, 0.0), float(n))
            for k, n in j['groups'].items(): groups[t['src'] + '/' + k] = groups.get(t['src'] + '/' + k, 0) + n
            samples += j['samples'][:4]
    kn = known(); seen, bad = set(), 0
    for t, v in viols:
        k = [x for x in kn if x[0] == prop and fnmatch.fnmatch(v['key'], x[1])]
        if k:
            if k[0][1] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2])); seen.add(k[0][1])
            continue
        bad += 1
        if bad <= 12:
            rp = os.path.join(V, 'evidence', 'replay', '%s-%d.json' % (prop, bad))
            json.dump(dict(property=prop, tu=t, group=v['group'], index=v['index'], seed=SEED, tier=TIER, key=v['key'], msg=v['msg']), open(rp, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, rp)); print('   %s: %s' % (v['key'], v['msg'][:600]))
    # every listed finding is announced, also when this run's seed did not happen to meet it
    for x in kn:
        if x[0] == prop and x[1] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, x[2]))
    if dist == 0 and not bad: errs.append('no non-trivial case was observed')
    evd = dict(property=prop, tier=TIER, seed=SEED, level='exploration', wall_s=round(time.time() - t0, 1), violations=bad,
               coverage=dict(evaluations=ev, distinct_nontrivial=dist, rule=c['rule'], samples=samples[:24] or ['none'], observed_events=counters, worst_deviation=maxima, cases_per_group=groups,
                             drivers=[dict(name=name(x['t']), compile_s=round(x['ct'], 1), run_s=round(x['r']['wall'], 1) if 'r' in x else None) for x in results], inconclusive=errs),
               assumptions=c.get('assumptions', []))
    json.dump(evd, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    for e in errs: print('INCONCLUSIVE:', e)
    print('%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s' % (prop, TIER, ev, dist, bad, time.time() - t0))
    return 1 if bad else (2 if errs else 0)
if __name__ == '__main__': sys.exit(main())
