# property -> drivers (translation units) that decide it
def mock(p): return dict(src='int_mock', defs=['PART=%d' % p])
def real(p): return [dict(src='int_real', defs=['PART=%d' % p, 'ZOO=%d' % z]) for z in (0, 1, 2)]
def tu(src, *parts, scale=None, **kw): return [dict(src=src, defs=['PART=%d' % p], args=['--scale', str(scale)] if scale else [], **kw) for p in parts] if parts else [dict(src=src, args=['--scale', str(scale)] if scale else [], **kw)]
CHECKS = {}
def C(pid, tus, rule, technique, note, assumptions=()): CHECKS[pid] = dict(tus=tus, rule=rule, technique=technique, note=note, assumptions=list(assumptions))
EIGEN = ['-isystem', '/usr/include/eigen3']
MON = 'runtime monitoring: '
RI = 'random (seeded) interval/step/direction, stepper kind and script of accepted/rejected steps, call form; non-trivial: at least one step is required'
RS = 'random (seeded) system, state, time, step (both signs), stepper and call form; non-trivial: the step moves the state'
IN = 'Held on every seeded random schedule explored, under ASan/UBSan: '
for i, w in ((1, 'the grid automaton of integrate_const'), (2, 'the grid automaton of integrate_n_steps'), (3, 'the automaton of integrate_adaptive (monotone, complete, ends at t1)'), (4, 'the automaton of integrate_times (exactly the given times)')):
    C('C%02d' % i, [mock(i)] + real(i) + tu('int_time', i, **({} if i == 3 else dict(fallback='BASIC_TIMES'))), RI, MON + 'online trace checker of ' + w + ' over scripted user-defined steppers and over the real ones', IN + 'the recorded step/observation trace satisfies ' + w + '; times compared to 16 ulp, states with the exact solution of the scripted stepper or the method accuracy.')
C('C05', [mock(5)], RI, MON + 'trace checker of throw/no-throw of the guards with scripted rejecting steppers', IN + 'checkers throw exactly when the limit is exceeded and rejection bursts end in the documented exception within 1000 attempts, never below 450.')
C('C07', tu('ctrl', 0, 1, 2, 3) + tu('cabm', scale=4), RS + '; accepted and rejected attempts both occur', MON + 'every attempt compared online with a long double model of the documented controller', IN + 'verdict, state, time, derivative and proposed step of each attempt match the independent model; attempts within 1e-6 relative of the acceptance threshold are not judged.')
C('C09', tu('erk', 0, 1, 2, 3, scale=5), RS, MON + 'each step and its logged system evaluations compared with the literature tableau in long double', IN + 'state, error, derivative and evaluation log of each step equal the tableau to round-off.')
C('C10', tu('erk', 0, 1, 2, 3, scale=2) + tu('ctrl', 0, 1, 2) + tu('sympl') + tu('multi', 0, 1, 2) + tu('forms', 0, 1), RS, MON + 'differential monitor over all call forms, outputs poisoned, inputs compared byte for byte', IN + 'all call forms agree with the model and leave their inputs alone.')
C('C11', tu('multi', 0, 1, 2, scale=2) + tu('cabm', scale=4), RS, MON + 'each multistep result compared with the variable-step Adams quadrature over the monitored history (long double)', IN + 'start-up, formula, error estimate, evaluation counts, order and accuracy of the Adams steppers.')
C('C13', tu('sympl', scale=2), RS, MON + 'each step compared with the published composition; conservation monitors over long runs', IN + 'scheme, call forms, reversibility, volume and energy of the symplectic steppers.')
C('C06', tu('iter', 0, 1, 2, 3) + tu('iter_int') + tu('int_time', 6, fallback='BASIC_TIMES'), RI, MON + 'the sequence of dereferenced points is compared online with the observer trace of the integrate function and with the scripted/exact solution', IN + 'iterators and ranges deliver the points of the integrate functions.')
C('C08', tu('dense', 0, 1, 2, scale=3), RS + '; several intervals are chained', MON + 'interval continuity checked online; interpolant compared with an independent long double interpolant or with the exact solution', IN + 'intervals join, the interpolant meets ends and solution, queries change nothing, re-initialisation restarts.')
C('C12', tu('erk', 0, scale=4) + tu('erk', 4, scale=5) + tu('ctrl', 2) + tu('dense', 2), RS, MON + 'each step compared with Gragg midpoint and Aitken-Neville extrapolation in long double', IN + 'modified midpoint, extrapolation and Bulirsch-Stoer results are members of the extrapolation tableau; order and step size adaption follow the documented limits.')
C('C14', tu('impl') + tu('ctrl', 2) + tu('dense', 1), RS, MON + 'each step compared with a long double model (Newton iteration, Rosenbrock scheme, interpolant); stiff problems with known solution', IN + 'implicit Euler, Rosenbrock step, error, controller and dense output follow the model.')
C('C15', tu('mirror', 0, 1, 2, 3, 4, 5, scale=3), RS + '; both time directions are executed', MON + 'differential monitor: event log of the run forward compared entry by entry with the log of the mirrored run backward', IN + 'steps, proposals, verdicts, observations and interpolated states of mirrored runs agree (deviation 0 on the unchanged tree).')
C('C24', tu('order', 0, 1) + tu('order', 2, flags=EIGEN), 'random (seeded) smooth nonlinear non-autonomous problems with known solution, start time and direction; non-trivial: always', MON + 'the error against the known solution is monitored over runs with halved steps, in long double and 50 digits', IN + 'the measured order (state and error estimate) is within 0.4 of the declared one; categories and declared orders are the documented ones.')
def hdr(h, st, *d): return dict(src='hdr', defs=['VHDR=<boost/numeric/odeint/stepper/generation/generation_%s.hpp>' % h, 'VST=ode::' + st] + list(d))
C('C23', tu('tol', 0, 1, 2) + [hdr('runge_kutta_cash_karp54', 'runge_kutta_cash_karp54<vec>'), hdr('runge_kutta_cash_karp54_classic', 'runge_kutta_cash_karp54_classic<vec>'), hdr('runge_kutta_dopri5', 'runge_kutta_dopri5<vec>', 'DENSE'), hdr('runge_kutta_fehlberg78', 'runge_kutta_fehlberg78<vec>'), hdr('rosenbrock4', 'rosenbrock4<double>', 'DENSE', 'ROS'), hdr('controlled_adams_bashforth_moulton', 'adaptive_adams_bashforth_moulton<4,vec>')],
  'random (seeded) problems with known solution, directions, tolerances over 5-8 decades, absolute/relative/both; non-trivial: always', MON + 'global error and work monitored over sweeps of the tolerance; factory results compared with directly constructed steppers; scaling invariance of absolute and relative tolerances', IN + 'error/tolerance stays below a bound (about 5 times the largest ratio measured over 25 times as many cases), errors fall and work grows with the tolerance; factories and integrate() hand over tolerances, limits and stepper.')
THR = ['-fno-sanitize=null,nonnull-attribute', '-DTHRUST_DEVICE_SYSTEM=THRUST_DEVICE_SYSTEM_CPP'] # thrust's own references and empty ranges trip these two UBSan checks
GSL = ['-lgsl', '-lgslcblas']
C('C16', tu('alg', 3, flags=EIGEN) + tu('types', 0) + tu('types', 2, flags=EIGEN) + tu('types', 8) + tu('mkl') + tu('vtype', 0) + tu('vtype', 1) + tu('vtype', 2, scale=0.5) + tu('vtype', 3) + tu('alg', 0) + tu('alg', 1, flags=EIGEN) + tu('alg', 2, flags=THR) + tu('types', 1) + tu('types', 3, libs=GSL) + tu('types', 4, flags=THR) + tu('types', 5) + tu('types', 6) + tu('types', 7),
  'random (seeded) element values, coefficients, aliasing, arities; random problems, steppers and call sequences per state type; non-trivial: always', MON + 'recording functors observe which elements every algebra call pairs, operations are compared with the written formula, whole runs are compared with the std::vector run entry by entry, graded polynomial systems are compared with their exact solution at the round-off of the value type', IN + 'every algebra touches each element tuple once in the argument order, norms and operations give their defined values, runs with arrays, deques, lists, ublas, Eigen, multi_array, GSL, thrust (CPP backend), fusion, units, user vector-space types and separate derivative/time types leave the trace of the std::vector run, results are exact to the precision of the value type.',
  ['thrust is exercised with its sequential CPP back end; there is no GPU here', 'VexCL, ViennaCL, MKL, NT2, Blaze, MTL4, boost.compute back ends cannot be compiled here'])
A3 = ['A_STATE=std::array<double,3>', 'A_FIXED=3']
def cp(p, *d, **kw): return [dict(src='copy', defs=['PART=%d' % p] + list(d), args=['--scale', '3'], **kw)]
C('C17', cp(0) + cp(1) + cp(2) + cp(3) + cp(4, libs=GSL) + cp(0, *A3) + cp(1, *A3) + cp(2, *A3) + cp(0, 'A_ALWAYS') + cp(1, 'A_ALWAYS') + cp(2, 'A_ALWAYS') + cp(3, 'A_ALWAYS') + tu('byref', 0, 1, 2, scale=2),
  'random (seeded) system, operation sequence, copy point, way of copying (construction, assignment to fresh or used objects, to itself) and what happens to the original; non-trivial: always', MON + 'differential monitor: the trace of copy and original after the copy point against the undisturbed run of one object, originals destroyed under ASan; counting functors and steppers observe which object is used', IN + 'copies and originals continue like the undisturbed run; by-value arguments stay unchanged, referenced ones accumulate.')
VAL = ['valgrind', '-q', '--error-exitcode=9', '--num-callers=6']
def rs(p, pol, *d, scale='2', **kw): return dict(src='resize', defs=['PART=%d' % p, 'POLICY=%d' % pol] + list(d), args=['--scale', scale], **kw)
OMP_ENV = {'OMP_NUM_THREADS': '3', 'OMP_WAIT_POLICY': 'passive'}
C('C18', tu('rsz', 0) + tu('rsz', 1, flags=EIGEN) + [rs(p, q, 'A_POISON') for p in (0, 1, 2) for q in (0, 1, 2)] + [rs(3, q, scale='1') for q in (0, 1, 2)] + [rs(p, 0, *(['A_UNINIT'] if p < 3 else []), scale='0.15', san='val', pre=VAL) for p in (0, 1, 2, 3)]
  + [dict(src='copy', defs=['PART=%d' % p] + A3, args=['--scale', '0.2'], san='val', pre=VAL) for p in (0, 1, 2)] + tu('rsz', 2, flags=THR) + tu('rsz', 3, libs=GSL) + tu('rsz', 4, flags=['-fopenmp'], env=OMP_ENV),
  'random (seeded) sequences of system sizes, resizer policy, adjust_size, reset, initialize, copies and call forms; non-trivial: always', MON + 'every episode after a size change compared with a fresh stepper; freshly allocated elements are poisoned with arbitrary values; ASan/UBSan, memcheck and counting allocators watch memory', IN + 'episodes equal those of fresh steppers, no element is used before it is computed, no invalid access, no leak; containers get exactly the requested size and resizers report what they did.')
C('C22', tu('exc', 0, 1, 2, 3, scale=2) + [dict(src='exc', defs=['PART=%d' % p, 'A_ALWAYS'], args=['--scale', '2']) for p in (0, 1, 2)] + tu('excint', 0, 1, 2, scale=4),
  'random (seeded) stepper, history, operation or driver and point of failure (every evaluation, observation or allocation can be chosen); non-trivial: the fault was injected', MON + 'fault injection: the exception object, observations, inputs, allocations and the retried run are compared with the undisturbed run under ASan/UBSan', IN + 'every injected exception arrived unchanged, nothing leaked, observations before it and the retried run equal the undisturbed run.')
def th(p, *d): return dict(src='thr', defs=['PART=%d' % p] + list(d), args=['--scale', '2'], san='tsan', flags=['-pthread'])
C('C21', [th(p) for p in range(5)] + [th(p, 'A_STATE=std::array<double,3>', 'A_FIXED=3') for p in (0, 1, 2)],
  'random (seeded) numbers of threads, steppers, copies of used and unused prototypes, operations, drivers; non-trivial: at least two threads ran', MON + 'ThreadSanitizer over threads with distinct objects (unsynchronised apart from start and join), each trace compared with the same run executed alone afterwards', IN + 'no data race was reported and every thread got the result of the run alone.')
C('C19', [dict(src='omp', defs=['PART=%d' % p, 'GOMP_SHIM'], flags=['-fopenmp'], libs=['-pthread'], extra=['lib/gomp.cpp'], san='tsan', args=['--scale', '2']) for p in range(4)] + tu('rsz', 4, scale=3, flags=['-fopenmp'], env={'OMP_WAIT_POLICY': 'passive'}) + tu('omp', 0, 1, 2, 3, scale=3, flags=['-fopenmp'], env={'OMP_WAIT_POLICY': 'passive'}),
  'random (seeded) numbers of threads, schedules, lengths, chunk counts, steppers, time directions; non-trivial: more than one element', MON + 'ThreadSanitizer over a replacement OpenMP runtime with adversarial work sharing; every element visit counted; each run compared with the serial one', IN + 'every element is processed exactly once with its partners, norms are maxima over all elements, splitting is lossless, runs equal the serial ones, and no data race is observed (ThreadSanitizer).',
  ['the OpenMP runtime is replaced by lib/gomp.cpp under ThreadSanitizer, and is the real libgomp under AddressSanitizer'])
MPI = dict(cxx='mpicxx', libs=['-lboost_mpi', '-lboost_serialization'], mpi=True)
def mp(p, *ns): return [dict(MPI, src='mpi', defs=['PART=%d' % p], args=['--scale', '2'], pre=['mpirun', '--allow-run-as-root', '--oversubscribe', '--mca', 'btl_vader_single_copy_mechanism', 'none', '-np', str(n)]) for n in ns]
C('C20', mp(0, 1, 2, 3, 4, 7) + mp(1, 1, 2, 3, 5) + mp(2, 2, 3, 5),
  'random (seeded) numbers of ranks and elements, partitions (even, uneven, empty parts), sub-communicators, steppers, time directions, delays of single ranks; non-trivial: elements and more than one rank', MON + 'processes run in lock-step monitors: traces of all ranks gathered and compared with each other and with the serial run; a wall-clock watchdog (confirmed by a second run) reports ranks waiting for each other', IN + 'every rank computes the trace of the serial run, norms are global, splitting and gathering is lossless, nothing deadlocks.')
