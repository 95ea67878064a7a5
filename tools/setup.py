# Nothing persists between runs, so the checks build what they need themselves; this only verifies the toolchain.
import subprocess,shutil,sys
for t in ('g++','mpicxx','mpirun','valgrind'):
    if not shutil.which(t): print('missing tool:',t); sys.exit(1)
print(subprocess.run(['g++','--version'],capture_output=True,text=True).stdout.splitlines()[0])
