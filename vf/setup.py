"""setup_cmd: nothing to build ahead of time (every check rebuilds from /repo); make sure the tools are there"""
import shutil, sys, subprocess
import z3
for t in ('clang-18',):
    if not shutil.which(t):
        print('missing ' + t)
        sys.exit(1)
print('z3', z3.get_version_string(), 'clang', subprocess.run(['clang-18', '--version'], capture_output=True, text=True).stdout.split('\n')[0])
