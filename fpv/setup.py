"""setup_cmd: nothing is installed; makes sure that the tools are there and that /repo compiles."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.dont_write_bytecode = True
import z3, build
d = tempfile.mkdtemp(prefix='fpv-setup-')
try:
    n = len(build.compile_repo(os.path.join(d, 'cls')))
    print('z3 %s, %d sources compile, netty %s' % (z3.get_version_string(), n, [os.path.basename(x) for x in build.netty()]))
finally: shutil.rmtree(d, ignore_errors=True)
