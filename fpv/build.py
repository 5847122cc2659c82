"""Compile /repo's current main sources into a scratch directory (never into /repo)."""
import shutil, os, subprocess, glob, tempfile, hashlib, sys
REPO = os.environ.get('FPV_REPO', '/repo')
JDK = '/usr/lib/jvm/java-11-openjdk-amd64'
def netty():
    r = []
    for n in ('netty-buffer', 'netty-common'):
        c = sorted(glob.glob('/root/.gradle/caches/modules-2/files-2.1/io.netty/%s/*/*/%s-*.jar' % (n, n)))
        c = [x for x in c if not x.endswith('-sources.jar')]
        if not c: raise SystemExit('netty jar not found: ' + n)
        r.append(c[0])
    return r
def sources():
    out = []
    for m in sorted(os.listdir(REPO)):
        d = os.path.join(REPO, m, 'src/main/java')
        if os.path.isdir(d):
            for dd, _, fs in os.walk(d):
                out += [os.path.join(dd, f) for f in fs if f.endswith('.java')]
    return sorted(out)
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
def stub_classes(root):
    """class files of the executable specifications of library methods, compiled beside the program's"""
    d = root.rstrip('/') + '.stubs'
    if not os.path.isdir(d):
        t = tempfile.mkdtemp(prefix='stubs', dir=os.path.dirname(d))
        p = subprocess.run([JDK + '/bin/javac', '-nowarn', '-proc:none', '-source', '8', '-target', '8', '-encoding', 'UTF-8', '-g', '-Xlint:-options', '-cp', ':'.join(netty()), '-d', t] + sorted(glob.glob(STUBS + '/*.java')), capture_output=True, text=True)
        if p.returncode != 0: sys.stderr.write(p.stdout + p.stderr); raise SystemExit('compilation of the stubs failed')
        try: os.rename(t, d)
        except OSError:                  # another process was faster
            shutil.rmtree(t)
    return sorted(glob.glob(d + '/stub/*.class'))
def compile_repo(dest):
    os.makedirs(dest, exist_ok=True)
    src = sources()
    lst = os.path.join(dest, '..', 'srcs.txt')
    open(lst, 'w').write('\n'.join(src))
    p = subprocess.run([JDK + '/bin/javac', '-nowarn', '-proc:none', '-source', '8', '-target', '8', '-encoding', 'UTF-8', '-g',
                        '-Xlint:-options', '-cp', ':'.join(netty()), '-d', dest, '@' + lst], capture_output=True, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout + p.stderr)
        raise SystemExit('compilation of /repo failed')
    return src
