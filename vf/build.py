"""Building from /repo's current working tree, in a scratch directory of our own."""
import os, subprocess, tempfile, shutil, atexit, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None


class BuildError(Exception):
    pass


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf.', dir=os.environ.get('VF_TMP', '/tmp'))
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


_inc_lock = __import__("threading").Lock()


def incdirs():
    with _inc_lock:
        return _incdirs()


def _incdirs():
    """-I flags; the generated libu_conf.h is taken from the build when there is one, else
    from the copy in /verif/conf (same content, written by configure on this platform)"""
    d = os.path.join(scratch(), 'include', 'u')
    if not os.path.isdir(d):
        os.makedirs(d)
        conf = os.path.join(REPO, '_build/include/u/libu_conf.h')
        if not os.path.exists(conf):
            conf = os.path.join(VERIF, 'conf/libu_conf.h')
        shutil.copy(conf, os.path.join(d, 'libu_conf.h'))
        for n in ('missing', 'toolbox'):
            os.symlink(os.path.join(REPO, 'include', n), os.path.join(d, n))
    return ['-D_GNU_SOURCE', '-DHAVE_CONF_H', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(scratch(), 'include')]


def run(cmd, what, timeout=300, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    if r.returncode != 0:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stdout.decode('utf8', 'replace')[-3000:]))
    return r.stdout.decode('utf8', 'replace')


def emit_ir(tu):
    """LLVM IR of /repo/srcs/<tu>.c exactly as the compiler's front end sees it"""
    d = os.path.join(scratch(), 'ir')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, tu.replace('/', '_') + '.ll')
    if not os.path.exists(out):
        run(['clang-18', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-S', '-emit-llvm', '-w']
            + incdirs() + [os.path.join(REPO, 'srcs', tu + '.c'), '-o', out], 'compiling %s to IR' % tu)
    return out


SAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g', '-O1', '-w']


def lib_sources():
    incdirs()
    conf = open(os.path.join(scratch(), 'include/u/libu_conf.h')).read().split()
    out = sorted(glob.glob(os.path.join(REPO, 'srcs/toolbox/*.c')))
    for m in sorted(glob.glob(os.path.join(REPO, 'srcs/missing/*.c'))):
        if 'HAVE_' + os.path.basename(m)[:-2].upper() not in conf:
            out.append(m)
    return out


def build_lib(fuzz=True, flags=()):
    key = hashlib.md5(repr((fuzz, flags)).encode()).hexdigest()[:8]
    d = os.path.join(scratch(), 'obj-' + key)
    if os.path.isdir(d):
        return sorted(glob.glob(d + '/*.o'))
    os.makedirs(d)
    fl = SAN + (['-fsanitize=fuzzer-no-link'] if fuzz else []) + list(flags)

    def one(src):
        o = os.path.join(d, os.path.relpath(src, REPO).replace('/', '_')[:-2] + '.o')
        run(['clang-18'] + fl + incdirs() + ['-c', src, '-o', o], 'compiling ' + src)
        return o
    srcs = [s for s in lib_sources() if not s.endswith('facility.c')]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


def build_driver(name, defs=(), fuzz=True, wraps=(), libflags=()):
    exe = os.path.join(scratch(), 'drv-%s-%s' % (name, hashlib.md5(repr((defs, fuzz)).encode()).hexdigest()[:6]))
    if os.path.exists(exe):
        return exe
    objs = build_lib(fuzz, tuple(libflags))
    cmd = ['clang-18'] + SAN + ['-fsanitize=fuzzer' if fuzz else '-O1'] + list(defs) + incdirs() + \
        ['-I' + os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'drivers', name + '.c')] + objs + ['-o', exe, '-lm', '-lpthread'] + \
        ['-Wl,--wrap=%s' % w for w in wraps]
    run(cmd, 'building driver ' + name)
    return exe
