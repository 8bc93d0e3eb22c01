"""Bring up Cheetah from /repo's working tree inside the simulator."""
import atexit
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRATCH = None


def make_scratch():
    global SCRATCH
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    SCRATCH = tempfile.mkdtemp(prefix='cheetah-sim-', dir=base)
    owner = os.getpid()

    def clean():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(clean)
    return SCRATCH


def build_extension(scratch):
    """Compile the C NameMapper of the current working tree."""
    src = os.path.join(REPO, 'Cheetah', 'c', '_namemapper.c')
    out = os.path.join(scratch, '_namemapper.so')
    inc = sysconfig.get_paths()['include']
    cc = shutil.which('gcc') or shutil.which('cc') or 'gcc'
    r = subprocess.run(
        [cc, '-shared', '-fPIC', '-O2', '-I', inc, '-I', os.path.dirname(src),
         src, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise RuntimeError('C NameMapper does not build:\n'
                           + r.stdout.decode('utf-8', 'replace'))
    return out


def tree_digest():
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(os.path.join(REPO, 'Cheetah'))):
        dirs[:] = sorted(x for x in dirs if x not in ('Tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith(('.py', '.c', '.h')):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


def preload():
    """Standard library the harness and Cheetah use, imported before any seam
    is patched so that their own locks and clocks stay real."""
    names = """argparse cgi codecs collections copy datetime email errno
    fnmatch gc getopt glob hashlib html importlib.machinery inspect io
    itertools json keyword linecache locale logging marshal math optparse
    pickle pprint py_compile random re shlex shutil signal string tempfile
    textwrap threading time tokenize traceback types unittest urllib.parse
    uuid warnings weakref xml.sax.saxutils zipimport contextlib functools
    operator queue socket struct concurrent.futures multiprocessing secrets
    pathlib importlib.util importlib.abc zipfile fileinput code ast dis
    markdown pygments pygments.lexers pygments.formatters""".split()
    for n in names:
        try:
            __import__(n)
        except ImportError:
            pass


def boot(pure=False, ext=None):
    """Install the seams and import Cheetah.  Call once per process."""
    import warnings
    warnings.simplefilter('ignore')
    preload()
    import importlib
    from . import clock, fs, sched
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(SCRATCH, 'no-stale-bytecode')
    clock.install()
    sched.install()
    fs.install()
    sched.TRACE_PREFIXES[:] = [os.path.join(REPO, 'Cheetah') + os.sep,
                               SCRATCH + os.sep]
    sys.path.insert(0, REPO)
    if pure:
        sys._cheetah_namemapper_pure = True
    elif ext:
        import Cheetah
        spec = importlib.util.spec_from_file_location(
            'Cheetah._namemapper', ext)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules['Cheetah._namemapper'] = mod
        Cheetah._namemapper = mod
    import Cheetah
    import Cheetah.Template
    import Cheetah.NameMapper
    import Cheetah.CacheStore
    import Cheetah.ImportHooks
    import Cheetah.LoadTemplate
    import Cheetah.CheetahWrapper
    sys.pycache_prefix = None
    assert Cheetah.__file__.startswith(REPO + os.sep), Cheetah.__file__
    assert bool(Cheetah.NameMapper.C_VERSION) == (not pure)
    # warm caches inside the regular-expression engine and the parser once,
    # so that every run starts from the same state
    t = Cheetah.Template.Template.compile('warm $x #if 1#y#end if#',
                                          useCache=False,
                                          cacheCompilationResults=False)
    assert str(t(searchList=[{'x': 'up'}])) == 'warm up y'
    clock.CLOCK.reset()
    clock.RANDOM.reset(0)
