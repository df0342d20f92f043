"""Builds everything a check needs from /repo's current working tree.

 * symbolic build: gfortran-11/gcc-11 -O2 -S -fdump-rtl-expand  (RTL + static data)
 * native build  : the project's own flags (-O2 -g), linked with harness + vp_native.c
 * asan build    : same with -fsanitize=address
Nothing is written below /repo.
"""
import os, re, glob, subprocess, sys, time, shutil, hashlib, tempfile, atexit, threading
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FC = 'gfortran-11'
CC = 'gcc-11'
SUN = 'lib/sundials-6.1.1'
NPROC = os.cpu_count() or 4

FCFLAGS = ['-ffree-line-length-none', '-DUSE_SUNDIALS', '-cpp']
# the flags of the symbolic build: the project's optimisation level; switches that only
# merge/clone function bodies are off so that symbol names stay one-to-one.
SYMFLAGS = ['-O2', '-S', '-w', '-fdump-rtl-expand', '-fno-optimize-sibling-calls', '-fno-ipa-icf',
            '-fno-stack-protector', '-fcf-protection=none', '-fno-jump-tables', '-fno-tree-switch-conversion',
            '-mmemcpy-strategy=libcall:-1:align', '-mmemset-strategy=libcall:-1:align']

MOD_RE = re.compile(r'(?im)^\s*module\s+(\w+)\s*(?:!.*)?$')
USE_RE = re.compile(r'(?im)^\s*use\s*(?:,\s*\w+\s*)?(?:::)?\s*(\w+)')


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def meson_list(var):
    """the sources SUNDIALS' meson.build compiles (comments dropped)"""
    txt = open(os.path.join(REPO, SUN, 'meson.build')).read()
    m = re.search(var + r'\s*=\s*files\((.*?)\n\)', txt, re.S)
    out = []
    for line in m.group(1).split('\n'):
        line = line.split('#')[0]
        out += re.findall(r"'([^']+)'", line)
    return [os.path.join(REPO, SUN, x) for x in out]


SUN_C_NEED = ('src/sundials/', 'src/nvector/', 'src/sunmatrix/dense/', 'src/sunlinsol/dense/',
              'src/sunnonlinsol/', 'src/cvodes/', 'src/sunmatrix/band/', 'src/sunmatrix/sparse/',
              'src/sunlinsol/band/', 'src/sunmemory/', 'src/sunlinsol/sp', 'src/sunlinsol/pcg', 'src/idas/', 'src/kinsol/')
SUN_F_NEED = ('fsundials_', 'fnvector_serial', 'fsunmatrix_', 'fsunlinsol_', 'fsunnonlinsol', 'fcvodes')


def fortran_sources(sundials=True):
    fs = sorted(glob.glob(REPO + '/src/*.F90') + glob.glob(REPO + '/src/**/*.F90', recursive=True))
    fs = sorted(set(fs))
    if sundials:
        fs += [f for f in meson_list('sundials_f_sources')
               if any(k in os.path.basename(f) for k in SUN_F_NEED)]
    return fs


def c_sources():
    return [f for f in meson_list('sundials_c_sources')
            if any(k in f for k in SUN_C_NEED)]


def c_includes():
    b = os.path.join(REPO, SUN)
    return ['-I' + os.path.join(b, d) for d in
            ('include', 'src/sundials', 'src/idas', 'src/kinsol', 'src/cvodes')]


class Tree:
    """one build directory"""

    def __init__(self, root, sym, extra_f=(), extra_c=(), flags=(), sundials=True, want_c=None, fortran=True):
        self.root = root
        self.sym = sym
        os.makedirs(root, exist_ok=True)
        self.extra_f = list(extra_f)
        self.extra_c = list(extra_c)
        self.flags = list(flags)
        self.sundials = sundials
        self.want_c = want_c
        self.fortran = fortran
        self.objs = []
        self.failed = {}

    def _oname(self, f):
        rel = os.path.relpath(f, '/').replace('/', '_')
        return os.path.join(self.root, rel)

    def _fortran(self, f):
        o = self._oname(f)
        if self.sym:
            cmd = [FC] + FCFLAGS + SYMFLAGS + self.flags + c_includes() + ['-I' + VERIF + '/harness', '-J', self.root, '-o', o + '.s',
                   '-dumpbase', os.path.basename(o), '-dumpdir', self.root + '/', f]
        else:
            cmd = [FC] + FCFLAGS + self.flags + c_includes() + ['-I' + VERIF + '/harness', '-c', '-J', self.root, '-o', o + '.o', f]
        run(cmd, cwd=self.root)
        return o

    def _c(self, f):
        o = self._oname(f)
        if self.sym:
            cmd = [CC] + SYMFLAGS + self.flags + c_includes() + ['-I' + VERIF + '/harness', '-o', o + '.s',
                   '-dumpbase', os.path.basename(o), '-dumpdir', self.root + '/', f]
        else:
            cmd = [CC] + self.flags + c_includes() + ['-I' + VERIF + '/harness', '-c', '-o', o + '.o', f]
        run(cmd, cwd=self.root)
        return o

    def build(self):
        fs = (fortran_sources(self.sundials) if self.fortran else []) + self.extra_f
        prov, uses = {}, {}
        for f in fs:
            t = open(f, errors='replace').read()
            # follow local #include of harness templates for `use` statements is not needed: they use vp/fazang
            for m in MOD_RE.findall(t):
                if m.lower() != 'procedure':
                    prov[m.lower()] = f
            uses[f] = [u.lower() for u in USE_RE.findall(t)]
        deps = {f: {prov[u] for u in uses[f] if u in prov and prov[u] != f} for f in fs}
        cs = []
        if self.sundials:
            cs = c_sources() if self.want_c is None else [f for f in c_sources() if any(k in f for k in self.want_c)]
        cs = cs + self.extra_c
        done = set()
        pending = dict(deps)
        running = {}
        with ThreadPoolExecutor(NPROC) as ex:
            cq = list(cs)
            while pending or running or cq:
                for f in [f for f, d in pending.items() if d <= done]:
                    del pending[f]
                    running[ex.submit(self._fortran, f)] = f
                while cq and len(running) < NPROC + 4:
                    f = cq.pop()
                    running[ex.submit(self._c, f)] = f
                if not running:
                    raise BuildError('module dependency cycle: %s' % list(pending))
                fin, _ = wait(list(running), return_when=FIRST_COMPLETED)
                for x in fin:
                    f = running.pop(x)
                    self.objs.append(x.result())
                    done.add(f)
        return self

    def link(self, exe, libs=()):
        self.exe = os.path.join(self.root, exe)
        run([FC] + self.flags + ['-rdynamic', '-o', self.exe] + [o + '.o' for o in self.objs] + list(libs) + ['-ldl', '-lm', '-lpthread'],
            cwd=self.root)
        return self.exe


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VP_SCRATCH')
        if base:
            os.makedirs(base, exist_ok=True)
            _scratch = base
        else:
            _scratch = tempfile.mkdtemp(prefix='vp_')
            pid = os.getpid()
            d = _scratch

            def clean():
                if os.getpid() == pid:
                    shutil.rmtree(d, ignore_errors=True)
            atexit.register(clean)
    return _scratch
