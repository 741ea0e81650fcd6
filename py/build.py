"""Builds the library of /repo's working tree, in many variants, inside a scratch directory."""
import glob, os, re, shutil, subprocess, tempfile, atexit, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = os.cpu_count() or 8
CODECS = ['AVX512', 'AVX2', 'NEON32', 'NEON64', 'SSSE3', 'SSE41', 'SSE42', 'AVX']
X86 = ['SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2', 'AVX512']
FLAG = {'AVX2': 1, 'NEON32': 2, 'NEON64': 4, 'PLAIN': 8, 'SSSE3': 16, 'SSE41': 32, 'SSE42': 64, 'AVX': 128, 'AVX512': 256}
CODEC_CFLAGS = {'SSSE3': ['-mssse3'], 'SSE41': ['-msse4.1'], 'SSE42': ['-msse4.2'], 'AVX': ['-mavx'], 'AVX2': ['-mavx2'],
                'AVX512': ['-mavx512vl', '-mavx512vbmi'], 'NEON32': ['-mfpu=neon'], 'NEON64': []}


class ToolError(Exception):
    """The check could not be carried out (exit 2: neither held nor violated)."""


class BuildError(ToolError):
    pass


def config_h(d, have):
    with open(os.path.join(d, 'config.h'), 'w') as f:
        for c in CODECS:
            f.write('#define HAVE_%s %d\n' % (c, c in have))


def cpu_flags():
    try:
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                return set(l.split(':')[1].split())
    except OSError:
        pass
    return set()


HOST = cpu_flags() - set(os.environ.get('VERIF_HIDE_CPU', '').split())
# What the CPU this runs on can execute natively.
CPU_FLAG = {'SSSE3': 'ssse3', 'SSE41': 'sse4_1', 'SSE42': 'sse4_2', 'AVX': 'avx', 'AVX2': 'avx2', 'AVX512': 'avx512vbmi'}
HOST_X86 = [c for c in X86 if CPU_FLAG[c] in HOST and (c != 'AVX512' or 'avx512vl' in HOST)]


def _emulate_avx512():
    """On a CPU without AVX512-VBMI its codec is built with the instructions emulated in C (harness/avx512), if that compiles."""
    flags = ['-mavx2', '-I' + os.path.join(VERIF, 'harness', 'avx512')]
    with tempfile.TemporaryDirectory(dir=os.environ.get('VERIF_SCRATCH', '/tmp')) as d:
        config_h(d, ['AVX2', 'AVX512'])
        for f in glob.glob(os.path.join(REPO, 'lib', 'arch', 'avx512', '*.c')):
            if os.path.basename(f) == 'codec.c' and subprocess.run(['gcc', '-std=c99', '-w', '-I' + d] + flags + ['-c', f, '-o', d + '/o'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return False
    CODEC_CFLAGS['AVX512'] = flags
    return True


EMULATED = []
if 'AVX512' not in HOST_X86 and 'AVX2' in HOST_X86 and 'emulation' not in os.environ.get('VERIF_HIDE_CPU', '') and _emulate_avx512():
    HOST_X86.append('AVX512')
    EMULATED.append('AVX512')

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VERIF_SCRATCH', '/tmp')
        _scratch = tempfile.mkdtemp(prefix='b64verif.', dir=base)
        atexit.register(cleanup)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def snapshot():
    """A copy of the sources (the Makefile's lib/config.h would shadow ours)."""
    d = os.path.join(scratch(), 'src')
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    for t in ('lib', 'include', 'bin', 'cmake', 'test'):
        if os.path.isdir(os.path.join(REPO, t)):
            shutil.copytree(os.path.join(REPO, t), os.path.join(d, t), ignore=shutil.ignore_patterns('*.o', 'config.h', 'exports.build.txt', 'table_generator', '__pycache__'))
    for f in ('Makefile', 'CMakeLists.txt', 'README.md', 'LICENSE'):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy2(os.path.join(REPO, f), d)
    shutil.copytree(os.path.join(VERIF, 'harness'), os.path.join(d, 'harness'))
    return d


def lib_sources(src):
    """All translation units of the library: .c files that no other file includes."""
    files = sorted(glob.glob(os.path.join(src, 'lib', '**', '*.c'), recursive=True))
    included = set()
    for f in files + sorted(glob.glob(os.path.join(src, 'lib', '**', '*.h'), recursive=True)):
        for m in re.finditer(r'^\s*#\s*include\s+"([^"]+\.c)"', open(f, errors='replace').read(), re.M):
            for d in (os.path.dirname(f), os.path.join(src, 'lib')):
                p = os.path.normpath(os.path.join(d, m.group(1)))
                if os.path.exists(p):
                    included.add(p)
                    break
    return [f for f in files if f not in included and os.path.basename(f) != 'table_generator.c']


class Variant:
    def __init__(self, name, cc='gcc', opt=('-O3',), have=(), asm=True, cflags=(), ldflags=(), run=(), sanitizer=False, codec_cflags=None,
                 avail=None, harness_cflags=None, std='-std=c99', speed=1.0, note=''):
        self.name, self.cc, self.opt, self.have, self.asm = name, cc, list(opt), list(have), asm
        self.cflags, self.ldflags, self.run, self.sanitizer = list(cflags), list(ldflags), list(run), sanitizer
        self.codec_cflags = dict(CODEC_CFLAGS, **(codec_cflags or {}))
        # codecs that can be run here
        self.avail = list(avail) if avail is not None else [c for c in self.have if c not in X86 or c in HOST_X86]
        self.harness_cflags = harness_cflags
        self.std, self.speed, self.note = std, speed, note
        self.objs = None

    def dir(self):
        d = os.path.join(scratch(), 'v_' + self.name)
        os.makedirs(d, exist_ok=True)
        return d

    def cannot_param(self):
        return ','.join(c.lower() for c in self.have if c not in self.avail)

    def codecs_param(self):
        return ','.join(['plain'] + [c.lower() for c in self.avail])


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def _cc(cmd):
    r = run(cmd)
    if r.returncode:
        raise BuildError('compilation failed: %s\n%s' % (' '.join(cmd), r.stdout[-3000:]))
    return r


def codec_of(path):
    n = os.path.basename(os.path.dirname(path)).upper()
    return n if n in CODECS else None


def lib_jobs(v, src=None, extra=None):
    """(command, object) for every translation unit of the library."""
    src = src or snapshot()
    d = v.dir()
    config_h(d, v.have)
    jobs = []
    for f in lib_sources(src):
        rel = os.path.relpath(f, src)
        o = os.path.join(d, rel.replace('/', '_')[:-2] + '.o')
        cmd = [v.cc, v.std] + v.opt + v.cflags + ['-DBASE64_STATIC_DEFINE', '-I' + d]
        if not v.asm:
            cmd += ['-DBASE64_%s_USE_ASM=0' % c for c in ('SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2')]
        elif isinstance(v.asm, (set, list, tuple)):
            cmd += ['-DBASE64_%s_USE_ASM=0' % c for c in ('SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2') if c not in v.asm]
        c = codec_of(f)
        if c and c in v.have:
            cmd += v.codec_cflags.get(c, [])
        if extra:
            cmd += extra(rel)
        jobs.append((cmd + ['-c', f, '-o', o], o))
    v.objs = [o for _, o in jobs]
    return jobs


def build_libs(variants, extra=None):
    jobs = []
    for v in variants:
        if v.objs is None:
            jobs += lib_jobs(v, extra=extra)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: _cc(j[0]), jobs))


def build_harness(variants, sources, name, cflags=(), ldflags=(), defs=()):
    """Compiles and links harness/<sources> against each variant. Returns nothing; program at variant.dir()/name."""
    src = snapshot()
    build_libs(variants)
    links, jobs = [], []
    for v in variants:
        d = v.dir()
        hc = v.harness_cflags if v.harness_cflags is not None else v.cflags
        objs = []
        for s in sources:
            o = os.path.join(d, 'h_%s_%s.o' % (name, s.replace('/', '_').rsplit('.', 1)[0]))
            jobs.append([v.cc, '-std=gnu11', '-O1' if v.sanitizer else '-O2'] + hc + list(cflags) + list(defs) + (['-DPBT_SANITIZER'] if v.sanitizer else []) +
                        ['-DBASE64_STATIC_DEFINE', '-I' + os.path.join(src, 'harness'), '-c', os.path.join(src, 'harness', s), '-o', o])
            objs.append(o)
        links.append([v.cc] + v.opt + v.cflags + objs + v.objs + ['-o', os.path.join(d, name)] + v.ldflags + list(ldflags))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_cc, jobs))
        list(ex.map(_cc, links))


def prog(v, name):
    return v.run + [os.path.join(v.dir(), name)]


# ---------------------------------------------------------------- the usual variants

def std_variants(names=None):
    san = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g']
    vs = [
        Variant('gcc', 'gcc', have=X86),
        Variant('gcc_noasm', 'gcc', have=X86, asm=False),
        Variant('clang', 'clang', have=X86),
        Variant('clang_noasm', 'clang', opt=['-O2'], have=X86, asm=False),
        Variant('gcc_O0', 'gcc', opt=['-O0'], have=X86, asm=True, speed=.25),
        Variant('asan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=san, sanitizer=True, speed=.25),
        Variant('i686', 'i686-linux-gnu-gcc', have=X86, ldflags=['-static'], speed=.7),
        Variant('aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], avail=['NEON64'], ldflags=['-static'], run=['qemu-aarch64'], speed=.05),
        Variant('aarch64_clang', 'clang', have=['NEON64'], avail=['NEON64'], cflags=['--target=aarch64-linux-gnu'], ldflags=['-static'], run=['qemu-aarch64'], speed=.05),
        Variant('armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], avail=['NEON32'], ldflags=['-static'], run=['qemu-arm'], speed=.05),
        Variant('armhf_clang', 'clang', have=['NEON32'], avail=['NEON32'], cflags=['--target=arm-linux-gnueabihf', '-mfpu=neon'], ldflags=['-static'], run=['qemu-arm'], speed=.05),
        Variant('s390x', 's390x-linux-gnu-gcc', have=[], avail=[], ldflags=['-static'], run=['qemu-s390x'], speed=.05),
    ]
    if names is None:
        return vs
    by = {v.name: v for v in vs}
    return [by[n] for n in names]
