"""C23: only the documented functions are exported."""
import hashlib, random
from build import *
from build import _cc

SEVEN = ['base64_decode', 'base64_encode', 'base64_stream_decode', 'base64_stream_decode_init', 'base64_stream_encode', 'base64_stream_encode_final', 'base64_stream_encode_init']
MAKEVAR = {c: c + '_CFLAGS' for c in CODECS}
TARGETS = {  # name: (cc, prefix of the binutils, runner, codecs)
    'gcc': ('gcc', '', [], X86), 'clang': ('clang', '', [], X86),
    'i686': ('i686-linux-gnu-gcc', '', [], X86),
    'aarch64': ('aarch64-linux-gnu-gcc', 'aarch64-linux-gnu-', ['qemu-aarch64'], ['NEON64']),
    'armhf': ('arm-linux-gnueabihf-gcc', 'arm-linux-gnueabihf-', ['qemu-arm'], ['NEON32']),
    's390x': ('s390x-linux-gnu-gcc', 's390x-linux-gnu-', ['qemu-s390x'], []),
}


def config(seed, k):
    r = random.Random('%d/%d' % (seed, k))
    kind = 'cmake' if k % 4 == 3 else 'shared' if k % 4 == 1 else 'make'
    t = r.choice(['gcc', 'gcc', 'clang', 'clang', 'i686', 'aarch64', 'armhf', 's390x']) if kind == 'make' else r.choice(['gcc', 'gcc', 'clang', 'clang', 'i686'] if kind == 'shared' else ['gcc', 'clang'])
    pool = TARGETS[t][3]
    have = [] if r.random() < .12 else list(pool) if r.random() < .25 else [c for c in pool if r.random() < .5]
    opt = r.choice(['-O0', '-O1', '-O2', '-O3', '-Os', '-Og'])
    extra = [f for f in ('-fPIC', '-g', '-fno-inline', '-ffunction-sections', '-fdata-sections', '-fcommon', '-fvisibility=hidden', '-fno-asynchronous-unwind-tables', '-fstack-protector-all') if r.random() < .18]
    omp = r.random() < .15 and t in ('gcc', 'i686', 's390x', 'aarch64')
    return dict(k=k, kind=kind, target=t, have=have, opt=opt, extra=extra, openmp=omp, version=r.random() < .5)


def describe(f):
    return '%s, %s, %s %s, codecs: %s%s' % (f['kind'], f['target'], f['opt'], ' '.join(f['extra']), ' '.join(f['have']) or 'none', ', OpenMP' if f['openmp'] else '')


def nm(args, f):
    r = subprocess.run(['nm'] + args + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise ToolError('nm fails on %s: %s' % (f, r.stderr))
    out = []
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) >= 2:
            out.append((p[-1].split('@')[0], p[-2]))
    return out


def artefact(f):
    """Builds the library the way f says. Returns (directory, file, other names in it)."""
    src = snapshot()
    d = os.path.join(scratch(), 'x%d' % f['k'])
    cc, pre, _, _ = TARGETS[f['target']]
    shutil.copytree(src, d, ignore=shutil.ignore_patterns('harness', 'config.h'))
    names = set()
    if f['kind'] == 'make':
        # CFLAGS come from the environment, as a packager passes them: the Makefile adds its own after them
        cmd = ['make', '-C', d, 'lib/libbase64.o', 'CC=' + cc, 'LD=%sld' % pre, 'OBJCOPY=%sobjcopy' % pre] + ['%s=%s' % (MAKEVAR[c], ' '.join(CODEC_CFLAGS[c]) or ' ') for c in f['have']]
        if 'NEON64' in f['have']:
            cmd = [x for x in cmd if not x.startswith('NEON64')] + ['NEON64_CFLAGS=-g0']
        if f['openmp']:
            cmd.append('OPENMP=1')
        if f['target'] == 'i686':
            cmd = [x for x in cmd if not x.startswith('LD=')] + ['LD=ld -m elf_i386']
        env = dict(os.environ, CFLAGS=' '.join([f['opt']] + f['extra']))
        r = run(cmd, env=env)
        if r.returncode:
            raise BuildError('make fails (%s):\n%s' % (describe(f), r.stdout[-2500:]))
        lib = os.path.join(d, 'lib', 'libbase64.o')
        objs = [o for o in glob.glob(os.path.join(d, 'lib', '**', '*.o'), recursive=True) if o != lib]
    elif f['kind'] == 'shared':
        # by hand: the sources compiled as parts of a shared library, default visibility hidden
        v = Variant('x%d' % f['k'], cc, opt=[f['opt']], have=f['have'])
        config_h(d, f['have'])
        objs = []
        for s in lib_sources(d):
            o = s[:-2] + '.o'
            c = codec_of(s)
            _cc([cc, '-std=c99', f['opt'], '-fPIC', '-fvisibility=hidden', '-DBASE64_EXPORTS', '-I' + d] + [x for x in f['extra'] if 'PIC' not in x] + (['-fopenmp'] if f['openmp'] else []) +
                (CODEC_CFLAGS[c] if c in f['have'] else []) + ['-c', s, '-o', o])
            objs.append(o)
        lib = os.path.join(d, 'libbase64.so')
        _cc([cc, '-shared', '-o', lib] + objs + (['-fopenmp'] if f['openmp'] else []) + ['-Wl,--no-undefined'])
    else:
        b = os.path.join(d, 'b')
        cmd = ['cmake', '-S', d, '-B', b, '-DBUILD_SHARED_LIBS=ON', '-DCMAKE_C_COMPILER=' + cc, '-DCMAKE_C_FLAGS=' + ' '.join([f['opt']] + [x for x in f['extra'] if 'visib' not in x]), '-DBASE64_WERROR=OFF', '-DBASE64_BUILD_CLI=OFF']
        cmd += ['-DBASE64_WITH_%s=%s' % (c, 'ON' if c in f['have'] else 'OFF') for c in X86]
        cmd.append('-DBASE64_WITH_OpenMP=%s' % ('ON' if f['openmp'] else 'OFF'))
        r = run(cmd)
        if r.returncode == 0:
            r = run(['cmake', '--build', b, '--target', 'base64'])
        if r.returncode:
            raise BuildError('cmake fails (%s):\n%s' % (describe(f), r.stdout[-2500:]))
        lib = os.path.realpath(glob.glob(os.path.join(b, 'bin', 'libbase64.so'))[0])
        objs = glob.glob(os.path.join(b, '**', '*.o'), recursive=True)
    for o in objs:
        for n, t in nm(['-a'], o):
            # what the library refers to, the C library apart, could also be the program's
            if (t in 'Uwv' and re.match(LIBC, n)) or t in 'aNn':
                continue
            if re.fullmatch(r'[A-Za-z_]\w*', n):
                names.add(n)
    return d, lib, sorted(names)


LIBC = r'(_|mem|str|GOMP|omp_|gomp|is[a-z]+$|to(lower|upper)$|f?printf$|s?n?printf$|abort$|exit$|malloc$|calloc$|realloc$|free$|assert|errno)'
KEYWORDS = set('main asm auto break case char const continue default do double else enum extern float for goto if int long register return short signed sizeof static struct switch typedef union unsigned void volatile while '
               'bool catch class delete explicit export false friend inline mutable namespace new operator private protected public template this throw true try typename using virtual wchar_t and or not xor'.split())
EXTRA_NAMES = ['codec', 'encode', 'decode', 'base64', 'base64_init', 'base64_version', 'table', 'enc_reshuffle', 'dec_reshuffle', 'enc_translate', 'enc_loop', 'dec_loop', 'codec_choose', 'codec_get', 'codec_forced',
               'base64_table_enc', 'base64_table_dec', 'base64_stream', 'base64_free', 'base64_alloc', 'base64_encode_openmp', 'base64_decode_openmp', 'base64_stream_decode_final', 'base64_stream_decode_plain', 'base64_stream_encode_plain',
               'state', 'eof', 'carry', 'lut', 'outl', 'srcl', 'init_base64_state', 'base64_encode_avx2', 'supports_avx', 'codec_init', 'cpuid', 'xgetbv']


def client(f, names, rng, cxx_ok=True):
    """A program that defines other global names, and uses the library."""
    pool = sorted({n for n in list(names) + EXTRA_NAMES if n not in SEVEN and n not in KEYWORDS and not n.startswith(('__', '_GLOBAL', 'L', '.')) and not (n.startswith('_') and n[1:2].isupper())})
    harvested = [n for n in pool if n in names]
    chosen = sorted(set(rng.sample(harvested, rng.randint(0, len(harvested))) + rng.sample(pool, rng.randint(1, min(12, len(pool)))) + ['own_%06x' % rng.randrange(1 << 24) for _ in range(2)]))
    # of the C library: a client that defines these is asking for it
    chosen = [n for n in chosen if n not in ('memcpy', 'memset', 'memcmp', 'printf', 'abort', 'exit', 'main')]
    lang = rng.choice(['gnu89', 'c99', 'c11', 'gnu11'] + (['c++98', 'c++11', 'c++17', 'c++20'] if cxx_ok else []))
    cxx = lang.startswith('c++')
    o = ['#include "libbase64.h"', '#include <string.h>', '#include <stdio.h>', '#include <stdlib.h>']
    if cxx:
        o.append('extern "C" {')
    check = []
    for n in chosen:
        if rng.random() < .55:
            o.append('int %s (void); int %s (void) { printf("the library calls the %s of the program\\n"); fflush(stdout); abort(); return 0; }' % (n, n, n))
        else:
            v = rng.randrange(1, 1 << 31)
            o.append('%slong %s[4]%s = { %dL, %dL, %dL, %dL };' % ('extern long %s[4]; ' % n if cxx else '', n, '', v, v, v, v))
            check.append('	{ int i; for (i = 0; i < 4; i++) if (%s[i] != %dL) { printf("%s of the program was changed\\n"); return 3; } }' % (n, v, n))
    if cxx:
        o.append('}')
    size = rng.choice([1, 2, 3, 5, 48, 100, 1000, 5000])
    seed = rng.randrange(1, 60000)
    o.append(r'''
static unsigned char in[6000], back[6000]; static char out[9000], out2[9000];
int main (void)
{
	static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	size_t n = %d, ol = 0, k = 0, i, l; unsigned long r = %dUL; struct base64_state st;
	for (i = 0; i < n; i++) { r = (r * 1103515245UL + 12345UL) & 0x7fffffffUL; in[i] = (unsigned char)(r >> 16); }
	for (i = 0; i < n; i += 3) {
		unsigned long g = (unsigned long)in[i] << 16 | (i + 1 < n ? (unsigned long)in[i + 1] << 8 : 0) | (i + 2 < n ? in[i + 2] : 0);
		out2[k++] = a[g >> 18 & 63]; out2[k++] = a[g >> 12 & 63]; out2[k++] = i + 1 < n ? a[g >> 6 & 63] : '='; out2[k++] = i + 2 < n ? a[g & 63] : '=';
	}
	base64_encode((char *)in, n, out, &ol, 0);
	if (ol != k || memcmp(out, out2, k)) { printf("base64_encode is wrong\n"); return 4; }
	if (base64_decode(out, ol, (char *)back, &l, 0) != 1 || l != n || memcmp(in, back, n)) { printf("base64_decode is wrong\n"); return 5; }
	base64_stream_encode_init(&st, BASE64_FORCE_PLAIN);
	base64_stream_encode(&st, (char *)in, n / 2, out, &ol); i = ol;
	base64_stream_encode(&st, (char *)in + n / 2, n - n / 2, out + i, &ol); i += ol;
	base64_stream_encode_final(&st, out + i, &ol); i += ol;
	if (i != k || memcmp(out, out2, k)) { printf("stream encoding is wrong\n"); return 6; }
	base64_stream_decode_init(&st, 0);
	if (base64_stream_decode(&st, out, k / 2, (char *)back, &ol) != 1) return 7;
	i = ol;
	if (base64_stream_decode(&st, out + k / 2, k - k / 2, (char *)back + i, &ol) != 1) return 7;
	if (i + ol != n || memcmp(in, back, n)) { printf("stream decoding is wrong\n"); return 8; }
%s
	return 0;
}''' % (size, seed, '\n'.join(check)))
    return '\n'.join(o) + '\n', lang, chosen, cxx


def run_client(c, f, d, lib, names, seed, j):
    rng = random.Random('%d/%d/%d' % (seed, f['k'], j))
    cc = TARGETS[f['target']][0]
    cxxdrv = {'gcc': 'g++', 'clang': 'clang++'}.get(cc, cc.replace('-gcc', '-g++'))
    text, lang, chosen, cxx = client(f, names, rng, shutil.which(cxxdrv) is not None)
    drv = cxxdrv if cxx else cc
    rep = {'kind': 'export', 'seed': seed, 'k': f['k'], 'client': j, 'config': describe(f)}
    p = os.path.join(d, 'client%d.%s' % (j, 'cc' if cxx else 'c'))
    with open(p, 'w') as h:
        h.write(text)
    static = f['kind'] == 'make'
    exe = os.path.join(d, 'client%d' % j)
    cmd = [drv, '-std=' + lang, '-w', '-fno-builtin', rng.choice(['-O0', '-O2']), '-I' + os.path.join(d, 'include')]
    if static and rng.random() < .7:
        cmd.append('-DBASE64_STATIC_DEFINE')
    cmd += [p, lib, '-o', exe]
    if f['openmp']:
        cmd.append('-fopenmp')
    if static and f['target'] in ('i686', 'aarch64', 'armhf', 's390x'):
        cmd.append('-static')
    elif not static:
        cmd += ['-rdynamic', '-Wl,-rpath,' + os.path.dirname(lib)]
        if f['target'] == 'i686':
            # no 32-bit loader here perhaps: link only
            pass
    what = '%s; client in %s defining %d names (%s...)' % (describe(f), lang, len(chosen), ', '.join(chosen[:6]))
    r = run(cmd)
    if r.returncode:
        c.violate('a client does not link: %s\n%s' % (what, r.stdout[-1500:]), rep)
        return
    if not static and f['target'] not in ('gcc', 'clang'):
        c.record(1, ['client-%d-%d-%d' % (seed, f['k'], j)], 'client linked')
        return
    r = subprocess.run(TARGETS[f['target']][2] + [exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if r.returncode:
        c.violate('a client fails (exit %d): %s\n%s' % (r.returncode, what, r.stdout[-500:]), rep)
        return
    c.record(1, ['client-%d-%d-%d' % (seed, f['k'], j)], ['client run', lang], what if j < 1 else None)


def one(c, seed, k, clients, only=None):
    if c.violation:
        return
    f = config(seed, k)
    rep = {'kind': 'export', 'seed': seed, 'k': k, 'client': -1, 'config': describe(f)}
    d = None
    try:
        d, lib, names = artefact(f)
    except BuildError as e:
        c.violate('this configuration does not build: %s' % e, rep)
        return
    if f['kind'] == 'make':
        got = sorted({n for n, t in nm(['-g', '--defined-only'], lib)})
    else:
        got = sorted({n for n, t in nm(['-D', '--defined-only'], lib) if n not in ('_init', '_fini', '__bss_start', '_edata', '_end')})
    more, less = [n for n in got if n not in SEVEN], [n for n in SEVEN if n not in got]
    c.record(1, ['config-%d-%d' % (seed, k)], [f['kind'], f['target']], describe(f))
    if more or less:
        c.violate('%s: %s' % (describe(f), '; '.join((['exports also ' + ', '.join(more)] if more else []) + (['does not export ' + ', '.join(less)] if less else []))), rep)
    for j in ([only] if only is not None and only >= 0 else range(clients) if only is None else []):
        if not c.violation:
            run_client(c, f, d, lib, names, seed, j)
    shutil.rmtree(d, ignore_errors=True)


def C23(c):
    c.rule = ('Generated configurations (Makefile object, shared library by CMake, shared library by hand; compiler and target, optimisation, flags, codecs, OpenMP): the defined global symbols must be the seven. '
              'For each, generated clients in gnu89..C++20 that define names harvested from the objects, likely names and random ones as functions or data, and run the whole API against a model. '
              'Non-trivial: a distinct configuration or client.')
    snapshot()
    n = c.n(64, 900)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda k: one(c, c.seed, k, c.n(6, 12)), range(n)))


class _C:
    def __init__(self):
        self.id, self.violation = 'C23', None

    def record(self, *a, **k):
        pass

    def violate(self, msg, replay):
        self.violation = self.violation or msg


def replay_export(d):
    c = _C()
    one(c, d['seed'], d['k'], 0, d['client'])
    if c.violation:
        print(c.violation)
        print('VIOLATION property=C23 replay=(this file)')
        return 1
    print('held')
    return 0


CHECKS = {'C23': C23}
REPLAYERS = {'export': replay_export}
INFO = {'C23': ('property-based testing over generated build configurations and generated client programs', 'Samples configurations (64 quick, 900 thorough) on ELF platforms; Mach-O and Windows artefacts are not built.', 'exploration')}
