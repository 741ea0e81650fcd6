"""C10: run-time detection of x86 codecs; tracing of which codec runs."""
import itertools, random
import engine
from build import *
from build import _cc
from core_checks import HARNESSES

SRC = ['detect.c', 'common.c', 'pbt.c']
HARNESSES['detect'] = SRC


def one_variant(have, cc, opt, bits):
    n = 'det_%s_%s_%s_%d' % ('-'.join(have).lower() or 'none', cc, opt[1:], bits)
    m32 = bits == 32
    v = Variant(n, 'i686-linux-gnu-gcc' if m32 else cc, opt=[opt], have=have, cflags=['-fno-reorder-functions'] if cc == 'gcc' or m32 else [], ldflags=['-static'] if m32 else [])
    v.extra_params = {'have': ',' + ','.join(have).lower() + ','}
    v.harness_cflags = []
    return v


def det_variants(seed, thorough):
    rng = random.Random(seed)
    subs = [s for k in range(7) for s in itertools.combinations(X86, k)]
    first = [(), tuple(X86)] + [(x,) for x in X86] + [tuple(X86[:k]) for k in (3, 4, 5)]
    rest = [s for s in subs if s not in first]
    rng.shuffle(rest)
    pick = first + (rest if thorough else rest[:11])
    vs = []
    for s in pick:
        vs.append(one_variant(list(s), rng.choice(['gcc', 'clang']), rng.choice(['-O0', '-O1', '-O2', '-O3']), 32 if s != () and rng.random() < .2 else 64))
    vs.append(one_variant(X86, 'gcc', '-O2', 32))
    return list({v.name: v for v in vs}.values())


def parse(name):
    _, have, cc, opt, bits = name.split('_')
    return one_variant([] if have == 'none' else have.upper().split('-'), cc, '-' + opt, int(bits))


def build_detect(vs):
    build_libs(vs)
    src = snapshot()
    ren = []
    for v in vs:
        if getattr(v, 'renamed', False):
            continue
        v.renamed = True
        for _, o in [(0, o) for o in v.objs]:
            m = re.match(r'lib_arch_(\w+?)_', os.path.basename(o))
            if m:
                n = 'text_' + {'generic': 'plain'}.get(m.group(1), m.group(1))
                ren.append(['objcopy'] + [x for s in ('.text', '.text.unlikely', '.text.hot', '.text.startup') for x in ('--rename-section', s + '=' + n)] + [o])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_cc, ren))
    build_harness(vs, SRC, 'detect')


def C10(c):
    c.rule = ('Generated CPUs (CPUID leaves 0, 1, 7 with noise in all other bits, maximum leaf, XCR0) x builds with generated sets of codecs; the harness single-steps the library, answers CPUID and XGETBV, and '
              'records which codec is entered by the first and second call. Enumeration: all combinations of the 8 feature bits, 5 XCR0 bits, OSXSAVE and 4 maximum leaves, for the build with all codecs. '
              'Non-trivial: the CPU supports at least SSSE3, AVX or AVX2 by its own bits. Oracle: a table from the manuals; for combinations no real CPU has, only "supported and built in" is asked.')
    vs = det_variants(c.seed, c.thorough)
    build_detect(vs)
    c.log('built %d variants' % len(vs))
    full = [v for v in vs if len(v.have) == 6]
    plan = [dict(variant=v, prop='detect', cases=c.n(1500, 20000), shards=2) for v in vs]
    plan += [dict(variant=v, prop='detect_exh', cases=0 if c.thorough else 16000, shards=8) for v in full]
    c.run_plan('detect', plan)
    c.extra['codec sets'] = [v.name for v in vs]


def forced(c):
    """Part of C11."""
    vs = det_variants(c.seed + 7, c.thorough)
    vs = vs[:24]
    build_detect(vs)
    c.run_plan('detect', [dict(variant=v, prop='forced', cases=c.n(800, 10000), shards=2) for v in vs])


CHECKS = dict(C10=C10)
INFO = {'C10': ('property-based testing against simulated CPUs (single-stepping, emulated CPUID and XGETBV), bounded enumeration of feature combinations',
                'The chosen codec is recognised by the object file its code comes from. Trusts the table of requirements in harness/detect.c. 32 and 64 bits, gcc and clang; MSVC code is not built.', 'exploration')}
