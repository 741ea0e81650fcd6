"""C11: random build configurations, each probed with generated calls."""
import random
import engine
from build import *
from core_checks import HARNESSES
import core_checks

SRC = ['conf.c', 'common.c', 'pbt.c']
HARNESSES['conf'] = SRC

TARGETS = [
    # name, compilers, codecs, base flags, ldflags, runner
    ('x86_64', ['gcc', 'clang'], X86, [], [], []),
    ('i686', ['i686-linux-gnu-gcc'], X86, [], ['-static'], []),
    ('aarch64', ['aarch64-linux-gnu-gcc', 'clang'], ['NEON64'], [], ['-static'], ['qemu-aarch64']),
    ('armhf', ['arm-linux-gnueabihf-gcc', 'clang'], ['NEON32'], [], ['-static'], ['qemu-arm']),
    ('s390x', ['s390x-linux-gnu-gcc'], [], [], ['-static'], ['qemu-s390x']),
]


def config(k, seed):
    """The k-th configuration: a pure function of seed and k."""
    r = random.Random(seed * 1000003 + k)
    tname, ccs, codecs, base, ld, runner = TARGETS[r.choice([0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4])]
    cc = r.choice(ccs)
    if k < 9 and seed is not None:
        # the single-codec and complete builds always take part
        tname, ccs, codecs, base, ld, runner = TARGETS[0]
        cc = ccs[k % 2]
        have = [X86[k]] if k < 6 else [] if k == 6 else X86
    else:
        mode = r.random()
        have = list(codecs) if mode < .2 else [] if mode < .25 else [c for c in codecs if r.random() < .5]
    flags = list(base)
    if cc == 'clang' and tname == 'aarch64':
        flags.append('--target=aarch64-linux-gnu')
    if cc == 'clang' and tname == 'armhf':
        flags.append('--target=arm-linux-gnueabihf')
    codec_cflags = {}
    if tname == 'armhf' and r.random() < .5:
        flags.append('-mfpu=neon')      # for all files: the default codec becomes NEON32
    opt = [r.choice(['-O0', '-O1', '-O2', '-O3', '-O3', '-Os', '-Og'])]
    for f in (['-funsigned-char'], ['-fsigned-char'], ['-fPIC'], ['-fno-builtin'], ['-fwrapv'], ['-fstack-protector-strong'], ['-fno-inline-functions'], ['-g']):
        if r.random() < .15:
            flags += f
    ldflags = list(ld)
    openmp = False
    if tname == 'x86_64' and cc == 'gcc' and r.random() < .15:
        openmp = True
        flags.append('-fopenmp')
    if tname == 'x86_64' and cc == 'gcc' and r.random() < .15:
        flags.append('-flto')
    if tname == 'x86_64' and r.random() < .1:
        flags += ['-mno-red-zone']
    if tname == 'i686' and r.random() < .3:
        flags += ['-march=pentium4']
    asm = True
    if tname == 'x86_64':
        m = r.random()
        asm = True if m < .4 else False if m < .6 else sorted(c for c in ('SSSE3', 'SSE41', 'SSE42', 'AVX', 'AVX2') if r.random() < .5)
    std = r.choice(['-std=c99', '-std=c99', '-std=gnu99', '-std=c11', '-std=gnu17'])
    v = Variant('c%d' % k, cc, opt=opt, have=have, asm=asm, cflags=flags, ldflags=ldflags, run=runner, std=std, avail=[c for c in have if c not in X86 or c in HOST_X86],
                harness_cflags=[f for f in flags if f.startswith(('--target', '-mfpu'))], speed=.05 if runner else 1)
    v.config = {'target': tname, 'compiler': cc, 'opt': opt, 'flags': flags, 'std': std, 'have': have, 'asm': asm}
    return v


def prepare(vs):
    """Harness objects are the same for all variants of a target: compile them once each."""
    build_harness(vs, SRC, 'conf')


def C11(c):
    c.rule = ('Random build configurations (target, compiler, optimisation level, language standard, code generation flags, subset of codecs, inline assembly per codec), each probed with random '
              'one-shot and streaming calls with flags 0, every built-in codec and every absent codec. Non-trivial: at least one input byte; distinct by configuration, codec, operation and input. '
              'Oracle: reference model; absent codecs: -1 / nothing, outlen 0, output untouched. In a second part, x86 builds are '
              'single-stepped on simulated CPUs, and a forced codec that is built in must be the one entered.')
    n = c.n(48, 500)
    done = 0
    kinds = set()
    batch = 64 if c.thorough else 48
    while done < n and not c.violation:
        vs = [config(k, c.seed) for k in range(done, min(n, done + batch))]
        try:
            prepare(vs)
        except BuildError as e:
            # a configuration that does not build: find which, and say so
            for v in vs:
                v.objs = None
                try:
                    prepare([v])
                except BuildError as e1:
                    c.violate('this configuration does not build: %s\n%s' % (v.config, e1), {'kind': 'config', 'seed': c.seed, 'k': int(v.name[1:]), 'config': v.config})
                    return
            raise e
        c.log('built %d configurations' % len(vs))
        plan = []
        for v in vs:
            q = 150 if v.run else 1500
            plan.append(dict(variant=v, prop='conf', cases=c.n(q, q * 4), shards=1, params={'config': v.name[1:]}))
            kinds.add((v.config['target'], v.cc, v.opt[0], tuple(v.have), str(v.asm)))
        c.run_plan('conf', plan)
        for v in vs:
            shutil.rmtree(v.dir(), ignore_errors=True)
        done += len(vs)
    c.extra['configurations'] = done
    c.extra['distinct_configurations'] = len(kinds)
    c.extra['configuration_samples'] = [config(k, c.seed).config for k in range(9, min(n, 19))]
    c.parts = c.parts[:60]
    if not c.violation:
        import detect_checks
        detect_checks.forced(c)


CHECKS = dict(C11=C11)


def replay_config(d):
    v = config(d['k'], d['seed'])
    try:
        prepare([v])
    except BuildError as e:
        print(e)
        print('VIOLATION property=C11 replay=(this file)')
        return 1
    print('the configuration builds')
    return 0


def find_variant(name, seed):
    return config(int(name[1:]), seed)


REPLAYERS = {'config': replay_config}
INFO = {'C11': ('property-based testing over generated build configurations and API calls', 'Samples configurations (48 quick, 500 thorough) on five targets; every configuration is probed with random calls. Trusts the '
                'reference model, compilers and qemu.', 'exploration')}
