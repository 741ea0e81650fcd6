"""C15: lengths beyond 2^31 and 2^32."""
from build import *
from core_checks import HARNESSES

SRC = ['big.c', 'common.c', 'pbt.c']
HARNESSES['big'] = SRC


def big_variants():
    return [Variant('big_gcc', 'gcc', have=X86),
            Variant('big_clang_noasm', 'clang', opt=['-O2'], have=X86, asm=False),
            Variant('big_gcc_noasm', 'gcc', opt=['-O3'], have=X86, asm=False),
            Variant('big_clang', 'clang', opt=['-O1'], have=X86),
            Variant('big_omp', 'gcc', have=X86, cflags=['-fopenmp']),
            Variant('big_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], ldflags=['-static'], run=['qemu-aarch64'], speed=.05),
            Variant('big_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=['-static'], run=['qemu-s390x'], speed=.05)]


def C15(c):
    c.rule = ('One-shot and streaming calls with 1.5 to 5.8 * 10^9 bytes: lengths at and next to 2^31 and 2^32 (of the input or of the output), chunk boundaries there, texts with padding, damaged anywhere '
              '(also beyond 2^32) or truncated. Every output byte is compared. Every case is non-trivial; distinct by operation, codec, length, chunks and damage.')
    vs = big_variants()
    build_harness(vs, SRC, 'big')
    c.log('built')
    plan, omp = [], []
    for v in vs:
        for prop in ('big_enc', 'big_dec'):
            if 'omp' in v.name:
                omp.append(dict(variant=v, prop=prop, cases=c.n(3, 30), shards=1, params={'keep': 1}, cpu_limit=240))
            elif v.speed < .1:
                plan.append(dict(variant=v, prop=prop, cases=c.n(2, 20), shards=2, cpu_limit=500))
            else:
                plan.append(dict(variant=v, prop=prop, cases=c.n(24, 300), shards=4, cpu_limit=240))
    plan.sort(key=lambda p: p['variant'].speed)
    c.run_plan('big', plan)
    if not c.violation:
        c.log('serial builds done')
        for p in omp:
            if not c.violation:
                c.run_plan('big', [p])


CHECKS = {'C15': C15}
INFO = {'C15': ('property-based testing with generated lengths, chunkings and damage around 2^31 and 2^32 over aliased memory', 'About 200 calls (quick), all codecs this CPU can run, x86-64, aarch64 and s390x, and the OpenMP build. '
                '64-bit Windows (LLP64) is not built.', 'exploration')}
