"""C14: no dynamic memory, bounded stack."""
from build import *
from core_checks import HARNESSES

SRC = ['alloc.c', 'common.c', 'pbt.c']
HARNESSES['alloc'] = SRC


def alloc_variants():
    st = ['-static']
    vs = [Variant('al_gcc', 'gcc', have=X86, ldflags=st),
            Variant('al_gcc_noasm', 'gcc', opt=['-O2'], have=X86, asm=False, ldflags=st),
            Variant('al_clang', 'clang', have=X86, ldflags=st),
            Variant('al_clang_noasm', 'clang', opt=['-O2'], have=X86, asm=False, ldflags=st),
            Variant('al_gcc_O0', 'gcc', opt=['-O0'], have=X86, ldflags=st, speed=.4),
            Variant('al_clang_O0', 'clang', opt=['-O0'], have=X86, asm=False, ldflags=st, speed=.4),
            Variant('al_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=st),
            Variant('al_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], ldflags=st, run=['qemu-aarch64'], speed=.05),
            Variant('al_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], ldflags=st, run=['qemu-arm'], speed=.05),
            Variant('al_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=st, run=['qemu-s390x'], speed=.05)]
    for v in vs:
        if v.opt == ['-O0']:
            v.extra_params = {'limit': 65536}   # every intrinsic has variables of its own
    return vs


def C14(c):
    c.rule = ('Histories of 1-4 calls (one-shot and streaming, any codec, absent ones included, well-formed and damaged texts), up to 24 MiB, on a stack of their own: malloc and its relatives are replaced, '
              'system calls that get memory are filtered, and the stack in use is measured by painting it, and exactly by single-stepping. Limit: 16 KiB (64 KiB without optimisation) at every length. '
              'Non-trivial: a call with at least 48 bytes of input.')
    vs = alloc_variants()
    build_harness(vs, SRC, 'alloc')
    c.log('built')
    plan = []
    for v in vs:
        small = v.speed < .1
        n = c.n(2000, 40000)
        plan.append(dict(variant=v, prop='alloc_paint', cases=int(n * v.speed) if v.speed < 1 else n, shards=4, params={'big': 40 if small else 80, 'maxlen': 1 << 14 if small else 300000}))
        if not v.run:
            plan.append(dict(variant=v, prop='alloc_step', cases=c.n(400, 8000), shards=4))
    plan.sort(key=lambda p: p['variant'].speed)
    c.run_plan('alloc', plan)


CHECKS = {'C14': C14}
INFO = {'C14': ('property-based testing of call histories with replaced allocators, filtered system calls and measured stack', 'Stack limit of 16 KiB on inputs up to 24 MiB (single-stepped: up to 3000 bytes), ten builds '
                'without OpenMP; memory got by other means than malloc and its relatives or mapping system calls is not seen.', 'exploration')}
