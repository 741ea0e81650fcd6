"""C25: a call only computes: the caller's registers and environment."""
from build import *
from core_checks import HARNESSES

SRC = ['abi.c', 'common.c', 'pbt.c']
HARNESSES['abi'] = SRC


def abi_variants():
    st = ['-static']
    arm = ['--target=arm-linux-gnueabihf', '-mfpu=neon']
    return [Variant('abi_gcc', 'gcc', have=X86, ldflags=['-no-pie'], cflags=['-fno-pie']), Variant('abi_noasm', 'gcc', opt=['-O2'], have=X86, asm=False), Variant('abi_clang', 'clang', have=X86),
            Variant('abi_gcc_O0', 'gcc', opt=['-O0'], have=X86, speed=.6), Variant('abi_plain', 'gcc', have=[]), Variant('abi_sse', 'clang', opt=['-Os'], have=['SSSE3', 'SSE41', 'SSE42']),
            Variant('abi_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=st), Variant('abi_i686_O1', 'i686-linux-gnu-gcc', opt=['-O1'], have=X86, asm=False, ldflags=st),
            Variant('abi_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], ldflags=st, run=['qemu-aarch64'], speed=.2),
            Variant('abi_aarch64_O1', 'aarch64-linux-gnu-gcc', opt=['-O1'], have=['NEON64'], ldflags=st, run=['qemu-aarch64'], speed=.1),
            Variant('abi_aarch64_clang', 'clang', have=['NEON64'], cflags=['--target=aarch64-linux-gnu'], ldflags=st, run=['qemu-aarch64'], speed=.2),
            Variant('abi_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], cflags=['-marm'], ldflags=st, run=['qemu-arm'], speed=.2),
            Variant('abi_armhf_clang', 'clang', have=['NEON32'], cflags=arm, ldflags=st, run=['qemu-arm'], speed=.2),
            Variant('abi_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=st, run=['qemu-s390x'], speed=.15)]


def C25(c):
    c.rule = ('Histories of 4..23 calls of all seven functions (any codec; damaged text), each made through a trampoline that gives every callee-saved register a generated value and a generated rounding and denormal mode, '
              'and compares registers, stack pointer, floating-point control, x87 and direction state and errno afterwards; on x86 in a process that may not make any system call. Results must be those of the reference model. '
              'Non-trivial: some call has 64 bytes or more; distinct by kinds, codecs and sizes.')
    vs = abi_variants()
    build_harness(vs, SRC, 'abi')
    c.log('built')
    plan = [dict(variant=v, prop='abi', cases=int(c.n(4000, 100000) * v.speed), shards=4) for v in vs]
    plan.sort(key=lambda p: p['variant'].speed)
    c.run_plan('abi', plan)


CHECKS = {'C25': C25}
INFO = {'C25': ('property-based testing of call histories through register-checking trampolines, without system calls', 'Generated calls on x86-64, i686, AArch64, ARM and s390x builds; calling conventions of Linux; system calls are looked at on x86 only, without OpenMP.', 'exploration')}
