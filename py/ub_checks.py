"""C28: no undefined behaviour and nothing uninitialised, in the library and in the tool."""
import engine
from build import *
from core_checks import HARNESSES
import cli_checks

SRC = ['ub.c', 'common.c', 'pbt.c']
HARNESSES['ub'] = SRC
REPORT = ['-fno-sanitize-recover=all', '-g']


def ub_variants():
    st = ['-static']
    trap, ctrap = ['-fsanitize=undefined', '-fsanitize-trap=all'], ['-fsanitize=undefined', '-fsanitize-trap=undefined']
    ub = ['-fsanitize=undefined']
    # left out: float-cast-overflow etc. are part of -fsanitize=undefined where they apply; unsigned wrap-around is no undefined behaviour
    vs = [Variant('ub_gcc', 'gcc', opt=['-O1'], have=X86, asm=False, cflags=ub + REPORT, sanitizer=True, speed=.5),
          Variant('ub_clang', 'clang', opt=['-O1'], have=X86, asm=False, cflags=ub + REPORT, sanitizer=True, speed=.5),
          Variant('ub_clang_asm', 'clang', opt=['-O3'], have=X86, cflags=ctrap, harness_cflags=[]),
          Variant('ub_gcc_asm', 'gcc', opt=['-O2'], have=X86, cflags=trap, harness_cflags=[]),
          Variant('ub_i686', 'i686-linux-gnu-gcc', opt=['-O1'], have=X86, cflags=trap, ldflags=st, harness_cflags=[], speed=.5),
          Variant('ub_msan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=['-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer'] + REPORT, sanitizer=True, speed=.3),
          Variant('ub_aarch64', 'aarch64-linux-gnu-gcc', opt=['-O1'], have=['NEON64'], avail=['NEON64'], cflags=trap, ldflags=st, harness_cflags=[], run=['qemu-aarch64'], speed=.05),
          Variant('ub_armhf', 'arm-linux-gnueabihf-gcc', opt=['-O1'], have=['NEON32'], avail=['NEON32'], cflags=trap, ldflags=st, harness_cflags=[], run=['qemu-arm'], speed=.05),
          Variant('ub_s390x', 's390x-linux-gnu-gcc', opt=['-O1'], have=[], avail=[], cflags=trap, ldflags=st, harness_cflags=[], run=['qemu-s390x'], speed=.05)]
    return vs


def ub_cli_variants():
    vs = [Variant('ubcli_gcc', 'gcc', opt=['-O1'], have=X86, asm=False, cflags=['-fsanitize=undefined'] + REPORT, speed=.2),
          Variant('ubcli_msan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=['-fsanitize=memory', '-fno-omit-frame-pointer'] + REPORT, speed=.2),
          Variant('ubcli_i686', 'i686-linux-gnu-gcc', opt=['-O1'], have=X86, cflags=['-fsanitize=undefined', '-fsanitize-trap=all'], ldflags=['-static'], speed=.5)]
    for v in vs:
        v.extra_params = {'runner': '', 'long32': int(v.name == 'ubcli_i686')}
    return vs


def C28(c):
    c.rule = ('Histories of one-shot and streaming calls on every codec, source and output at every misalignment of 0-63 bytes, well-formed and damaged text, calls after errors; the state before initialisation, *outlen '
              'and the output space count as uninitialised. Builds: UndefinedBehaviorSanitizer with gcc and clang on x86-64, with gcc on i686, AArch64, ARM and s390x, MemorySanitizer (x86-64 intrinsics). '
              'The tool runs its generated command lines and inputs (those of C16-C19 and C21, and command lines of arbitrary arguments) under UBSan (x86-64, i686) and MemorySanitizer. Non-trivial: at least 4 bytes of input (tool: as in those checks). '
              'Oracle: the sanitizers, and the reference model for results.')
    c.assumptions.append('UBSan does not look into inline assembly, nor for strict aliasing; MemorySanitizer takes what inline assembly writes as initialised')
    vs = ub_variants()
    build_harness(vs, SRC, 'ub')
    cv = ub_cli_variants()
    cli_checks.build_cli(cv)
    c.log('built')
    plan = []
    for v in vs:
        n = c.n(16000, 400000)
        small = v.speed < .1
        plan.append(dict(variant=v, prop='ub', cases=max(100, int(n * v.speed)), shards=8, params={'maxlen': 4000 if small else 200000}))
    plan.sort(key=lambda p: p['variant'].speed)
    if c.run_plan('ub', plan):
        spec = [('cli_wild', 8000), ('cli_opts', 1500), ('cli_enc', 500), ('cli_dec', 500), ('cli_bad', 500), ('cli_garb', 500)]
        c.run_plan('cli', [dict(variant=v, prop=p, cases=int(c.n(n, n * 20) * v.speed), shards=2, params={'maxraw': 1200000}) for p, n in spec for v in cv])


CHECKS = {'C28': C28}
INFO = {'C28': ('property-based testing of call histories and tool runs with UndefinedBehaviorSanitizer and MemorySanitizer as oracle',
                'Sees what the sanitizers see: misaligned access, shifts, signed overflow, bad pointers and indices, null, uninitialised data that decides a branch or reaches a result; nine builds, seven of them without '
                'a look into inline assembly. Strict aliasing is not checked.', 'exploration')}
