"""C09: calls from several threads. C24: calls from inside calls."""
import engine
from build import *
from core_checks import HARNESSES

SRC = ['thr.c', 'common.c', 'pbt.c']
HARNESSES['thr'] = SRC


def thr_variants():
    p = ['-pthread']
    vs = [Variant('thr_gcc', 'gcc', have=X86, cflags=p), Variant('thr_noasm', 'gcc', opt=['-O2'], have=X86, asm=False, cflags=p), Variant('thr_clang', 'clang', have=X86, cflags=p),
          Variant('thr_plain', 'gcc', have=[], cflags=p), Variant('thr_sse', 'gcc', have=['SSSE3', 'SSE41', 'SSE42'], cflags=p),
          Variant('thr_i686', 'i686-linux-gnu-gcc', have=X86, cflags=p, ldflags=['-static']),
          Variant('thr_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], cflags=p, ldflags=['-static'], run=['qemu-aarch64'], speed=.05),
          Variant('thr_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], cflags=p, ldflags=['-static'], run=['qemu-arm'], speed=.03),
          Variant('thr_s390x', 's390x-linux-gnu-gcc', cflags=p, ldflags=['-static'], run=['qemu-s390x'], speed=.03),
          Variant('tsan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=p + ['-fsanitize=thread', '-g', '-fno-omit-frame-pointer'], speed=.3),
          Variant('tsan_plain', 'clang', opt=['-O1'], have=[], asm=False, cflags=p + ['-fsanitize=thread', '-g', '-fno-omit-frame-pointer'], speed=.3)]
    for v in vs:
        if v.name.startswith('tsan'):
            v.extra_params = {'warm': 1}
    return vs


def C09(c):
    c.rule = ('Generated calls (one-shot and streams on private states, any codec, damaged text) made by 2..8 threads released together in a process that has not used the library before; the same under '
              'ThreadSanitizer after one call; and one call stopped after every instruction (or once, during its first use) while calls of another thread run in between. Non-trivial: at least two calls overlap. '
              'Oracle: reference model per call.')
    os.environ['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0'
    vs = thr_variants()
    build_harness(vs, SRC, 'thr')
    c.log('built')
    plan = []
    for v in vs:
        n = max(60, int(c.n(4000, 60000) * v.speed))
        plan.append(dict(variant=v, prop='thr', cases=n, shards=4, params={'maxthreads': 4} if v.run else {}, flaky=True))
        if v.speed == 1 and v.name != 'thr_i686':
            plan.append(dict(variant=v, prop='step', cases=c.n(800, 40000), shards=4))
    plan.sort(key=lambda p: (p['prop'] == 'thr', p['variant'].speed))
    c.run_plan('thr', plan)
    c.assumptions.append('the unsynchronised but idempotent store of the default codec at first use counts as correct (ThreadSanitizer starts after it); stepping looks at it for every single preemption')


def C24(c):
    c.rule = ('Generated calls (one-shot and streams, any codec, damaged text) interrupted by a signal handler of the same thread, which makes further generated calls: at every (second, third) instruction or at one chosen instruction by single-stepping '
              '(x86-64 and i686), handlers being interrupted again to a depth of 3, in a process that may not have used the library before; by a timer elsewhere. Non-trivial: a call ran inside another. Oracle: reference model for every call; '
              'a call that waits for the one it interrupts is ended after 15 s.')
    vs = [v for v in thr_variants() if not v.name.startswith('tsan')]
    build_harness(vs, SRC, 'thr')
    c.log('built')
    plan = []
    for v in vs:
        if not v.run:
            plan.append(dict(variant=v, prop='nest', cases=c.n(1200, 60000), shards=8))
        plan.append(dict(variant=v, prop='alarm', cases=c.n(40 if v.run else 16, 400), shards=4, flaky=True))
    c.run_plan('thr', plan)
    c.assumptions.append('OpenMP builds are left out: that run-time library may not be entered from a signal handler')


CHECKS = dict(C09=C09, C24=C24)
INFO = {'C24': ('property-based testing of calls made inside calls: signal handlers at generated instructions (single-stepping) and timers',
                'Interruption points are enumerated at instruction granularity for generated calls on x86 only; on other platforms a timer samples them.', 'exploration'),
        'C09': ('property-based testing of overlapping calls: threads, ThreadSanitizer, and enumeration of single preemptions by single-stepping',
                'Thread schedules are sampled; single preemptions of one call by those of another thread are enumerated at instruction granularity for the generated calls (x86-64 only). Trusts the reference model.', 'exploration')}
