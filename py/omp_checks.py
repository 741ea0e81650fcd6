"""C12: a build with OpenMP behaves like the serial library."""
import engine
from build import *
from core_checks import HARNESSES

SRC = ['omp.c', 'common.c', 'pbt.c']
HARNESSES['omp'] = SRC


def omp_variants():
    omp = ['-fopenmp']
    return [Variant('omp', 'gcc', have=X86, cflags=omp),
            Variant('omp_noasm', 'gcc', opt=['-O2'], have=X86, asm=False, cflags=omp),
            Variant('omp_limit', 'gcc', opt=['-O2'], have=X86, cflags=omp, run=['env', 'OMP_THREAD_LIMIT=3', 'OMP_PROC_BIND=true']),
            Variant('omp_plain', 'gcc', have=[], cflags=omp),
            Variant('omp_i686', 'i686-linux-gnu-gcc', have=X86, cflags=omp, ldflags=['-static']),
            Variant('omp_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], cflags=omp, ldflags=['-static'], run=['qemu-aarch64'], speed=.05),
            Variant('omp_s390x', 's390x-linux-gnu-gcc', have=[], cflags=omp, ldflags=['-static'], run=['qemu-s390x'], speed=.05)]


def C12(c):
    c.rule = ('One-shot calls with 1..252 threads on sizes around and above the threshold, the other thread settings (dynamic threads, active levels, thread limit, run-time schedule), damage anywhere and at the boundaries of the parts, several callers at once (threads, inside a parallel region), '
              'absent codecs, inputs of 1 to 64 MiB with up to 250 threads, and on 32 bits inputs beyond 1 GiB. Non-trivial: at least 20000 bytes of input, so that the parallel code runs. Oracle: serial reference model.')
    vs = omp_variants()
    build_harness(vs, SRC, 'omp')
    c.log('built')
    os.environ['OMP_WAIT_POLICY'] = 'passive'
    os.environ['GOMP_SPINCOUNT'] = '0'
    plan = []
    for prop, q, t in (('omp_boundary', 1500, 30000), ('omp_dec', 1000, 20000), ('omp_enc', 1000, 20000), ('omp_callers', 300, 6000)):
        for v in vs:
            n = c.n(q, t)
            prm = {}
            if v.speed < .1:
                n = max(40, n // 20)
                prm['maxthreads'] = 8
            plan.append(dict(variant=v, prop=prop, cases=n, shards=2, params=prm))
    plan.sort(key=lambda p: p['variant'].speed)
    c.run_plan('omp', plan)
    if not c.violation:
        # 1 to 64 MiB, up to 250 threads
        mid = [v for v in vs if v.name in ('omp', 'omp_noasm', 'omp_i686')]
        build_harness(mid, HARNESSES['core'], 'core')
        c.run_plan('core', [dict(variant=v, prop=p, cases=c.n(120, 5000), shards=2, params={}) for v in mid for p in ('enc_mid', 'dec_mid')])
    if not c.violation:
        c.run_plan('omp', [dict(variant=v, prop='omp_big32', cases=c.n(4, 40), shards=1, cpu_limit=600) for v in vs if v.name == 'omp_i686'])


CHECKS = {'C12': C12}
INFO = {'C12': ('differential property-based testing of the OpenMP build against the serial model', 'Schedules are those the operating system produces with 1..250 threads; inputs, thread counts and damage are generated, with '
                'damage aimed at part boundaries. libgomp only.', 'exploration')}
