"""C29: acceleration really happens."""
import random, threading
from build import *
from core_checks import HARNESSES
import engine

HARNESSES['accel'] = ['accel.c', 'common.c', 'pbt.c']
OPS = ['base64_encode', 'base64_decode', 'base64_stream_encode', 'base64_stream_decode']
FINDING = 'armhf-default'


def accel_variants():
    return native([Variant('acc_gcc', 'gcc', have=X86), Variant('acc_noasm', 'gcc', opt=['-O2'], have=X86, asm=False), Variant('acc_clang', 'clang', have=X86),
            Variant('acc_clang_noasm', 'clang', opt=['-O2'], have=X86, asm=False), Variant('acc_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=['-static']),
            Variant('acc_plain', 'gcc', opt=['-O2'], have=[]), Variant('acc_ssse3', 'gcc', have=['SSSE3']), Variant('acc_avx2', 'gcc', opt=['-O2'], have=['SSSE3', 'SSE41', 'AVX2'])])


def native(vs):
    for v in vs:
        v.avail = [c for c in v.avail if c not in EMULATED]
    return vs


def omp_variants():
    return native([Variant('acc_omp', 'gcc', have=X86, cflags=['-fopenmp']), Variant('acc_omp_plain', 'gcc', opt=['-O2'], have=[], cflags=['-fopenmp'])])


def cross_variants():
    """Run by an emulator that logs every instruction; with the codecs to force and the part of the plain codec's instructions they may take (encoding, decoding)."""
    a64, a32 = {'codecs': {0: (.6, .8), 4: (.6, .8), 8: (1.3, 1.3)}}, {'codecs': {0: (.6, .85), 2: (.6, .85), 8: (1.3, 1.3)}}
    vs = [(Variant('accx_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], ldflags=['-static'], run=['qemu-aarch64']), a64),
          (Variant('accx_aarch64_clang', 'clang', opt=['-O2'], have=['NEON64'], cflags=['--target=aarch64-linux-gnu'], ldflags=['-static'], run=['qemu-aarch64']), a64),
          (Variant('accx_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], ldflags=['-static'], run=['qemu-arm']), a32),
          (Variant('accx_armhf_all', 'arm-linux-gnueabihf-gcc', opt=['-O2'], have=['NEON32'], cflags=['-mfpu=neon'], ldflags=['-static'], run=['qemu-arm']), a32),
          (Variant('accx_armhf_clang', 'clang', have=['NEON32'], cflags=['--target=arm-linux-gnueabihf', '-mfpu=neon'], ldflags=['-static'], run=['qemu-arm']), a32),
          (Variant('accx_armhf_plain', 'arm-linux-gnueabihf-gcc', opt=['-O2'], have=[], ldflags=['-static'], run=['qemu-arm']), {'codecs': {0: (1.3, 1.3), 8: (1.3, 1.3)}}),
          (Variant('accx_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=['-static'], run=['qemu-s390x']), {'codecs': {0: (1.3, 1.3), 8: (1.3, 1.3)}})]
    for v, d in vs:
        v.x = d['codecs']
    return [v for v, _ in vs]


def count(v, args):
    """Instructions of the call."""
    log = os.path.join(scratch(), 'xlog_%s_%d' % (v.name, threading.get_ident()))
    cmd = v.run + ['-one-insn-per-tb', '-d', 'exec,nochain', '-D', log] + prog(v, 'accel_x')[-1:] + [str(a) for a in args]
    r = run(cmd)
    if r.returncode:
        raise ToolError('%s: exit %d: %s' % (' '.join(cmd), r.returncode, r.stdout[-500:]))
    n, first = 0, None
    with open(log) as f:
        for l in f:
            if l.startswith('Trace'):
                n += 1
                if l.endswith(' marker\n'):
                    if first is None or n - last <= 16:     # the (first) instructions of marker()
                        first = n if first is None else first
                        last = n
                    else:
                        os.unlink(log)
                        return n - first
    raise ToolError('%s: no markers in the log' % v.name)


def plain_rates(v):
    return [(count(v, (op, 8, 6144, 6144, 0, 0, 0, 5)) - count(v, (op, 8, 3072, 3072, 0, 0, 0, 5))) / 3072 for op in (0, 1)]


def gen_call(rng, v):
    op, flag = rng.randrange(4), rng.choice(sorted(v.x))
    n = rng.choice([rng.randrange(300, 4000), rng.randrange(300, 40000), max(1, (64 << rng.randrange(10)) + rng.randrange(-8, 9))])
    if flag == 8:
        n = min(n, 12000)
    n -= n % 4 if op & 1 else 0
    valid = rng.randrange(n) if op & 1 and n and rng.random() < .3 else n
    pre = rng.choice([0, 1, 2, 3, rng.randrange(200)]) if op > 1 else 0
    return op, flag, n, valid, pre, rng.choice([0, 0, rng.randrange(64)]), rng.choice([0, 0, rng.randrange(64)]), rng.randrange(1 << 40), rng.randrange(4)


def one(v, rates, a):
    """(instructions, bound, what is wrong or None)"""
    op, flag, n, valid = a[:4]
    dec = op & 1
    bound = int(v.x[flag][dec] * rates[dec] * valid) + 1500
    got = count(v, a)
    if got <= bound:
        return got, bound, None
    plain = int(1.3 * rates[dec] * valid) + 1500
    return got, bound, FINDING if v.name == 'accx_armhf' and flag == 0 and got <= plain else 'slow'


def describe(a):
    return '%s, flags %d: %d bytes (%d of them valid) after %d, source %d and output %d bytes after a boundary of 64' % (OPS[a[0]], a[1], a[2], a[3], a[4], a[5], a[6])


def smaller(v, rates, a, got, bound):
    """The same failure with fewer bytes, and without what it does not need."""
    for _ in range(20):
        for i, x in ((7, 5), (8, 0), (6, 0), (5, 0), (4, 0), (3, a[2]), (2, a[2] // 2 & ~3), (2, a[2] * 7 // 8 & ~3)):
            b = list(a)
            b[i] = x
            if i == 2:
                b[3] = min(a[3], x) if a[3] < a[2] else x
            if b == list(a) or not b[2]:
                continue
            g, bo, bad = one(v, rates, b)
            if bad:
                a, got, bound = b, g, bo
                break
        else:
            break
    return a, got, bound


def cross(c):
    vs = cross_variants()
    build_harness(vs, ['accel_x.c'], 'accel_x')
    listed = engine.findings('C29')
    rates = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for v, r in zip(vs, ex.map(plain_rates, vs)):
            rates[v.name] = r
            c.record(2, ['words-' + v.name], 'plain codec', '%s: the plain codec takes %.2f instructions per byte encoding, %.2f decoding' % (v.name, *r))
            if max(r) > 12.9:
                c.violate('%s: the plain codec takes %.2f instructions per byte encoding, %.2f decoding, more than 12.9' % (v.name, *r), {'kind': 'accel', 'variant': v.name, 'call': None})
        if c.violation:
            return
        def job(vk):
            v, k = vk
            if c.violation or c.over():
                return
            a = gen_call(random.Random('%s-%s-%d' % (c.seed, v.name, k)), v)
            got, bound, bad = one(v, rates[v.name], a)
            hit = 12 * a[3] > 1.3 * bound
            c.record(1, ['%s-%r' % (v.name, a)] if hit else [], v.name, '%s: %s: %d instructions, at most %d' % (v.name, describe(a), got, bound))
            if bad == FINDING and FINDING in listed:
                c.known(FINDING, '%s: %s' % (v.name, listed[FINDING]))
            elif bad:
                a, got, bound = smaller(v, rates[v.name], a, got, bound)
                c.violate('%s: %s takes %d instructions, more than %d; the plain codec takes %.2f per byte' % (v.name, describe(a), got, bound, rates[v.name][a[0] & 1]), {'kind': 'accel', 'variant': v.name, 'call': list(a)})
        list(ex.map(job, [(v, k) for k in range(c.n(60, 3000)) for v in vs]))


def C29(c):
    c.rule = ('Generated calls (all operations and codecs, any alignment, content, damage and place in a stream), their instructions counted by single-stepping (x86) or by an emulator (ARM, AArch64, s390x). A codec may take, on top of 2500 instructions (i686 3200, emulators 1500), '
              'a stated part of what the plain codec takes per byte in the same build, that one at most 10 per byte (i686 12, emulators 12.9); the default codec what the best codec of the build may take; AVX2 takes at most .85 of what SSSE3 and .9 of what AVX takes (beginning and end left aside), the default 1.25 times what any other takes; with OpenMP the calling thread 1.3 times its share. '
              'Non-trivial: the bound excludes the next slower way of doing it (bytewise; a single thread). Oracle: these bounds, two to three times the measured counts.')
    os.environ['OMP_WAIT_POLICY'] = 'passive'
    os.environ['GOMP_SPINCOUNT'] = '0'
    vs, ov = accel_variants(), omp_variants()
    build_harness(vs + ov, HARNESSES['accel'], 'accel')
    c.log('built')
    cross(c)
    if c.violation:
        return
    c.log('emulated architectures done')
    plan = []
    for v in vs + ov:
        plan.append(dict(variant=v, prop='words', cases=4, shards=1))
        if v.have:
            plan.append(dict(variant=v, prop='ladder', cases=c.n(120, 4000), shards=2))
        plan.append(dict(variant=v, prop='rate', cases=c.n(800, 60000), shards=4))
    for v in ov:
        plan.append(dict(variant=v, prop='share', cases=c.n(150, 4000), shards=4))
    c.run_plan('accel', plan)


class _C:
    violation = None


def replay_accel(d):
    vs = [v for v in cross_variants() if v.name == d['variant']]
    build_harness(vs, ['accel_x.c'], 'accel_x')
    r = plain_rates(vs[0])
    print('plain codec: %.2f instructions per byte encoding, %.2f decoding' % tuple(r))
    bad = max(r) > 12.9
    if d['call']:
        got, bound, bad = one(vs[0], r, d['call'])
        print('%s: %d instructions, at most %d' % (describe(d['call']), got, bound))
    if bad:
        print('VIOLATION property=C29 replay=(this file)')
        return 1
    print('held')
    return 0


CHECKS = {'C29': C29}
REPLAYERS = {'accel': replay_accel}
INFO = {'C29': ('property-based testing of instruction counts against those of the plain codec, by single-stepping and in an emulator', 'Instructions, not time. Up to 600000 bytes per call, mostly below 10000; bounds about twice the measured counts; the coarse fall-backs '
                '(bytewise, another codec, one thread) are told apart, small losses are not. libgomp only.', 'exploration')}
