"""C26: time grows linearly, the tool's memory does not grow."""
import base64, random
import numpy as np
from build import *
from build import _cc
from core_checks import HARNESSES
import cli_checks

SRC = ['cost.c', 'common.c', 'pbt.c']
HARNESSES['cost'] = SRC
MIB = 1 << 20
ALPHABET = np.frombuffer(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/', np.uint8)
GARBAGE = np.frombuffer(bytes(x for x in range(256) if x not in b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/='), np.uint8)


DATA_KIB = 12 << 10
OPS_BIG = ['encode', 'decode', 'ignore']


def cost_variants():
    return [Variant('cost_gcc', 'gcc', have=X86), Variant('cost_noasm', 'gcc', opt=['-O2'], have=X86, asm=False), Variant('cost_clang', 'clang', have=X86),
            Variant('cost_plain', 'gcc', opt=['-O2'], have=[]), Variant('cost_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=['-static'])]


def gen_run(rng, mib, op=None):
    """One run of the tool: arguments, input, expected output."""
    r = np.random.default_rng(rng.getrandbits(64))
    op = op or rng.choice(['encode', 'encode', 'decode', 'decode', 'ignore', 'ignore', 'ignore'])
    n = int(mib * MIB * rng.uniform(.7, 1))
    if op == 'encode':
        w = rng.choice([0, 1, 2, 3, 4, 5, 19, 76, 1000, rng.randrange(1, 300), rng.randrange(1, 3 * MIB)])
        if w in (1, 2, 3):
            n //= 3
        data = r.integers(0, 256, n, np.uint8).tobytes()
        t = np.frombuffer(base64.b64encode(data), np.uint8)
        if w:
            full = len(t) // w
            want = np.hstack([t[:full * w].reshape(full, w), np.full((full, 1), 10, np.uint8)]).tobytes() + (t[full * w:].tobytes() + b'\n' if len(t) % w else b'')
        else:
            want = t.tobytes()
        return ['-w', str(w)], data, want, 'encode, lines of %d' % w
    stuff = rng.choice(['none', 'after each', 'groups', 'random', 'mostly', 'nothing else', 'runs'])
    n = {'after each': n // 2, 'mostly': n // 20, 'nothing else': 0}.get(stuff, n) // 4 * 3
    data = r.integers(0, 256, n, np.uint8).tobytes()
    t = np.frombuffer(base64.b64encode(data), np.uint8)
    def g(k):
        return np.full(k, 10, np.uint8) if op == 'decode' else r.choice(GARBAGE, k)
    if stuff == 'none':
        inp = t
    elif stuff == 'after each':
        inp = np.stack([t, g(len(t))], 1).reshape(-1)
    elif stuff == 'groups':
        k = rng.choice([2, 3, 4, 5, 7, 16, 76])
        m = len(t) // k * k
        inp = np.concatenate([np.hstack([t[:m].reshape(-1, k), g(m // k).reshape(-1, 1)]).reshape(-1), t[m:]])
    elif stuff == 'nothing else':
        inp = g(int(mib * MIB * rng.uniform(.7, 1)))
    else:
        p = {'random': .3, 'mostly': .95, 'runs': .5}[stuff]
        tot = int(len(t) / (1 - p)) if stuff != 'runs' else 2 * len(t)
        if stuff == 'runs':
            b = rng.choice([8, 64, 4096, MIB, MIB + 1])
            is_t = (np.arange(tot) // b) % 2 == rng.randrange(2)
        else:
            is_t = r.random(tot) >= p
        k = int(is_t.sum())
        if k > len(t):
            is_t[np.flatnonzero(is_t)[len(t):]] = False
            k = len(t)
        inp = g(tot)
        inp[is_t] = t[:k]
        inp = np.concatenate([inp, t[k:]])
    return ['-d'] + (['-i'] if op == 'ignore' else []), inp.tobytes(), data, '%s, %s: %s' % (op, 'newlines' if op == 'decode' else 'garbage', stuff)


def launch(exe, args, path, outpath, pipe, cpu, data_kib):
    """(exit code or -signal, seconds of CPU time)"""
    tool = '(ulimit -d %d; exec "$0" $1 %%s 2>/dev/null)' % data_kib
    redirect = 'cat "$3" | ' + tool % '> "$2"' if pipe else tool % '- < "$3" > "$2"' if pipe is None else tool % '"$3" > "$2"'
    cmd = 'ulimit -t %d; %s' % (cpu, redirect)
    pid = os.posix_spawn('/bin/bash', ['bash', '-c', cmd, exe, ' '.join(args), outpath, path], os.environ)
    _, st, ru = os.wait4(pid, 0)
    return os.waitstatus_to_exitcode(st), ru.ru_utime + ru.ru_stime


def least_memory(exe, seed, k, o):
    """KiB of data the tool needs for a small input of the same kind (of DATA_KIB, if that is not enough)."""
    args, inp, want, _ = gen_run(random.Random('%s-%d' % (seed, k)), 6, OPS_BIG[k % 3])
    with open(o + '.in', 'wb') as f:
        f.write(inp)
    def enough(kib):
        return launch(exe, args, o + '.in', o, False, 20, kib)[0] == 0 and open(o, 'rb').read() == want
    lo, hi = 0, DATA_KIB
    while hi - lo > 64:
        mid = (lo + hi) // 2
        lo, hi = (lo, mid) if enough(mid) else (mid, hi)
    os.unlink(o + '.in')
    return hi


def one_run(c, exe, name, seed, k, mib, data_kib=None):
    rng = random.Random('%s-%d' % (seed, k))
    args, inp, want, what = gen_run(rng, mib, OPS_BIG[k % 3] if k >= 1000 else None)
    d = scratch()
    p, o = os.path.join(d, 'cost_in_%s_%d' % (name, k)), os.path.join(d, 'cost_out_%s_%d' % (name, k))
    data_kib = data_kib or (min(DATA_KIB, least_memory(exe, seed, k, o) + 512) if k >= 1000 else DATA_KIB)
    with open(p, 'wb') as f:
        f.write(inp)
    # seconds: about ten times what it takes
    limit = 3 + len(inp) / MIB * .2 + len(want) / MIB * .2
    pipe = rng.choice([True, False, None])
    rc, cpu = launch(exe, args, p, o, pipe, int(limit * 2) + 2, data_kib)
    got = open(o, 'rb').read()
    os.unlink(p), os.unlink(o)
    c.record(1, ['cost-%s-%d-%d' % (name, k, len(inp))], what.split(':')[0], '%s: base64 %s, %d bytes in, %d out (%s): %.2f s of CPU time' % (name, ' '.join(args), len(inp), len(want), what, cpu))
    rep = {'kind': 'cost', 'variant': name, 'seed': seed, 'k': k, 'mib': mib, 'data_kib': data_kib}
    if rc in (137, 152, -9, -24) or cpu > limit:
        c.violate('%s: base64 %s on %d bytes (%s) takes %.1f s of CPU time and more, more than %.1f s' % (name, ' '.join(args), len(inp), what, cpu, limit), rep)
    elif rc:
        c.violate('%s: base64 %s on %d bytes (%s) with %d KiB of memory ends with exit %d%s' % (name, ' '.join(args), len(inp), what, data_kib, rc, '; a small input of that kind needs 512 KiB less' if k >= 1000 else ''), rep)
    elif got != want:
        c.violate('%s: base64 %s on %d bytes (%s) gives a wrong result' % (name, ' '.join(args), len(inp), what), rep)


def tools():
    vs = [v for v in cli_checks.cli_variants() if v.name in ('cli_gcc', 'cli_i686')]
    return vs


def C26(c):
    c.rule = ('Generated calls single-stepped: the instructions for 4n bytes against those for n (all operations and codecs; at most 6 times and 600), and for a chunk after a long stream against the same chunk in a new one '
              '(at most 1.5 times and 300). Generated runs of the tool on inputs that are hard for its buffers (line widths, newlines and garbage of all densities), with limited CPU time (0.2 s per MiB in and out, and 3 s) and '
              '12 MiB of data (the tool takes 3); with 256 MiB of input, with 512 KiB more than it needs for 6 MiB. Non-trivial: the history has 100 bytes; every run of the tool. Oracle: the relation between the counts; the limits; the expected output.')
    vs = cost_variants()
    build_harness(vs, SRC, 'cost')
    c.log('built')
    plan = []
    for v in vs:
        plan.append(dict(variant=v, prop='linear', cases=c.n(160, 10000), shards=2))
        plan.append(dict(variant=v, prop='history', cases=c.n(1000, 40000), shards=2))
    if not c.run_plan('cost', plan):
        return
    ts = tools()
    cli_checks.build_cli(ts)
    todo = [(t, k, 20) for k in range(c.n(36, 600)) for t in (ts if k % 6 == 0 else ts[:1])] + [(ts[0], 1000 + k, 256) for k in range(c.n(6, 42))]
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda x: None if c.violation else one_run(c, os.path.join(x[0].dir(), "base64cli"), x[0].name, c.seed, x[1], x[2]), todo))


class _C:
    violation = None

    def record(self, *a):
        pass

    def violate(self, msg, rep):
        self.violation = msg


def replay_cost(d):
    c = _C()
    ts = [t for t in tools() if t.name == d['variant']]
    cli_checks.build_cli(ts)
    one_run(c, os.path.join(ts[0].dir(), "base64cli"), d['variant'], d['seed'], d['k'], d['mib'], d['data_kib'])
    if c.violation:
        print(c.violation)
        print('VIOLATION property=C26 replay=(this file)')
        return 1
    print('held')
    return 0


CHECKS = {'C26': C26}
REPLAYERS = {'cost': replay_cost}
INFO = {'C26': ('metamorphic property-based testing of instruction counts (single-stepping), and generated runs of the tool under limits', 'Library: x86-64 and i686, up to 32000 bytes per call. Tool: CPU time and memory limits with about tenfold slack, up to 256 MiB.', 'exploration')}
