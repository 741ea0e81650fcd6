"""C08 (independence of streams) and C13 (the same transcript on every platform)."""
import os, subprocess, tempfile
import engine
from build import *
from build import _cc as build_cc
import numpy as np
from core_checks import plan_for, HARNESSES

SRC = ['hist.c', 'common.c', 'pbt.c']
HARNESSES['hist'] = SRC


def hist_variants():
    vs = std_variants(['gcc', 'gcc_noasm', 'clang', 'asan', 'i686', 'aarch64', 'armhf', 's390x'])
    vs += [Variant('sub_none', 'gcc', have=[]), Variant('sub_avx2', 'gcc', have=['AVX2']), Variant('sub_ssse3_avx', 'clang', have=['SSSE3', 'AVX']),
           Variant('sub_sse42', 'gcc', have=['SSE42'], asm=False)]
    return vs


def C08(c):
    c.rule = ('Histories of init / feed / final / copy / re-init on up to 6 encoder and decoder states and one-shot calls, each with flags 0 or any codec flag, built in or not, against one independent '
              'model per stream. Non-trivial: at least two live streams and three switches between them; distinct by the sequence of operations, codecs and sizes.')
    vs = hist_variants()
    build_harness(vs, SRC, 'hist')
    c.log('built')
    c.run_plan('hist', plan_for(vs, [('hist', 30000, 600000, {}, None)], c))



# ---------------------------------------------------------------- C13

MINI = {  # platforms without a C library here: a freestanding executor of scripts
    'powerpc': dict(cc=['clang', '--target=powerpc-linux-gnu'], run='qemu-ppc', note='32-bit, big-endian'),
    'armeb': dict(cc=['clang', '--target=armeb-linux-gnueabi', '-mcpu=cortex-a8', '-mfloat-abi=soft'], run='qemu-armeb', note='32-bit, big-endian'),
    'riscv32': dict(cc=['clang', '--target=riscv32-linux-gnu', '-march=rv32gc', '-mabi=ilp32d'], run='qemu-riscv32', note='32-bit, little-endian'),
    'riscv64': dict(cc=['clang', '--target=riscv64-linux-gnu', '-march=rv64gc'], run='qemu-riscv64', note='64-bit, little-endian'),
}


def build_mini(name):
    m = MINI[name]
    src = snapshot()
    d = os.path.join(scratch(), 'mini_' + name)
    exe = os.path.join(d, 'mini')
    if os.path.exists(exe):
        return exe
    inc = os.path.join(d, 'inc')
    os.makedirs(inc)
    for h in ('stdio', 'string', 'stdlib', 'assert'):
        with open(os.path.join(inc, h + '.h'), 'w') as f:
            f.write('#include <stddef.h>\nvoid *memcpy(void*,const void*,size_t); void *memset(void*,int,size_t); void *memmove(void*,const void*,size_t);\n')
    with open(os.path.join(inc, 'assert.h'), 'a') as f:
        f.write('#define assert(x) ((void)0)\n')
    config_h(inc, [])
    res = run(['clang', '-print-resource-dir']).stdout.strip()
    objs = []
    for s in lib_sources(src) + [os.path.join(src, 'harness', 'mini', 'mini.c')]:
        o = os.path.join(d, os.path.relpath(s, src).replace('/', '_') + '.o')
        build_cc(m['cc'] + ['-O2', '-std=gnu99', '-ffreestanding', '-fno-builtin', '-nostdinc', '-isystem', res + '/include', '-isystem', inc, '-I' + inc, '-DBASE64_STATIC_DEFINE', '-c', s, '-o', o])
        objs.append(o)
    build_cc(['lld', '-flavor', 'gnu', '-static'] + objs + ['-o', exe])
    return exe


def run_script(exe, runner, path):
    """None if the executor's answers equal the host's, else (offset, got, want)."""
    with open(path + '.in', 'rb') as f:
        r = subprocess.run([runner, exe], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    want = open(path + '.out', 'rb').read()
    got = r.stdout
    if got == want and r.returncode == 0:
        return None
    n = min(len(got), len(want))
    a, b = np.frombuffer(got[:n], np.uint8), np.frombuffer(want[:n], np.uint8)
    w = np.flatnonzero(a != b)
    off = int(w[0]) if len(w) else n
    return off, got[max(0, off - 8):off + 24], want[max(0, off - 8):off + 24], r.returncode


def digests(path):
    return dict(l.split() for l in open(path) if len(l.split()) == 2)


def c13_variants():
    vs = std_variants(['gcc', 'gcc_noasm', 'clang', 'gcc_O0', 'i686', 'aarch64', 'aarch64_clang', 'armhf', 'armhf_clang', 's390x'])
    return vs + [Variant('plain', 'gcc', have=[]), Variant('plain32', 'i686-linux-gnu-gcc', opt=['-O2'], have=[], ldflags=['-static'])]


def two_tapes(a, b):
    """A predicate on tapes: do the two platforms answer differently?"""
    def f(t):
        x, y = (engine.replay_full(v, 'hist', 'transcript', t, {}) for v in (a, b))
        if x['failure'] or y['failure']:
            r = x['failure'] or y['failure']
            return dict(r, tape=t)
        if x['digest'] != y['digest']:
            return {'tape': t, 'msg': 'different results on %s and %s' % (a.name, b.name), 'note': ''}
        return None
    return f


def mini_tape(a, name):
    exe = build_mini(name)

    def f(t):
        d = tempfile.mkdtemp(dir=scratch())
        x = engine.replay_full(a, 'hist', 'transcript', t, {'script': d + '/s'})
        if x['failure']:
            return None
        r = run_script(exe, MINI[name]['run'], d + '/s')
        subprocess.run(['rm', '-rf', d])
        return r and {'tape': t, 'msg': 'different results on %s and %s (exit %d)' % (a.name, name, r[3]), 'note': 'got %s, %s gives %s' % (r[1].hex(), a.name, r[2].hex())}
    return f


def note_of(a, tape):
    # what the operations were
    d = tempfile.mkdtemp(dir=scratch())
    x = engine.replay_full(a, 'hist', 'transcript', tape, {'script': d + '/s'})
    recs, b, p = [], open(d + '/s.in', 'rb').read(), 0
    while p + 10 <= len(b) and len(recs) < 80:
        op, slot, fl, n = chr(b[p]), b[p + 1], int.from_bytes(b[p + 2:p + 6], 'little', signed=True), int.from_bytes(b[p + 6:p + 10], 'little')
        data = b[p + 10:p + 10 + n]
        recs.append({'e': 'encode_init', 'd': 'decode_init', 'E': 'encode', 'D': 'decode', 'F': 'final', 'c': 'copy', '1': 'base64_encode', '2': 'base64_decode'}[op] + '(s%d' % slot +
                    (', ' + (repr(data[:60]) + ('...%d' % n if n > 60 else '')) if n else '') + ')')
        p += 10 + n
    return '; '.join(recs)


def c13_report(c, a, other, idx, pred, kind):
    d = tempfile.mkdtemp(dir=scratch())
    engine.run_prog(a, 'hist', 'transcript', c.seed, idx + 1, 0, 1, {}, 300, idx, more=['--tape-out', d + '/t'])
    tape = [int(x) for x in open(d + '/t').read().split()]
    first = [pred(tape) for _ in range(2)]
    if not all(first):
        raise ToolError('platforms %s and %s differ on case %d, but not when it is run again' % (a.name, other, idx))
    tape, last = engine.shrink(None, None, None, tape, None, first[0], fails=pred)
    c.violate('%s\n  %s\n  %s' % (last['msg'], last['note'], note_of(a, tape)), {'kind': kind, 'a': a.name, 'b': other, 'tape': tape, 'seed': c.seed, 'index': idx})


def C13(c):
    c.rule = ('The same generated histories (streams, copies, one-shot calls, damaged text, codec choices) run on every platform, and per-case digests of all return values, lengths and bytes are '
              'compared with the first build; four more platforms without a C library run recorded scripts in a freestanding executor. Non-trivial: at least two live streams and three switches. '
              'Oracle: the other platforms.')
    vs = c13_variants()
    build_harness(vs, SRC, 'hist')
    def try_mini(name):
        try:
            build_mini(name)
            return name, None
        except ToolError as e:
            return name, str(e)[-300:]      # wants a header that is not there, say: one platform less
    with cf.ThreadPoolExecutor(JOBS) as ex:
        built = dict(ex.map(try_mini, MINI))
    minis = [m for m in MINI if not built[m]]
    for m in MINI:
        if built[m]:
            c.log('not built: %s' % m)
            c.extra.setdefault('platforms_not_built', {})[m] = built[m]
    c.log('built')
    n = c.n(40000, 600000)
    jobs = []
    for v in sorted(vs, key=lambda v: v.speed):
        m = n if v.speed >= .2 else n // 6
        sh = 8
        jobs += [(v, s, sh, m) for s in range(sh)]
    ddir = tempfile.mkdtemp(dir=scratch())

    def one(j):
        v, s, sh, m = j
        path = os.path.join(ddir, '%s.%d' % (v.name, s))
        r = engine.run_prog(v, 'hist', 'transcript', c.seed, m, s, sh, {}, c.budget + 150, more=['--digests', path])
        return v, r, path
    res = {}
    crashed = None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for v, r, path in ex.map(one, jobs):
            c.merge(r)
            res.setdefault(v.name, {}).update(digests(path))
            if r['failure'] and not crashed:
                crashed = (v, r)
    by = {v.name: v for v in vs}
    ref = vs[0]
    for v in vs:
        c.parts.append({'platform': v.name, 'histories': len(res[v.name])})
    if crashed:
        v, r = crashed
        c.report_failure('hist', (0, dict(variant=v, prop='transcript', params={}), 0, 1, r))
        return
    bad = []
    for v in vs[1:]:
        for k, d in res[v.name].items():
            if res[ref.name][k] != d:
                bad.append((int(k), v))
    if bad:
        idx, v = min(bad, key=lambda x: x[0])
        c.log('%d histories differ' % len(bad))
        c13_report(c, ref, v.name, idx, two_tapes(ref, v), 'c13')
        return
    # scripts for the freestanding executors
    m = c.n(6000, 60000)

    def script(s):
        path = os.path.join(ddir, 's%d' % s)
        engine.run_prog(ref, 'hist', 'transcript', c.seed + 1000, m, s, 8, {'script': path}, c.budget + 150)
        idx = [tuple(map(int, l.split())) for l in open(path + '.idx')]
        out = []
        for name in minis:
            r = run_script(build_mini(name), MINI[name]['run'], path)
            out.append((name, len(idx), r and ([i for i, o in idx if o <= r[0]][-1], r)))
        return out
    worst = None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for out in ex.map(script, range(8)):
            for name, k, r in out:
                c.evals += k
                c.cases += k
                c.extra.setdefault('freestanding', {}).setdefault(name, 0)
                c.extra['freestanding'][name] += k
                if r and (worst is None or r[0] < worst[1]):
                    worst = (name, r[0])
    if worst:
        save = c.seed
        c.seed += 1000
        c13_report(c, ref, worst[0], worst[1], mini_tape(ref, worst[0]), 'c13mini')
        c.seed = save


def replay_c13(d):
    by = {v.name: v for v in c13_variants()}
    vs = [by[x] for x in (d['a'], d['b']) if x in by]
    build_harness(vs, SRC, 'hist')
    pred = two_tapes(*vs) if d['kind'] == 'c13' else mini_tape(vs[0], d['b'])
    r = pred(d['tape'])
    if r:
        print(r['msg'] + '\n  ' + r['note'])
        print('VIOLATION property=C13 replay=(this file)')
        return 1
    print('the property holds on this case')
    return 0


CHECKS = dict(C08=C08, C13=C13)
REPLAYERS = {'c13': replay_c13, 'c13mini': replay_c13}

INFO = {
    'C08': ('model-based testing of API histories over pools of streams', 'Generated histories of up to 62 operations on up to 6 streams, on 12 builds with different codec sets; a wrong dispatch shows through absent codecs or wrong '
            'results. Trusts the reference model.', 'exploration'),
    'C13': ('differential testing: generated API histories, one transcript per platform', '12 builds for x86-64, i686, aarch64, armhf and s390x with all their codecs, and freestanding ones for powerpc, armeb, riscv32 and riscv64 (plain codec), '
            'the foreign ones under qemu.', 'exploration'),
}
