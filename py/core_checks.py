"""C01 - C07: the API against the reference model, on every platform and codec."""
import engine, tempfile, os
from build import *

SRC = ['core.c', 'common.c', 'pbt.c']


def shards_for(cases):
    return 8


def variants(c, names=None):
    return std_variants(names)


def plan_for(vs, spec, c):
    """spec: (prop, quick cases, thorough cases, params, per-case weight of slow variants); cases 0 = whole enumeration."""
    plan = []
    for prop, q, t, params, slow in spec:
        for v in vs:
            n = t if c.thorough else q
            p = {k: (x[1] if c.thorough else x[0]) if isinstance(x, tuple) else x for k, x in params.items()}
            small = v.speed < .1
            if prop.endswith('_mid'):
                n = max(6, int(n * (1 if v.speed >= .7 else v.speed * .7)))
                if v.speed < .7:
                    p['midmax'] = 1 << 22 if small and not c.thorough else 1 << 24
            elif n == 0:
                if small:
                    n = slow[1] if c.thorough else slow[0]
            elif v.speed < 1:
                n = max(60, int(n * v.speed * (2 if small else 1)))
            if small:
                p.setdefault('maxlen', 1 << 16)
            sh = 8 if n == 0 or n >= 800 else 4 if n >= 100 else 2 if prop.endswith('_mid') and n >= 20 else 1
            plan.append(dict(variant=v, prop=prop, cases=n, shards=sh, params=p))
    # dear ones first
    plan.sort(key=lambda x: x['variant'].speed)
    return plan


RULE = ('Cases come from a tape of random draws (seed, property, index) or from an enumeration; lengths are biased towards multiples of the block sizes of the codecs (+-8), '
        'powers of two and small values; buffers are put at arbitrary alignments. *_mid: inputs of 1 to 64 MiB (a repeated random block with up to 12 bytes changed; 4 to 16 MiB at most on slow platforms). big_*: 32 MiB to 2^31. ')


def core(rule, spec, names=None, fuzzprops=(), big=()):
    def check(c):
        c.rule = RULE + rule
        vs = variants(c, names)
        build_harness(vs, SRC, 'core')
        c.log('built %d variants' % len(vs))
        c.extra['variants'] = {v.name: {'compiler': v.cc, 'flags': v.opt + v.cflags, 'codecs': v.codecs_param(), 'run': v.run} for v in vs}
        missing = [x for x in X86 if x not in HOST_X86]
        if missing:
            c.assumptions.append('this CPU lacks %s: those codecs were not executed' % ', '.join(missing))
        ok = c.run_plan('core', plan_for(vs, spec, c))
        if ok and big:
            # 32 MiB to 2^31, over aliased memory (the harness of C15)
            import big_checks
            bvs = [v for v in big_checks.big_variants() if v.name in ('big_gcc', 'big_clang_noasm')]
            build_harness(bvs, big_checks.SRC, 'big')
            ok = c.run_plan('big', [dict(variant=v, prop=p, cases=c.n(n, n * 20), shards=4, params={'below': 1, 'mode': mode}, cpu_limit=240) for p, mode, n in big for v in bvs])
        if ok and c.thorough:
            for prop in fuzzprops:
                fuzz_one(c, SRC, prop)
                if c.violation:
                    break
    return check


def fuzz_one(c, sources, prop, seconds=45, params=None):
    v = Variant('fuzz', 'clang', opt=['-O1'], have=X86, asm=False, sanitizer=True,
                cflags=['-fsanitize=address,bounds,fuzzer-no-link', '-fno-sanitize-recover=all', '-g'])
    params = dict(params or {}, maxlen=4096)
    crash = c.fuzz(v, sources, prop, seconds, params=params, jobs=8)
    if crash:
        vs = std_variants(['asan'])
        build_harness(vs, sources, 'core')
        d = tempfile.mkdtemp(dir=scratch())
        out = os.path.join(d, 'o.json')
        r = engine._collect(prog(vs[0], 'core') + ['--prop', prop, '--replay-bytes', crash[0], '--out', out] + engine.params_args(vs[0], params), out, None, 300, d)
        if r['failure']:
            c.report_failure('core', (0, dict(variant=vs[0], prop=prop, params=params), 0, 1, r))
        else:
            raise ToolError('libFuzzer stopped, but the input does not fail in replay:\n' + crash[1])


C01 = core('Non-trivial: at least 12 input bytes, so that an accelerated loop can run. Enumerations: every length up to a bound x every codec; all 2^24 three-byte groups x every codec. '
           'Oracle: bitwise RFC 4648 encoder.',
           [('enc_triple', 0, 0, {}, (4096, 0)), ('enc_len', 0, 0, {'lens': (4097, 20001)}, (4000, 40000)), ('enc_rand', 6000, 300000, {}, None), ('enc_mid', 160, 6000, {}, None)],
           fuzzprops=['enc_rand'], big=[('big_enc', 1, 28)])
C02 = core('Non-trivial: at least 12 input bytes. Enumeration: every pair of codecs x every length up to a bound. Oracle: the original bytes.',
           [('rt_len', 0, 0, {'lens': (700, 3000)}, (3000, 0)), ('rt_rand', 6000, 300000, {}, None), ('rt_mid', 160, 6000, {}, None)], fuzzprops=['rt_rand'])
C03 = core('Texts are well-formed or damaged (bytes replaced, inserted, deleted, padding misplaced, truncated). Non-trivial: at least 16 characters. Enumerations: every length x codec, all 2^24 '
           'four-character groups x codec, every byte value at every position of texts of 19 lengths x codec, all pairs of adjacent bytes. Oracle: character-at-a-time decoder.',
           [('dec_quad', 0, 0, {}, (4096, 0)), ('dec_bad', 0, 0, {'badlens': (14, 19)}, (1500, 0)), ('dec_pair', 0, 0, {}, (1024, 0)), ('dec_len', 0, 0, {'lens': (4097, 20001)}, (4000, 40000)),
            ('dec_rand', 8000, 400000, {}, None), ('dec_mid', 160, 6000, {}, None)],
           fuzzprops=['dec_rand'], big=[('big_dec', 1, 28)])
C04 = core('Chunkings: single bytes, tiny, uniform, block-biased, with empty chunks. Non-trivial: at least 2 chunks and 4 bytes. Enumeration: all cuts of 0..129 bytes into three chunks x codec. '
           'Oracle: per-call length and text from the RFC encoder.',
           [('senc_cut', 0, 0, {'cutlens': (100, 200)}, (150, 300)), ('senc_rand', 5000, 200000, {}, None), ('senc_mid', 160, 6000, {}, None)], fuzzprops=['senc_rand'], big=[('big_enc', 2, 28)])
C05 = core('Well-formed and damaged texts, cut as in C04, fed until the first error. Non-trivial: at least 2 chunks and 4 characters. Enumerations: all cuts into three chunks of texts of every length '
           'below a bound (plain, padded, damaged) x codec; all strings of 6 (thorough 7) characters over {A,/,=,bad} after a prefix x all chunkings x codec. Oracle: incremental decoder model, per call.',
           [('sdec_exh', 0, 0, {'exhlen': (6, 7)}, (3000, 20000)), ('sdec_cut', 0, 0, {'cutlens': (90, 180)}, (150, 500)), ('sdec_rand', 6000, 200000, {}, None), ('sdec_mid', 160, 6000, {}, None)], fuzzprops=['sdec_rand'], big=[('big_dec', 2, 28)])
C06 = core('Streams are driven into an error or past their end and then fed further text, padding, rubbish and empty chunks. Non-trivial: at least one non-empty call after the error or the end. '
           'Enumeration: all strings of 6 characters over {A,/,=,bad} after a prefix x all chunkings x codec, never stopping. Oracle: sticky decoder model; output must stay untouched.',
           [('sticky_exh', 0, 0, {'exhlen': (6, 7)}, (3000, 20000)), ('sticky', 8000, 300000, {}, None)], fuzzprops=['sticky'])
C07 = core('Input, output, state and outlen each end or start at an inaccessible page or lie between canaries; the output space is exactly what the call can need; every call is made twice with '
           'different surroundings and fill. Non-trivial: at least 1 byte (2 chunks for streams). Enumeration: every length below a bound x operation x codec. Oracle: no fault, canaries intact, input '
           'unchanged, both runs agree; AddressSanitizer where it applies.',
           [('mem_len', 0, 0, {'lens': (800, 4000)}, (3000, 30000)), ('mem_one', 5000, 200000, {}, None), ('mem_stream', 2500, 100000, {}, None)], fuzzprops=['mem_one', 'mem_stream'])

CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07)


HARNESSES = {'core': SRC}


def all_variants():
    import registry
    return [v for f in registry.VARIANTS for v in f()]


def replay_tape(d):
    if d['harness'] == 'conf':
        import conf_checks
        vs = [conf_checks.find_variant(d['variant'], d['seed'])]
    elif d['harness'] == 'detect':
        import detect_checks
        vs = [detect_checks.parse(d['variant'])]
        detect_checks.build_detect(vs)
    else:
        vs = [v for v in all_variants() if v.name == d['variant']]
    if d['harness'] in ('cli', 'clifault'):
        import cli_checks
        cli_checks.builder(d['harness'])(vs)
    else:
        build_harness(vs, HARNESSES[d['harness']], d['harness'])
    if d.get('flaky'):
        for _ in range(300):
            f = engine.replay_prog(vs[0], d['harness'], d['prop'], d['tape'], d['params'])
            if f:
                break
    elif d['kind'] == 'tape':
        f = engine.replay_prog(vs[0], d['harness'], d['prop'], d['tape'], d['params'])
    else:
        f = engine.run_prog(vs[0], d['harness'], d['prop'], d['seed'], d['last'] + 1, d['shard'], d['shards'], d['params'], 900, d['first'])['failure']
    if f:
        print(f['msg'] + '\n  ' + f['note'])
        print('VIOLATION property=%s replay=(this file)' % d['property'])
        return 1
    print('the property holds on this case')
    return 0


REPLAYERS = {'tape': replay_tape, 'range': replay_tape}

_T = 'property-based testing against a reference model, with bounded enumeration (thorough: also libFuzzer)'
_N = ('Searches generated inputs on 12 builds (gcc, clang, -O0, AddressSanitizer, i686, aarch64, armhf, s390x; inline assembly on and off) and all codecs the CPU can run; exhaustive only where the evidence says so. '
      'Trusts the reference model in harness/ref.h, the compilers and qemu.')
INFO = {
    'C01': (_T, _N, 'exploration'),
    'C02': ('round-trip property over all pairs of codecs, random and enumerated lengths', _N, 'exploration'),
    'C03': (_T, _N + ' The reverse direction (malformed is rejected) is enumerated for one bad byte at every position of 17 lengths.', 'exploration'),
    'C04': ('stateful generation of chunkings against a reference encoder, bounded enumeration of cuts', _N, 'exploration'),
    'C05': ('stateful generation of chunkings against an incremental decoder model, bounded enumeration of strings and cuts', _N, 'exploration'),
    'C06': ('stateful generation continuing after errors and the end, against a sticky decoder model', _N, 'exploration'),
    'C07': ('property-based testing with guard pages, canaries and AddressSanitizer; metamorphic: same call in different surroundings', _N, 'exploration'),
}
