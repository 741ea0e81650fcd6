"""C22: the lookup tables and their generators."""
import hashlib, random
from build import *
from build import _cc

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'
STD = (b'+', b'/', b'=')
BAD = 0xFFFFFFFF


def model(chars):
    """What the tables must mean, as bytes in memory: four characters are decoded by or-ing one entry of each table; the first
    three bytes of the result, in memory, are the data; an invalid byte sets a bit in the fourth byte, a valid one does not."""
    val = {c: i for i, c in enumerate(ALPHA + chars[0] + chars[1])}
    t = []
    for k in range(4):
        row = []
        for b in range(256):
            if b not in val:
                row.append(None)
            else:
                v = val[b] << (18 - 6 * k)      # of 24 bits
                row.append(bytes([v >> 16 & 255, v >> 8 & 255, v & 255, 0]))
        t.append(row)
    return t


def check_dec(c, get, chars, what, replay):
    """get(k, b) -> 4 bytes in memory order."""
    m = model(chars)
    for k in range(4):
        for b in range(256):
            e = get(k, b)
            w = m[k][b]
            c.evals += 1
            if (e != b'\xff\xff\xff\xff') if w is None else e != w:
                c.violate('%s: entry 0x%02x of table d%d is %s in memory, must be %s' % (what, b, k, e.hex(), 'ffffffff' if w is None else w.hex()), replay)
                return False
    return True


def check_enc12(c, get, n, what, replay):
    a = ALPHA + b'+/'
    if n != 4096:
        c.violate('%s: the 12-bit table has %d entries' % (what, n), replay)
        return False
    for i in range(4096):
        c.evals += 1
        w = bytes([a[i >> 6], a[i & 63]])
        if get(i) != w:
            c.violate('%s: entry %d of the 12-bit table is %s in memory, must be %s' % (what, i, get(i), w), replay)
            return False
    return True


def parse(txt):
    return {l.split()[0]: list(map(int, l.split()[1:])) for l in txt.splitlines() if l.strip()}


def plain(b):
    """A header without its comments and layout."""
    return re.sub(rb'\s+', b' ', re.sub(rb'//[^\n]*|/\*.*?\*/', b' ', b, flags=re.S)).strip()


def arrays(path, n, default):
    """The names of the n arrays a header defines."""
    names = list(dict.fromkeys(re.findall(r'\b(\w+)\s*\[[^\]]*\]\s*=', plain(open(path, 'rb').read()).decode('latin-1'))))
    return names if len(names) == n else default


def dump(dec, enc, le, cc='gcc'):
    src = snapshot()
    h = hashlib.sha1(('%s%s%s%s' % (dec, enc, le, cc)).encode()).hexdigest()[:12]
    exe = os.path.join(scratch(), 'dump_' + h)
    names = arrays(dec, 4, ['base64_table_dec_32bit_d%d' % k for k in range(4)])
    ndef = ['-DD%d=%s' % x for x in enumerate(names)] + (['-DE12=' + arrays(enc, 1, ['base64_table_enc_12bit'])[0]] if enc else [])
    _cc([cc, '-std=gnu99', '-O0', '-DBASE64_LITTLE_ENDIAN=%d' % le, '-DDEC="%s"' % dec] + (['-DENC="%s"' % enc] if enc else []) + ndef + [os.path.join(src, 'harness', 'tables', 'dump.c'), '-o', exe])
    r = subprocess.run([exe], stdout=subprocess.PIPE, text=True)
    os.unlink(exe)
    if r.returncode:
        raise ToolError('the table dumper failed')
    return parse(r.stdout)


def judge_headers(c, dec, enc, chars, what, replay, cc='gcc'):
    for le in (1, 0):
        order = 'little' if le else 'big'
        try:
            t = dump(dec, enc, le, cc)
        except BuildError as e:
            c.violate('%s: the header does not compile for %s endian: %s' % (what, order, str(e)[-600:]), replay)
            return False
        d = [t.get('D%d' % k, []) for k in range(4)]
        if any(len(x) != 256 for x in d):
            c.violate('%s: a table does not have 256 entries' % what, replay)
            return False
        if not check_dec(c, lambda k, b: d[k][b].to_bytes(4, order), chars, '%s, %s endian' % (what, order), replay):
            return False
        if 'chars' in t and bytes(t['chars']) != b''.join(chars):
            c.violate('%s: CHAR62, CHAR63, CHARPAD are %s, must be %s' % (what, bytes(t['chars']), b''.join(chars)), replay)
            return False
        if enc:
            e = t['E12']
            if not check_enc12(c, lambda i: e[i].to_bytes(2, order), len(e), '%s, %s endian' % (what, order), replay):
                return False
    return True


def build_generators():
    src = snapshot()
    out = []
    for name, cc, opts, runner in (('gcc', 'gcc', ['-O2', '-std=c99'], []), ('clang', 'clang', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], []),
                                   ('i686', 'i686-linux-gnu-gcc', ['-O3', '-static'], []), ('s390x', 's390x-linux-gnu-gcc', ['-O2', '-static'], ['qemu-s390x']),
                                   ('armhf', 'arm-linux-gnueabihf-gcc', ['-O2', '-static', '-funsigned-char'], ['qemu-arm'])):
        exe = os.path.join(scratch(), 'gen_' + name)
        _cc([cc] + opts + ['-o', exe, os.path.join(src, 'lib', 'tables', 'table_generator.c')])
        out.append((name, runner + [exe]))
    return out


def alphabet_cases(seed, n):
    rng = random.Random(seed)
    pool = [chr(x) for x in range(33, 127) if not chr(x).isalnum() and chr(x) not in "'\\"]
    yield '-_.'
    for p in ('+/=', '-_=', '._-', '/+=', '-_~', '!-_', '.-_', '_-.', '=+/', '{}|'):
        yield p
    while True:
        yield ''.join(rng.sample(pool, 3))


def do_alphabet(c, gens, s, k):
    """One replacement alphabet, one generator."""
    name, cmd = gens[k % len(gens)]
    rep = {'kind': 'alphabet', 'alphabet': s, 'generator': k % len(gens)}
    r = subprocess.run(cmd + [s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    what = 'the tables generated for %r (%s)' % (s, name)
    if r.returncode:
        c.violate('the generator (%s) fails for %r: exit %d %s' % (name, s, r.returncode, r.stderr[-200:]), rep)
        return False
    p = os.path.join(scratch(), 'alpha_%d.h' % k)
    with open(p, 'wb') as f:
        f.write(r.stdout)
    ok = judge_headers(c, p, None, tuple(x.encode() for x in s), what, rep, ('gcc', 'clang')[k // len(gens) % 2])
    os.unlink(p)
    c.record(0, ['a' + s], 'replacement alphabet', 'alphabet %r, generator %s' % (s, name))
    return ok


def do_wrong_length(c, gens, s, k):
    name, cmd = gens[k % len(gens)]
    r = subprocess.run(cmd + [s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    c.record(1, ['w' + s], 'argument of another length')
    if r.returncode == 0 or r.stdout:
        c.violate('the generator (%s) accepts the replacement %r, which does not have 3 characters (exit %d, %d bytes of output)' % (name, s, r.returncode, len(r.stdout)),
                  {'kind': 'alphabet', 'alphabet': s, 'generator': k % len(gens), 'wrong': 1})
        return False
    return True


def committed(c):
    src = snapshot()
    tb = os.path.join(src, 'lib', 'tables')
    dec, enc = os.path.join(tb, 'table_dec_32bit.h'), os.path.join(tb, 'table_enc_12bit.h')
    rep = {'kind': 'tables'}
    if not judge_headers(c, dec, enc, STD, 'the committed headers', rep):
        return
    c.record(0, ['committed-%s-%d-%d' % (e, k, b) for e in ('le', 'be') for k in range(4) for b in range(256)] + ['committed-12-%s-%d' % (e, i) for e in ('le', 'be') for i in range(4096)], 'committed headers')
    # the compiled library, on machines of both kinds
    vs = [Variant('tab_gcc', 'gcc', have=[]), Variant('tab_clang', 'clang', have=X86), Variant('tab_i686', 'i686-linux-gnu-gcc', have=[], ldflags=['-static']),
          Variant('tab_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=['-static'], run=['qemu-s390x']), Variant('tab_aarch64', 'aarch64-linux-gnu-gcc', have=['NEON64'], ldflags=['-static'], run=['qemu-aarch64']),
          Variant('tab_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], ldflags=['-static'], run=['qemu-arm'])]
    try:
        build_harness(vs, ['tables/link.c'], 'link')
    except BuildError as e:
        c.log('the compiled tables cannot be read: %s' % e)
        c.assumptions.append('the library has no tables of the known names: only headers and generators were examined')
        return
    a = ALPHA + b'+/'
    for v in vs:
        r = subprocess.run(prog(v, 'link'), stdout=subprocess.PIPE, text=True)
        if r.returncode:
            raise ToolError('the table reader failed on ' + v.name)
        t = {k: bytes(x) for k, x in parse(r.stdout).items()}
        what = 'the tables compiled for ' + v.name
        if not check_dec(c, lambda k, b: t['d%d' % k][4 * b:4 * b + 4], STD, what, rep) or not check_enc12(c, lambda i: t['enc12'][2 * i:2 * i + 2], 4096, what, rep):
            return
        for i in range(64):
            if t['enc6'][i] != a[i]:
                return c.violate('%s: entry %d of the 6-bit encoding table is %d, must be %d' % (what, i, t['enc6'][i], a[i]), rep)
        for b in range(256):
            w = a.index(b) if b in a else 254 if b == ord('=') else 255
            if t['dec8'][b] != w:
                return c.violate('%s: entry 0x%02x of the 8-bit decoding table is %d, must be %d' % (what, b, t['dec8'][b], w), rep)
        c.record(320, ['8bit-%s-%d' % (v.name, b) for b in range(256)], 'compiled tables')


def same_header(got, want_path):
    """Whether a generated header defines what the committed one does: the same text, or at least the same values."""
    want = open(want_path, 'rb').read()
    if plain(got) == plain(want):
        return True
    src = snapshot()
    dec, enc = (os.path.join(src, 'lib', 'tables', f) for f in ('table_dec_32bit.h', 'table_enc_12bit.h'))
    p = os.path.join(scratch(), 'same_%s.h' % hashlib.sha1(got).hexdigest()[:12])
    with open(p, 'wb') as f:
        f.write(got)
    is_dec = os.path.basename(want_path) == 'table_dec_32bit.h'
    try:
        if is_dec and arrays(p, 4, None) != arrays(dec, 4, None) or not is_dec and arrays(p, 1, None) != arrays(enc, 1, None):
            return False
        for le in (1, 0):
            if dump(*((p, None) if is_dec else (dec, p)), le) != dump(*((dec, None) if is_dec else (dec, enc)), le):
                return False
    except BuildError:
        return False
    finally:
        os.unlink(p)
    return True


def regenerate(c, gens):
    src = snapshot()
    tb = os.path.join(src, 'lib', 'tables')
    rep = {'kind': 'tables'}
    want = {f: os.path.join(tb, f) for f in ('table_dec_32bit.h', 'table_enc_12bit.h')}
    for name, cmd in gens:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        c.record(1, ['gen-' + name], 'generator run', 'table_generator (%s) without arguments' % name)
        if r.returncode or not same_header(r.stdout, want['table_dec_32bit.h']):
            return c.violate('table_generator (%s) does not reproduce table_dec_32bit.h (exit %d)' % (name, r.returncode), rep)
    for py in ('python3', '/opt/veriftools/pyvenv/bin/python3'):
        r = subprocess.run([py, '-B', os.path.join(tb, 'table_enc_12bit.py')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        c.record(1, ['gen-py-' + py], 'generator run', 'table_enc_12bit.py (%s)' % py)
        if r.returncode or not same_header(r.stdout, want['table_enc_12bit.h']):
            return c.violate('table_enc_12bit.py does not reproduce table_enc_12bit.h (exit %d): %s' % (r.returncode, r.stderr[-300:]), rep)
    # by the documented ways: lib/tables/Makefile, and CMake
    d = os.path.join(scratch(), 'regen')
    shutil.copytree(src, d)
    t2 = os.path.join(d, 'lib', 'tables')
    for f in want:
        os.unlink(os.path.join(t2, f))
    os.chmod(os.path.join(t2, 'table_enc_12bit.py'), 0o755)
    r = run(['make', '-C', t2])
    c.record(1, ['make'], 'generator run', 'make -C lib/tables')
    for f, w in want.items():
        p = os.path.join(t2, f)
        if r.returncode or not os.path.exists(p) or not same_header(open(p, 'rb').read(), w):
            return c.violate('make -C lib/tables does not reproduce %s (exit %d): %s' % (f, r.returncode, r.stdout[-300:]), rep)
    if c.thorough or c.id == 'C22':
        for f in want:
            with open(os.path.join(t2, f), 'a') as h:
                h.write('\n/* stale */\n')
        b = os.path.join(d, 'b')
        r = run(['cmake', '-S', d, '-B', b, '-DBASE64_REGENERATE_TABLES=ON', '-DBASE64_BUILD_CLI=OFF'])
        r2 = run(['cmake', '--build', b, '-j8']) if r.returncode == 0 else r
        c.record(1, ['cmake'], 'generator run', 'cmake -DBASE64_REGENERATE_TABLES=ON')
        if r2.returncode:
            return c.violate('the build that regenerates the tables fails: ' + r2.stdout[-800:], rep)
        for f, w in want.items():
            if not same_header(open(os.path.join(b, f), 'rb').read(), w):
                return c.violate('cmake -DBASE64_REGENERATE_TABLES=ON does not reproduce ' + f, rep)
    shutil.rmtree(d, ignore_errors=True)


def C22(c):
    c.rule = ('Complete: every entry of every table (6-bit, 8-bit, 12-bit, 32-bit d0..d3), for both byte orders, in the committed headers and in libraries compiled for 6 platforms; every way to run the generators. '
              'Generated: replacement alphabets of three punctuation characters, on generators compiled for 5 platforms, every entry for both byte orders; arguments of another length. '
              'Non-trivial: a distinct table entry, generator or alphabet. Oracle: the bits of RFC 4648 as bytes in memory; all bits set for an invalid byte.')
    committed(c)
    if c.violation:
        return
    gens = build_generators()
    regenerate(c, gens)
    if c.violation:
        return
    n = c.n(160, 4000)
    it = alphabet_cases(c.seed, n)
    todo = [(next(it), k) for k in range(n)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda x: None if c.violation else do_alphabet(c, gens, *x), todo))
    rng = random.Random(c.seed + 1)
    for k in range(c.n(60, 600)):
        if c.violation:
            return
        ln = rng.choice([0, 1, 2, 4, 5, 6, 9, 40])
        do_wrong_length(c, gens, ''.join(chr(rng.randrange(33, 127)) for _ in range(ln)), k)


class _C:
    """Enough of a Check for a replay."""
    def __init__(self):
        self.id, self.thorough, self.evals, self.violation = 'C22', False, 0, None

    def record(self, *a, **k):
        pass

    def violate(self, msg, replay):
        self.violation = self.violation or msg


def replay_alphabet(d):
    c = _C()
    gens = build_generators()
    (do_wrong_length if d.get('wrong') else do_alphabet)(c, gens, d['alphabet'], d['generator'])
    return verdict(c)


def verdict(c):
    if c.violation:
        print(c.violation)
        print('VIOLATION property=C22 replay=(this file)')
        return 1
    print('held')
    return 0


def replay_tables(d):
    c = _C()
    committed(c)
    if not c.violation:
        regenerate(c, build_generators())
    return verdict(c)


CHECKS = {'C22': C22}
REPLAYERS = {'alphabet': replay_alphabet, 'tables': replay_tables}
INFO = {'C22': ('exhaustive enumeration of table entries and property-based testing of the generators with generated alphabets', 'Table entries are enumerated completely; replacement alphabets are sampled (160 quick, 4000 thorough).', 'exploration')}
