"""C16 - C21: the command-line program."""
import engine, glob
from build import *
from build import _cc
from core_checks import HARNESSES, SRC as _S

SRC = ['cli.c', 'common.c', 'pbt.c']
FSRC = ['clifault.c', 'common.c', 'pbt.c']
HARNESSES['cli'] = SRC
HARNESSES['clifault'] = FSRC
# calls of the program that go to the stand-ins in clifault.c
SHIMS = ['read', 'readv', 'write', 'writev', 'malloc', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'fopen', 'open']


def cli_variants():
    san = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g']
    vs = [Variant('cli_gcc', 'gcc', have=X86),
          Variant('cli_clang', 'clang', opt=['-O2'], have=X86, ldflags=['-static']),
          Variant('cli_asan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=san, speed=.1),
          Variant('cli_emul', 'gcc', have=X86),
          Variant('cli_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=['-static']),
          Variant('cli_s390x', 's390x-linux-gnu-gcc', have=[], ldflags=['-static'], speed=.1),
          Variant('cli_armhf', 'arm-linux-gnueabihf-gcc', have=['NEON32'], ldflags=['-static'], speed=.1)]
    for v in vs:
        v.harness_cc = 'gcc'
    vs[3].bin_flags = EMUL
    runner = {'cli_s390x': 'qemu-s390x', 'cli_armhf': 'qemu-arm'}
    for v in vs:
        v.extra_params = {'runner': runner.get(v.name, ''), 'long32': int(v.name in ('cli_i686', 'cli_armhf'))}
    return vs


# The path for systems without writev (MinGW), which calls write in a loop. Its write is never interrupted.
EMUL = ['-D__MINGW32__']
skipped = set()


def drop_unbuildable(vs):
    """The emulation is compiled here for a system it is not meant for: leave it out if that stops working."""
    for v in list(vs):
        if getattr(v, 'bin_flags', None):
            try:
                bin_objs(v)
            except BuildError:
                skipped.add(v.name)
                vs.remove(v)


def bin_objs(v):
    """The program's objects, compiled as the Makefile does."""
    src = snapshot()
    out = []
    for f in sorted(glob.glob(os.path.join(src, 'bin', '*.c'))):
        o = os.path.join(v.dir(), 'bin_' + os.path.basename(f)[:-2] + '.o')
        _cc([v.cc, '-std=c99'] + v.opt + v.cflags + getattr(v, 'bin_flags', []) + ['-DBASE64_STATIC_DEFINE', '-c', f, '-o', o])
        out.append(o)
    return out


def build_cli(vs):
    """base64cli beside a harness for the host."""
    drop_unbuildable(vs)
    build_libs(vs)
    src = snapshot()
    h = os.path.join(scratch(), 'cli_harness')
    if not os.path.exists(h):
        _cc(['gcc', '-std=gnu11', '-O2', '-I' + os.path.join(src, 'harness')] + [os.path.join(src, 'harness', s) for s in SRC] + ['-o', h])

    def one(v):
        _cc([v.cc] + v.opt + v.cflags + bin_objs(v) + v.objs + ['-o', os.path.join(v.dir(), 'base64cli')] + v.ldflags)
        shutil.copy2(h, os.path.join(v.dir(), 'cli'))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, vs))


def fault_variants():
    san = ['-fsanitize=address,bounds', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g']
    emul = Variant('flt_emul', 'gcc', have=X86)
    emul.bin_flags = EMUL
    return [emul, Variant('flt_gcc', 'gcc', have=X86), Variant('flt_clang', 'clang', opt=['-O2'], have=X86, asm=False),
            Variant('flt_asan', 'clang', opt=['-O1'], have=X86, asm=False, cflags=san, sanitizer=True, speed=.2),
            Variant('flt_i686', 'i686-linux-gnu-gcc', have=X86, ldflags=['-static'])]


def build_fault(vs):
    drop_unbuildable(vs)
    build_libs(vs)
    for v in vs:
        if getattr(v, 'fault_done', False):
            continue
        for o in bin_objs(v):
            _cc(['objcopy', '--redefine-sym', 'main=b64_main'] + [x for s in SHIMS for x in ('--redefine-sym', '%s=shim_%s' % (s, s))] + [o])
            v.objs.append(o)
        for v2 in (v,):
            v2.fault_done = True
            v2.extra_params = {'long32': int(v2.name == 'flt_i686'), 'noeintr': int(v2.name == 'flt_emul')}
    build_harness(vs, FSRC, 'clifault')


def note_skipped(c):
    for n in sorted(skipped):
        c.assumptions.append('%s (writev emulated, as on MinGW) does not compile here and was left out' % n)


def builder(name):
    return {'cli': build_cli, 'clifault': build_fault}[name]


def plan(c, vs, spec):
    out = []
    for prop, q, t, params in spec:
        for v in vs:
            n = t if c.thorough else q
            prm = dict(params)
            if v.speed < 1 and n:
                n = max(40, int(n * v.speed * .5))
            elif v.speed < 1:
                n = 400 if not c.thorough else 0
            if v.speed < 1:
                prm.setdefault('maxraw', 1200000)
            out.append(dict(variant=v, prop=prop, cases=n, shards=4, params=prm))
    out.sort(key=lambda p: p['variant'].speed)
    return out


def huge(c, vs, op):
    """A few runs beyond 2 GiB, on 64 and 32 bits."""
    names = ['cli_gcc', 'cli_i686'] if not c.thorough else ['cli_gcc', 'cli_clang', 'cli_i686']
    c.run_plan('cli', [dict(variant=v, prop='cli_huge', cases=c.n(2, 12), shards=2, params={'op': op}, cpu_limit=600) for v in vs if v.name in names])


def cli(rule, spec, op=None):
    def check(c):
        c.rule = rule
        vs = cli_variants()
        build_cli(vs)
        c.log('built')
        note_skipped(c)
        if c.run_plan('cli', plan(c, vs, spec)) and op is not None:
            huge(c, vs, op)
    return check


_D = ' A few runs of 2 to 4.6 * 10^9 bytes through pipes (gcc, i686). Deliveries: regular file, pipe fed in pieces, file argument, standard input with an offset, "-"; output to a file or a pipe. Builds: gcc, clang, gcc with writev emulated, AddressSanitizer, i686, s390x, armhf. '
C16 = cli('Inputs of 0 to 2.5 MiB (biased to multiples of the line length, of the 1 MiB buffer, +-6), widths from 0 to the biggest long.' + _D + 'Enumeration: 0..40 bytes x widths 0..25 and default. '
          'Non-trivial: non-empty input. Oracle: reference encoder, wrapped.', [('cli_encexh', 0, 0, {}), ('cli_enc', 6000, 120000, {})], op=0)
C17 = cli('Base64 text of 0 to 2.5 MiB of data with newlines inserted in seven styles (regular, random, clusters, at buffer boundaries, a buffer full of newlines), or -n.' + _D +
          'Non-trivial: non-empty input. Oracle: the data.', [('cli_dec', 5000, 100000, {})], op=1)
C18 = cli('Text truncated, damaged, followed by more text or with an arbitrary ending, newlines anywhere.' + _D + 'Enumeration: all strings of up to 5 characters over {A,=,/,!,newline}, alone and '
          'after a group. Non-trivial: malformed. Oracle: character-at-a-time decoder: exit status, message, output prefix.', [('cli_badexh', 0, 0, {}), ('cli_bad', 3000, 60000, {})], op=2)
C19 = cli('Well-formed and malformed text with non-base64 bytes inserted in seven styles.' + _D + 'Enumeration: every byte value at every position of five texts. Non-trivial: contains garbage. '
          'Oracle: decoder model on the input without garbage.', [('cli_garbexh', 0, 0, {}), ('cli_garb', 2500, 60000, {})], op=3)
C21 = cli('Argument vectors of up to six options in every spelling and order, file names, invalid options, missing arguments, bad widths, too many or unreadable files, --help. Every vector counts as '
          'non-trivial. Oracle: a model of the options applied to an input that tells the modes apart.', [('cli_opts', 12000, 200000, {})])


def C20(c):
    c.rule = ('The program runs in-process under a plan of short reads, short writes (anywhere, or at vector boundaries +-1), EINTR, errors of read, write, writev and malloc; then as a process with '
              '/dev/full, a file size limit, closed or unreadable descriptors and slow pipes. Enumeration: an error, failed allocation or EINTR at each of the first 30 calls. Non-trivial: at least '
              'one disturbed call. Oracle: model output; complete if no call failed, else failure with a message and a prefix.')
    vs = fault_variants()
    build_fault(vs)
    kv = [v for v in cli_variants() if v.speed == 1]
    build_cli(kv)
    c.log('built')
    note_skipped(c)
    if c.run_plan('clifault', plan(c, vs, [('fault_exh', 0, 0, {}), ('fault', 4000, 150000, {})])):
        c.run_plan('cli', plan(c, kv, [('cli_kernel', 400, 10000, {})]))


CHECKS = dict(C16=C16, C17=C17, C18=C18, C19=C19, C20=C20, C21=C21)
_N = 'Searches generated runs of the real program on six builds. Trusts the model in harness/cli.h, the kernel of the sandbox and qemu.'
INFO = {
    'C16': ('property-based testing of the program against a reference encoder with wrapping, bounded enumeration', _N, 'exploration'),
    'C17': ('property-based round-trip testing of the program with generated newline placement', _N, 'exploration'),
    'C18': ('property-based testing of the program with generated damage, bounded enumeration of short texts', _N, 'exploration'),
    'C19': ('property-based testing of the program: decoding with garbage equals decoding without it; enumeration of byte values', _N, 'exploration'),
    'C20': ('fault injection: generated plans of short, interrupted and failing calls against a reference output', 'Faults are injected at read/write/writev/malloc/stdio level in-process, and by the kernel for the real '
            'program. EINTR from read and writes that return 0 are left out.', 'exploration'),
    'C21': ('property-based testing of generated argument vectors against a model of the options', _N + ' Abbreviated long options, "--", a sign or blank before a width and widths beyond a long are left out.', 'exploration'),
}
