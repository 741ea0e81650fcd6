"""C27: whatever the build options, the library, the tool and the installed package work."""
import base64, random, threading
import engine
from build import *
from conf_checks import SRC as CONF_SRC

TARGETS = {  # name: (cc, c++, CMAKE_SYSTEM_PROCESSOR, runner, codecs, prefix of the binutils)
    'gcc': ('gcc', 'g++', None, [], X86, ''),
    'clang': ('clang', 'clang++', None, [], X86, ''),
    'i686': ('i686-linux-gnu-gcc', None, 'i686', [], X86, ''),
    'aarch64': ('aarch64-linux-gnu-gcc', None, 'aarch64', ['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu'], ['NEON64'], 'aarch64-linux-gnu-'),
    'armhf': ('arm-linux-gnueabihf-gcc', None, 'armv7l', ['qemu-arm', '-L', '/usr/arm-linux-gnueabihf'], ['NEON32'], 'arm-linux-gnueabihf-'),
    's390x': ('s390x-linux-gnu-gcc', None, 's390x', ['qemu-s390x', '-L', '/usr/s390x-linux-gnu'], [], 's390x-linux-gnu-'),
}
MAKEFLAGS = {'AVX512': '-mavx512vl -mavx512vbmi', 'AVX2': '-mavx2', 'AVX': '-mavx', 'SSE42': '-msse4.2', 'SSE41': '-msse4.1', 'SSSE3': '-mssse3', 'NEON32': '-mfpu=neon', 'NEON64': '-g0'}


def config(seed, k):
    r = random.Random('pkg/%d/%d' % (seed, k))
    kind = ['package', 'package', 'subdir', 'hand', 'package', 'make', 'package', 'subdir'][k % 8]
    t = r.choice(['gcc', 'gcc', 'gcc', 'clang', 'clang', 'i686', 'aarch64', 'armhf', 's390x'])
    pool = TARGETS[t][4]
    m = r.random()
    have = None if m < .15 and kind != 'make' else [] if m < .25 else list(pool) if m < .45 else [c for c in pool if r.random() < .5]
    f = dict(k=k, kind=kind, target=t, have=have, shared=kind != 'make' and r.random() < .5, openmp=t != 'clang' and r.random() < .25,
             build_type=r.choice([None, 'Debug', 'Release', 'RelWithDebInfo', 'MinSizeRel']), generator=r.choice(['Ninja', 'Ninja', 'Unix Makefiles', 'Ninja Multi-Config']),
             pic=r.random() < .3, ipo=t == 'gcc' and kind != 'make' and r.random() < .15, regen=r.random() < .2, cli=r.random() < .8, pedantic=r.random() < .5,
             libdir=r.choice(['lib', 'lib', 'lib64']), incdir=r.choice(['include', 'include', 'include/b64']), relocate=r.random() < .5, foreign=r.random() < .3,
             version=r.choice([None, '0', '0.1', '0.5', '0.5.2']), lang=r.choice(['c99', 'gnu99', 'c11', 'gnu17', 'c++98', 'c++11', 'c++14', 'c++17', 'c++20', 'gnu++20']))
    if TARGETS[t][1] is None and f['lang'].find('++') >= 0:
        f['lang'] = 'c99'
    if t == 'i686':
        f['openmp'] = False     # its libgomp is not where the loader looks
    if 'Multi' in f['generator'] and f['build_type'] == 'MinSizeRel':
        f['build_type'] = 'Release'     # not among the defaults
    return f


def codecs_of(f):
    """What the options put into the build."""
    if f['have'] is not None:
        return f['have']
    return [] if f['target'] == 'armhf' else TARGETS[f['target']][4]	# NEON32 is off by default


def describe(f):
    l = [f['kind'], f['target'], 'shared' if f['shared'] else 'static', f['generator'] if f['kind'] != 'make' else 'make', str(f['build_type']), 'codecs: ' + ('default' if f['have'] is None else ' '.join(f['have']) or 'none')]
    return ', '.join(l + [x for x in ('openmp', 'pic', 'ipo', 'regen', 'cli', 'pedantic', 'relocate', 'foreign') if f[x]] + [f['libdir'], f['incdir'], f['lang']])


CLIENT = r'''
#include <libbase64.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" int second_client (void);
#else
int second_client (void);
#endif
/* Another unit, perhaps in another language: the whole API once. */
int second_client (void)
{
	static const char text[] = "Zm9vYmFyZm8=";
	char out[64], back[64];
	size_t n = 0, m = 0, i;
	struct base64_state st;
	base64_encode("foobarfo", 8, out, &n, 0);
	if (n != 12) return 1;
	for (i = 0; i < n; i++) if (out[i] != text[i]) return 2;
	if (base64_decode(out, n, back, &m, 0) != 1 || m != 8) return 3;
	base64_stream_encode_init(&st, BASE64_FORCE_PLAIN);
	base64_stream_encode(&st, "foobarfo", 8, out, &n);
	base64_stream_encode_final(&st, out + n, &m);
	if (n + m != 12) return 4;
	base64_stream_decode_init(&st, 0);
	if (base64_stream_decode(&st, out, 12, back, &m) != 1 || m != 8) return 5;
	for (i = 0; i < m; i++) if (back[i] != "foobarfo"[i]) return 6;
	return 0;
}
'''
PROBE = r'''
int second_client (void);
#include <stdio.h>
#include <stdlib.h>
__attribute__((constructor)) static void probe (void)
{
	int r = second_client();
	if (r) { fprintf(stderr, "SECOND CLIENT FAILS %d\n", r); _Exit(97); }
}
'''


class Fails(Exception):
    pass


def must(cmd, what, f, env=None, cwd=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, timeout=600)
    if r.returncode:
        raise Fails('%s fails (%s):\n%s\n%s' % (what, describe(f), ' '.join(cmd), r.stdout[-2500:]))
    return r.stdout


def cmake_args(f):
    cc, cxx, cpu, runner, pool, pre = TARGETS[f['target']]
    a = ['-DCMAKE_C_COMPILER=' + cc, '-DBASE64_WERROR=OFF', '-G', f['generator']]
    if cpu:
        a += ['-DCMAKE_SYSTEM_NAME=Linux', '-DCMAKE_SYSTEM_PROCESSOR=' + cpu]
    if f['build_type'] and 'Multi' not in f['generator']:
        a.append('-DCMAKE_BUILD_TYPE=' + f['build_type'])
    return a


def lib_args(f):
    a = ['-DBUILD_SHARED_LIBS=ON'] if f['shared'] else []
    if f['have'] is not None:
        a += ['-DBASE64_WITH_%s=%s' % (c, 'ON' if c in f['have'] else 'OFF') for c in TARGETS[f['target']][4]]
    if f['foreign']:	# options of other platforms have no effect
        a += ['-DBASE64_WITH_%s=ON' % c for c in CODECS if c not in TARGETS[f['target']][4]]
    a.append('-DBASE64_WITH_OpenMP=%s' % ('ON' if f['openmp'] else 'OFF'))
    a.append('-DBASE64_BUILD_CLI=%s' % ('ON' if f['cli'] else 'OFF'))
    if f['pic']:
        a.append('-DCMAKE_POSITION_INDEPENDENT_CODE=ON')
    if f['ipo']:
        a.append('-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=ON')
    if f['regen'] and not TARGETS[f['target']][2]:
        a.append('-DBASE64_REGENERATE_TABLES=ON')
    if f['pedantic']:
        a.append('-DCMAKE_C_FLAGS=-pedantic-errors')
    return a


def build_cmd(b, f):
    cmd = ['cmake', '--build', b, '-j', '2']
    return cmd + (['--config', f['build_type'] or 'Release'] if 'Multi' in f['generator'] else [])


def consumer(f, d, src):
    """Writes the client project: the harness of C11, with another unit in f's language."""
    p = os.path.join(d, 'client')
    os.makedirs(os.path.join(p, 'harness'))
    os.makedirs(os.path.join(p, 'include'))
    for s in CONF_SRC + ['common.h', 'pbt.h', 'ref.h']:
        if os.path.exists(os.path.join(src, 'harness', s)):
            shutil.copy2(os.path.join(src, 'harness', s), os.path.join(p, 'harness'))
    with open(os.path.join(p, 'include', 'libbase64.h'), 'w') as h:
        h.write('#include <libbase64.h>\n')
    cxx = '++' in f['lang']
    second = 'second.' + ('cc' if cxx else 'c')
    with open(os.path.join(p, second), 'w') as h:
        h.write(CLIENT)
    with open(os.path.join(p, 'probe.c'), 'w') as h:
        h.write(PROBE)
    units = ['harness/' + s for s in CONF_SRC] + ['probe.c', second]
    lines = ['cmake_minimum_required(VERSION 3.10.2)', 'project(client LANGUAGES C%s)' % (' CXX' if cxx else '')]
    if f['kind'] == 'subdir':
        lines += ['add_subdirectory(../src base64)', 'set(lib base64)']
    elif f['kind'] == 'package':
        lines += ['find_package(base64 %s REQUIRED)' % (f['version'] or ''), 'set(lib aklomp::base64)', 'if (NOT base64_VERSION)', 'message(FATAL_ERROR "the package has no version")', 'endif()']
    lines += ['add_executable(conf %s)' % ' '.join(units), 'target_link_libraries(conf PRIVATE ${lib})',
              'set_source_files_properties(%s PROPERTIES COMPILE_OPTIONS "-std=gnu11")' % ' '.join(units[:-1]),
              'set_source_files_properties(%s PROPERTIES COMPILE_OPTIONS "-std=%s;-pedantic-errors")' % (second, f['lang'])]
    with open(os.path.join(p, 'CMakeLists.txt'), 'w') as h:
        h.write('\n'.join(lines) + '\n')
    return p, units


def build(f):
    """Builds library, tool and client. Returns (directory, program, tool or None, environment)."""
    src = snapshot()
    d = os.path.join(scratch(), 'p%d' % f['k'])
    os.makedirs(d)
    tree = os.path.join(d, 'src')
    shutil.copytree(src, tree, ignore=shutil.ignore_patterns('harness', 'config.h'))
    cc, cxx, cpu, runner, pool, pre = TARGETS[f['target']]
    env = dict(os.environ)
    for x in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CC', 'CXX', 'OPENMP'):
        env.pop(x, None)
    client, units = consumer(f, d, src)
    exe_name = 'conf'
    cxx_arg = ['-DCMAKE_CXX_COMPILER=' + cxx] if '++' in f['lang'] else []
    tool = None
    ldpath = None
    if f['kind'] == 'make':
        e = dict(env, CFLAGS={'Debug': '-g', 'MinSizeRel': '-Os', 'RelWithDebInfo': '-g'}.get(f['build_type'], '') + (' -pedantic-errors' if f['pedantic'] else '') + (' -fPIC' if f['pic'] else ''))
        cmd = ['make', '-C', tree, '-j', '2', 'CC=' + cc, 'LD=' + ('ld -m elf_i386' if f['target'] == 'i686' else pre + 'ld'), 'OBJCOPY=' + pre + 'objcopy']
        e.update({c + '_CFLAGS': MAKEFLAGS[c] for c in f['have']})
        if f['openmp']:
            e['OPENMP'] = '1'
        must(cmd, 'make', f, e)
        tool = os.path.join(tree, 'bin', 'base64')
        lib = [os.path.join(tree, 'lib', 'libbase64.o')]
        inc = os.path.join(tree, 'include')
    elif f['kind'] == 'subdir':
        b = os.path.join(d, 'b')
        must(['cmake', '-S', client, '-B', b] + cmake_args(f) + lib_args(f) + cxx_arg, 'configuring a project that contains the library', f, env)
        must(build_cmd(b, f), 'building a project that contains the library', f, env)
        exe = [p for p in (os.path.join(b, 'conf'), os.path.join(b, f['build_type'] or 'Release', 'conf')) if os.path.exists(p)][0]
        t = [p for p in glob.glob(os.path.join(b, 'base64', '**', 'base64'), recursive=True) if os.path.isfile(p) and os.access(p, os.X_OK)]
        if f['cli'] and not t:
            raise Fails('the tool is not built (%s)' % describe(f))
        return d, exe, t[0] if t else None, env
    else:
        b, prefix = os.path.join(d, 'b'), os.path.join(d, 'prefix')
        must(['cmake', '-S', tree, '-B', b, '-DCMAKE_INSTALL_PREFIX=' + prefix, '-DCMAKE_INSTALL_LIBDIR=' + f['libdir'], '-DCMAKE_INSTALL_INCLUDEDIR=' + f['incdir']] + cmake_args(f) + lib_args(f), 'configuring', f, env)
        must(build_cmd(b, f), 'building', f, env)
        must(['cmake', '--install', b] + (['--config', f['build_type'] or 'Release'] if 'Multi' in f['generator'] else []), 'installing', f, env)
        shutil.rmtree(b)
        shutil.rmtree(tree)	# the package stands alone
        if f['relocate']:
            os.rename(prefix, os.path.join(d, 'other place'))
            prefix = os.path.join(d, 'other place')
        libdir = os.path.join(prefix, f['libdir'])
        ldpath = libdir if f['shared'] else None
        tool = os.path.join(prefix, 'bin', 'base64')
        if os.path.exists(tool) != f['cli']:
            raise Fails('the tool is %sinstalled (%s)' % ('not ' if f['cli'] else '', describe(f)))
        tool = tool if f['cli'] else None
        inc = os.path.join(prefix, f['incdir'])
        lib = ['-L' + libdir, '-lbase64', '-Wl,-rpath,' + libdir]
        if f['kind'] == 'package':
            cb = os.path.join(d, 'cb')
            must(['cmake', '-S', client, '-B', cb, '-Dbase64_DIR=' + os.path.join(libdir, 'cmake', 'base64') if f['libdir'] != 'lib' else '-DCMAKE_PREFIX_PATH=' + prefix] + cmake_args(f) + cxx_arg, 'configuring a client of the package', f, env)
            must(build_cmd(cb, f), 'building a client of the package', f, env)
            exe = [p for p in (os.path.join(cb, 'conf'), os.path.join(cb, f['build_type'] or 'Release', 'conf')) if os.path.exists(p)][0]
            return d, exe, tool, dict(env, **({'LD_LIBRARY_PATH': ldpath} if ldpath else {}))
    # by hand
    objs = []
    for u in units:
        o = os.path.join(d, u.replace('/', '_') + '.o')
        second = u.startswith('second')
        must([cxx if u.endswith('.cc') else cc] + (['-std=' + f['lang'], '-pedantic-errors'] if second else ['-std=gnu11', '-O1']) + ['-DBASE64_STATIC_DEFINE'] * (not f['shared']) + ['-I' + inc, '-c', os.path.join(client, u), '-o', o], 'compiling a client', f)
        objs.append(o)
    exe = os.path.join(d, 'conf')
    must([cxx if '++' in f['lang'] else cc] + objs + lib + (['-fopenmp'] if f['openmp'] else []) + ['-o', exe], 'linking a client', f)
    return d, exe, tool, dict(env, **({'LD_LIBRARY_PATH': ldpath} if ldpath else {}))


def probe_tool(c, f, tool, env, rng, count):
    run = TARGETS[f['target']][3]
    for i in range(count):
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 57, 100, 1000, rng.randrange(40000)]))
        w = rng.choice([0, 1, 64, 76, rng.randrange(1, 300)])
        e = base64.b64encode(data)
        lines = b''.join(e[j:j + w] + b'\n' for j in range(0, len(e), w)) if w else e
        r = subprocess.run(run + [tool, '-w', str(w)], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        if r.returncode or r.stdout != lines:
            raise Fails('the tool encodes %d bytes with -w %d wrongly (exit %d, %s) (%s)' % (len(data), w, r.returncode, r.stderr[:200], describe(f)))
        r = subprocess.run(run + [tool, '-d'], input=lines, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        if r.returncode or r.stdout != data:
            raise Fails('the tool decodes %d bytes wrongly (exit %d, %s) (%s)' % (len(lines), r.returncode, r.stderr[:200], describe(f)))
        r = subprocess.run(run + [tool, '-d'], input=lines + b'A', stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=60)
        if r.returncode == 0:
            raise Fails('the tool accepts a malformed text (%s)' % describe(f))
        c.record(3, ['tool-%d-%d-%d' % (c.seed, f['k'], i)] if data else [], 'tool')


LOCK = threading.Lock()


def one(c, seed, k, cases):
    if c.violation:
        return
    f = config(seed, k)
    rep = {'kind': 'pkg', 'seed': seed, 'k': k, 'config': describe(f)}
    have = codecs_of(f)
    runner = TARGETS[f['target']][3]
    d = os.path.join(scratch(), 'p%d' % k)
    try:
        d, exe, tool, env = build(f)
        if tool:
            probe_tool(c, f, tool, env, random.Random('tool/%d/%d' % (seed, k)), 3)
        v = Variant('pkg%d' % k, have=have)
        out, hs = os.path.join(d, 'o.json'), os.path.join(d, 'h.bin')
        args = runner + [exe, '--prop', 'conf', '--seed', str(seed), '--cases', str(cases // 10 if runner else cases), '--from', '0', '--shard', '0', '--shards', '1', '--out', out, '--hashes', hs, '--cpu-limit', '120'] + \
            engine.params_args(v, {'config': k})
        rd = os.path.join(d, 'r')
        os.makedirs(rd)
        e = {x: env[x] for x in ('LD_LIBRARY_PATH',) if x in env}
        e['OMP_NUM_THREADS'] = '3'
        if f['openmp']:
            e['OMP_WAIT_POLICY'] = 'passive'
        if runner and 'LD_LIBRARY_PATH' in e:
            args[1:1] = ['-E', 'LD_LIBRARY_PATH=' + e.pop('LD_LIBRARY_PATH')]
        try:
            r = engine._collect(args, out, hs, 600, rd, env=e)
        except ToolError as x:
            raise Fails('a client cannot run (%s): %s' % (describe(f), x))
        if r['failure']:
            raise Fails('%s\n  %s\n  %s' % (r['failure']['msg'], r['failure']['note'], describe(f)))
    except Fails as x:
        with LOCK:
            c.violate(str(x), rep)
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    c.record(r['evals'] + 1, ['config-%d-%d' % (seed, k)], [f['kind'], f['target'], 'shared' if f['shared'] else 'static', f['lang']] + [x for x in ('openmp', 'relocate', 'regen', 'ipo', 'pedantic') if f[x]], describe(f))
    with LOCK:
        if hasattr(c, 'hash'):
            c.hash.append(r['hashes'])


def C27(c):
    c.rule = ('Generated builds: CMake options (codecs, OpenMP, shared or static, tool, tables regenerated, foreign options), generator, build type, compiler and target, install layout, package moved or not, '
              'or the Makefile with its variables. Each is configured, built, installed, and used by a client project (find_package with a version, add_subdirectory, or by hand) with a second unit in a generated C or C++ '
              'standard, compiled pedantically; the client runs the generated API cases of C11 and the tool is probed. Non-trivial: a distinct configuration, a client case with at least one byte, a tool run with data.')
    snapshot()
    n = c.n(40, 600)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda k: one(c, c.seed, k, c.n(400, 1500)), range(n)))
    c.extra['configurations'] = n


class _C:
    def __init__(self, seed):
        self.id, self.violation, self.seed = 'C27', None, seed

    def record(self, *a, **k):
        pass

    def violate(self, msg, replay):
        self.violation = self.violation or msg


def replay_pkg(d):
    c = _C(d['seed'])
    one(c, d['seed'], d['k'], 1500)
    if c.violation:
        print(c.violation)
        print('VIOLATION property=C27 replay=(this file)')
        return 1
    print('held')
    return 0


CHECKS = {'C27': C27}
REPLAYERS = {'pkg': replay_pkg}
INFO = {'C27': ('property-based testing over generated build options, install layouts and client projects', 'Samples configurations (40 quick, 600 thorough) with CMake 3.28, GNU make, gcc and clang on Linux targets; '
                'no Windows, macOS or MSVC.', 'exploration')}
