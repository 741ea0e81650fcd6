"""Runs harness programs in shards, collects what they covered, shrinks failures, writes evidence."""
import concurrent.futures as cf
import hashlib, json, os, subprocess, sys, tempfile, time
import numpy as np
from build import *
from build import _cc

OUT = os.path.join(VERIF, 'out')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class TimeOut(ToolError):
    pass


def findings(pid):
    """The known findings of a property: key -> what fails."""
    d = {}
    for l in open(FINDINGS):
        if l.startswith('finding: property=%s ' % pid):
            key, _, text = l.split(None, 2)[2].strip().partition(' ')
            d[key] = text
    return d


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.evals = self.cases = self.hits = 0
        self.hash = []          # arrays of hashes of non-trivial cases
        self.distinct_extra = set()
        self.classes, self.samples, self.parts = {}, [], []
        self.violation = None
        self.known_seen = {}
        self.rule, self.assumptions, self.extra = '', [], {}
        self.level = 'exploration'

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %5.1fs]' % (self.id, time.time() - self.t0), *a, flush=True)

    def n(self, quick, thorough=None):
        """A number of cases, by tier."""
        return int(thorough if thorough is not None else quick * 20) if self.thorough else int(quick)

    def record(self, evals=0, hashes=(), klass=None, sample=None):
        """For checks whose generator lives in Python."""
        self.evals += evals
        for h in hashes:
            self.distinct_extra.add(h)
        if klass:
            for k in ([klass] if isinstance(klass, str) else klass):
                self.classes[k] = self.classes.get(k, 0) + 1
        if sample is not None and len(self.samples) < 24:
            self.samples.append(sample)

    def violate(self, msg, replay):
        """Records a violation; replay is a dict that check.py can re-run."""
        if self.violation:
            return
        os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
        blob = json.dumps(dict(replay, property=self.id, message=msg), indent=1, default=str)
        path = os.path.join(OUT, 'replays', '%s-%s.json' % (self.id, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        with open(path, 'w') as f:
            f.write(blob + '\n')
        self.violation = (msg, path)

    def known(self, key, text):
        """A failure that known_findings.txt lists."""
        self.known_seen.setdefault(key, text)

    def over(self):
        return time.time() - self.t0 > self.budget

    def finish(self):
        wall = time.time() - self.t0
        arrs = [a for a in self.hash if len(a)]
        distinct = len(np.unique(np.concatenate(arrs))) if arrs else 0
        distinct += len(self.distinct_extra)
        cov = {'evaluations': int(self.evals), 'distinct_nontrivial': int(distinct), 'rule': self.rule, 'samples': self.samples[:24] or ['(none)'],
               'classes': dict(sorted(self.classes.items())), 'parts': self.parts}
        if self.cases:
            cov['generated_cases'] = int(self.cases)
        if self.known_seen:
            cov['known_findings'] = self.known_seen
        cov.update(self.extra)
        ev = {'property': self.id, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(wall, 2), 'violations': 1 if self.violation else 0}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k, text in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s %s %s' % (self.id, k, text))
        if self.violation:
            print(self.violation[0])
            print('VIOLATION property=%s replay=%s' % (self.id, self.violation[1]), flush=True)
            return 1
        if self.evals == 0 or distinct == 0:
            print('nothing was explored: no verdict')
            return 2
        self.log('held: %d evaluations, %d distinct non-trivial cases' % (self.evals, distinct))
        return 0

    # ------------------------------------------------------------ C harnesses

    @property
    def budget(self):
        """Seconds after which generation stops (what was explored so far counts)."""
        return float(os.environ.get('VERIF_BUDGET_S') or (7200 if self.thorough else 660))

    def run_plan(self, name, plan):
        """plan: list of dicts {variant, prop, cases, shards, params, from}.
        cases 0 runs the whole enumeration. Stops at the first failure."""
        jobs = []
        seen = {}
        for p in plan:
            # every variant gets cases of its own, unless they are to be compared
            if p.get('cases') and 'from' not in p:
                p['from'] = 100000000 * seen.setdefault(p['prop'], 0)
                seen[p['prop']] += 1
        for k, p in enumerate(plan):
            sh = p.get('shards', 1)
            for s in range(sh):
                jobs.append((k, p, s, sh))
        # the long ones first
        results = {}
        stop = []

        def one(job):
            k, p, s, sh = job
            if stop:
                return None
            r = run_prog(p['variant'], name, p['prop'], self.seed, p.get('cases', 0) and p['from'] + p['cases'], s, sh, p.get('params', {}), max(60, self.budget + 150 - (time.time() - self.t0)), p.get('from', 0),
                         cpu_limit=p.get('cpu_limit', 60), more=['--time', '%.1f' % max(.3, self.budget - (time.time() - self.t0))])
            if r.get('failure'):
                stop.append(1)
            return (k, p, s, sh, r)

        with cf.ThreadPoolExecutor(JOBS) as ex:
            done = [r for r in ex.map(one, jobs) if r]
        fails = []
        agg = {}
        for k, p, s, sh, r in done:
            self.merge(r)
            a = agg.setdefault(k, {'variant': p['variant'].name, 'prop': p['prop'], 'cases': 0, 'evaluations': 0, 'enumeration': r['enum_total'] or None})
            a['cases'] += r['cases']
            a['evaluations'] += r['evals']
            if r.get('failure'):
                fails.append((k, p, s, sh, r))
        for k in sorted(agg):
            a = agg[k]
            if a['enumeration']:
                a['complete'] = a['cases'] >= a['enumeration']
            else:
                del a['enumeration']
            self.parts.append(a)
        if fails:
            fails.sort(key=lambda f: (f[0], f[4]['failure']['index']))
            self.report_failure(name, fails[0])
        return not fails

    def merge(self, r):
        self.cases += r['cases']
        self.evals += r['evals']
        self.hits += r['hits']
        for k, v in r['classes'].items():
            self.classes[k] = self.classes.get(k, 0) + v
        for s in r['samples']:
            if len(self.samples) < 24 and not any(s == x for x in self.samples):
                self.samples.append(s)
        if len(r['hashes']):
            self.hash.append(r['hashes'])

    def report_failure(self, name, fail):
        k, p, s, sh, r = fail
        v, f = p['variant'], r['failure']
        self.log('failure in %s/%s case %d: %s' % (v.name, p['prop'], f['index'], f['msg']))
        self.log('  ' + f['note'])
        params = p.get('params', {})
        rep = {'kind': 'tape', 'harness': name, 'variant': v.name, 'prop': p['prop'], 'params': params, 'seed': self.seed, 'index': f['index'], 'tape': f['tape'],
               'note': f['note'], 'check': self.id}
        if f['msg'].startswith('does not terminate'):
            # every attempt at something smaller would take as long
            rep['kind'] = 'tape' if f['tape'] is not None else 'range'
            rep.update(first=f['index'], last=f['index'], shard=s, shards=sh)
            self.violate('%s\n  %s' % (f['msg'], f['note']), rep)
            return
        hits = [replay_prog(v, name, p['prop'], f['tape'], params) for _ in range(40 if p.get('flaky') else 3)] if f['tape'] is not None else [None]
        if f.get('hang'):
            rep.update(kind='range', first=f['index'], last=f['index'], shard=s, shards=sh)
            self.violate('%s\n  %s' % (f['msg'], f['note']), rep)
            return
        if all(hits):
            tape, last = shrink(v, name, p['prop'], f['tape'], params, hits[0])
            rep.update(tape=tape, note=last['note'], original_tape=f['tape'][:2000] if len(f['tape']) < 2000 else 'long')
            self.violate('%s\n  %s' % (last['msg'], last['note']), rep)
            return
        if p.get('flaky'):
            # depends on the schedule: wrong is wrong, however seldom
            rep['note'] += ' (seen again in %d of %d replays)' % (sum(map(bool, hits)), len(hits))
            rep['flaky'] = True
            self.violate('%s\n  %s' % (f['msg'], f['note']), rep)
            return
        # depends on the cases before it: shortest run of cases that ends in it
        rep['kind'] = 'range'
        idx = f['index']
        start, ok = idx, None
        step = sh
        base = p.get('from', 0) + s
        while True:
            r2 = run_prog(v, name, p['prop'], self.seed, idx + 1, s, sh, params, 600, start)
            if r2.get('failure'):
                ok = start
                break
            if start == base:
                break
            start = max(base, start - step)
            start -= (start - base) % sh
            step *= 4
        if ok is None:
            # seen once, not again: only races with the outside can do this
            again = run_prog(v, name, p['prop'], self.seed, idx + 1, s, sh, params, 600, base)
            if not again.get('failure'):
                raise ToolError('a failure that does not happen again: %s / %s' % (f['msg'], f['note']))
            ok = base
        rep.update(first=ok, last=idx, shard=s, shards=sh)
        self.violate('%s\n  %s\n  (cases %d..%d of this run in one process)' % (f['msg'], f['note'], ok, idx), rep)

    def fuzz(self, variant, sources, prop, seconds, params=None, jobs=1, defs=(), ldflags=(), name='fuzz', max_len=600):
        """A libFuzzer campaign on one property of a harness (thorough tier)."""
        src = snapshot()
        v = variant
        exe = os.path.join(v.dir(), name)
        if not os.path.exists(exe):
            objs = []
            for s in sources:
                o = os.path.join(v.dir(), 'f_%s_%s.o' % (name, s.rsplit('.', 1)[0]))
                _cc([v.cc, '-std=gnu11', '-O1'] + v.cflags + list(defs) + ['-DPBT_FUZZ', '-DPBT_SANITIZER', '-DBASE64_STATIC_DEFINE', '-I' + os.path.join(src, 'harness'),
                     '-c', os.path.join(src, 'harness', s), '-o', o])
                objs.append(o)
            build_libs([v])
            _cc([v.cc] + v.cflags + ['-fsanitize=fuzzer'] + objs + v.objs + ['-o', exe] + v.ldflags + list(ldflags))
        params = dict({'codecs': v.codecs_param(), 'cannot': v.cannot_param()}, **(params or {}))
        procs = []
        for j in range(jobs):
            d = tempfile.mkdtemp(prefix='fz', dir=scratch())
            env = dict(os.environ, PBT_PROP=prop, PBT_PARAMS=';'.join('%s=%s' % kv for kv in params.items()), PBT_OUT=os.path.join(d, 'res.json'), ASAN_OPTIONS='detect_leaks=0')
            log = open(os.path.join(d, 'log'), 'w')
            procs.append((d, subprocess.Popen([exe, '-max_total_time=%d' % seconds, '-seed=%d' % (self.seed * 100 + j + 1), '-max_len=%d' % max_len, '-len_control=0',
                                               '-artifact_prefix=' + d + '/', '-print_final_stats=1', '-timeout=60', '-rss_limit_mb=2048', d], env=env, stdout=log, stderr=log)))
        execs = 0
        crash = None
        for d, pr in procs:
            pr.wait()
            txt = open(os.path.join(d, 'log'), errors='replace').read()
            for l in txt.splitlines():
                if 'number_of_executed_units' in l:
                    execs += int(l.split()[-1])
            cs = [f for f in os.listdir(d) if f.startswith(('crash-', 'timeout-', 'leak-'))]
            if cs and not crash:
                crash = (os.path.join(d, cs[0]), txt[-3000:])
        self.evals += execs
        self.parts.append({'variant': v.name, 'prop': prop, 'libFuzzer_executions': execs, 'seconds': seconds})
        return crash


def params_args(v, params):
    a = ['--param', 'codecs=' + v.codecs_param(), '--param', 'cannot=' + v.cannot_param()]
    for k, x in getattr(v, 'extra_params', {}).items():
        a += ['--param', '%s=%s' % (k, x)]
    for k, x in params.items():
        a += ['--param', '%s=%s' % (k, x)]
    return a


def run_prog(v, name, prop, seed, cases, shard, shards, params, timeout, frm=0, cpu_limit=60, more=()):
    d = tempfile.mkdtemp(prefix='r', dir=scratch())
    out, hs = os.path.join(d, 'o.json'), os.path.join(d, 'h.bin')
    cmd = prog(v, name) + ['--prop', prop, '--seed', str(seed), '--cases', str(cases), '--from', str(frm), '--shard', str(shard), '--shards', str(shards), '--out', out, '--hashes', hs,
                           '--cpu-limit', str(cpu_limit)] + list(more) + params_args(v, params)
    return _collect(cmd, out, hs, timeout, d, stall=4 * cpu_limit)


def _collect(cmd, out, hs, timeout, d, env=None, stall=None):
    log = os.path.join(d, 'log')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allow_user_segv_handler=1', MSAN_OPTIONS='exitcode=99', UBSAN_OPTIONS='print_stacktrace=0', **(env or {}))
    with open(log, 'wb') as f:
        r = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env)
    last, same, left = None, 0, timeout
    while True:
        try:
            r.wait(min(5, left))
            break
        except subprocess.TimeoutExpired:
            pass
        left -= 5
        try:
            now = open(out + '.idx', 'rb').read(8)
        except OSError:
            now = None
        same, last = same + 5 if now == last else 0, now
        hangs = stall and now is not None and same >= stall
        if left <= 0 or hangs:
            r.kill()
            r.wait()
            if not hangs:
                raise TimeOut('timed out after %d s: %s' % (timeout, ' '.join(cmd)))
            idx = int.from_bytes(now, 'little' if 's390x' not in ' '.join(cmd) else 'big')
            return {'cases': 0, 'evals': 0, 'hits': 0, 'classes': {}, 'samples': [], 'enum_total': 0, 'hashes': np.zeros(0, np.uint64),
                    'failure': {'index': idx, 'msg': 'a case did not end within %d s' % stall, 'note': '(case %d)' % idx, 'tape': None, 'hang': True}}
    r.stdout = open(log, errors='replace').read()
    try:
        res = json.load(open(out))
    except (OSError, ValueError):
        if -r.returncode in (4, 5, 6, 7, 8, 11):
            # died before it could say anything
            try:
                idx = int.from_bytes(open(out + '.idx', 'rb').read(8), 'little' if 's390x' not in ' '.join(cmd) else 'big')
            except OSError:
                idx = 0
            return {'cases': 0, 'evals': 0, 'hits': 0, 'classes': {}, 'samples': [], 'enum_total': 0, 'hashes': np.zeros(0, np.uint64),
                    'failure': {'index': idx, 'msg': 'the process dies of signal %d' % -r.returncode, 'note': '(case %d)' % idx, 'tape': None}}
        raise ToolError('harness gave no result (exit %s): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-2000:]))
    if r.returncode not in (0, 1, 99) or (r.returncode and not res['failure']):
        raise ToolError('harness exit %s: %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-2000:]))
    res['hashes'] = np.fromfile(hs, dtype=np.uint64) if hs and os.path.exists(hs) else np.zeros(0, np.uint64)
    if res['failure'] and r.stdout.strip():
        res['failure']['note'] += ' | ' + ' '.join(l.strip() for l in r.stdout.splitlines() if 'ERROR' in l or 'SUMMARY' in l or 'runtime error' in l or 'WARNING: MemorySanitizer' in l)[:600]
    subprocess.run(['rm', '-rf', d])
    return res


def replay_prog(v, name, prop, tape, params):
    return replay_full(v, name, prop, tape, params)['failure']


def replay_full(v, name, prop, tape, params):
    d = tempfile.mkdtemp(prefix='p', dir=scratch())
    t, out = os.path.join(d, 't'), os.path.join(d, 'o.json')
    with open(t, 'w') as f:
        f.write(' '.join(map(str, tape)) + '\n')
    cmd = prog(v, name) + ['--prop', prop, '--replay', t, '--out', out] + params_args(v, params)
    try:
        return _collect(cmd, out, None, 300, d)
    except TimeOut as e:
        return {'failure': {'index': 0, 'msg': 'a case did not end within 300 s', 'note': str(e), 'tape': list(tape)}}


def shrink(v, name, prop, tape, params, first, budget=float(os.environ.get('VERIF_SHRINK_S') or 25), fails=None):
    """Deletes, zeroes and lowers draws while the property still fails."""
    t0 = time.time()
    best, last = list(tape), first
    fails = fails or (lambda t: replay_prog(v, name, prop, t, params))

    def bad(t):
        nonlocal best, last
        if time.time() - t0 > budget:
            return False
        f = fails(t)
        if f:
            if f['tape'] is None:
                f['tape'] = t
            best, last = list(f['tape']) if len(f['tape']) <= len(t) else t, f
            return True
        return False

    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if bad(best[:i] + best[i + size:]):
                    improved = True
                i = min(i - size, len(best) - size)
            size //= 2
        i = 0
        while i < len(best):
            if best[i]:
                if bad(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while hi - lo > 1 and time.time() - t0 < budget:
                        mid = (lo + hi) // 2
                        if bad(best[:i] + [mid] + best[i + 1:]):
                            hi = best[i] if i < len(best) else 0
                            improved = True
                        else:
                            lo = mid
            i += 1
    return best, last
