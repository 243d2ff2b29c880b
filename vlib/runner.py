"""Runs the aspects of one property: replay tier, enumerations, searches."""
import argparse, hashlib, importlib, json, os, signal, subprocess, sys, tempfile, time, traceback, random

from vlib.sut import Worker, Violation, NoAnswer, HarnessError, HERE

EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(HERE, 'replays')
REGRESS = os.path.join(HERE, 'regress')
SHRINK_SECONDS = 45
GRACE_SECONDS = 60
QUICK = 3       # searches of the quick tier generate this many times their nominal number
TERMINATED = 75
TZS = ['America/St_Johns', 'Asia/Kathmandu', 'UTC', 'Pacific/Auckland',
       'America/Los_Angeles', 'Europe/Madrid', 'Asia/Tokyo', 'Africa/Lagos']


class Stop(BaseException):
    """The time for shrinking a failure is over"""


class Search(object):
    """Generated cases. `check(w, case)` raises Violation; it returns whether
    the case was non-trivial (None: yes)."""
    kind = 'search'

    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough = quick, thorough or quick * 15


class Enum(object):
    """A finite space. `cases(tier)` yields cases; `check(w, case)` returns the
    number of points it evaluated; `split(case)` gives its single points."""
    kind = 'enum'

    def __init__(self, name, cases, check, split=None):
        self.name, self.cases, self.check, self.split = name, cases, check, split


class Fuzz(object):
    """A search driven by code coverage of the worker; `run(w, rnd, n)` yields
    (case, nontrivial) and raises Violation with `.case` set."""
    kind = 'fuzz'

    def __init__(self, name, run, check, quick, thorough):
        self.name, self.run, self.check, self.quick, self.thorough = name, run, check, quick, thorough


def load(pid):
    return importlib.import_module('vlib.props.' + pid.lower())


def key(aspect, case):
    t = json.dumps([aspect, case], sort_keys=True)
    return hashlib.blake2b(t.encode(), digest_size=8).hexdigest()


def run_check(aspect, w, case):
    """-> result of the check; any failure becomes a Violation"""
    try:
        return aspect.check(w, case)
    except (Violation, HarnessError):
        raise
    except Exception:
        # the oracle could not even interpret what came back
        raise Violation('result cannot be interpreted: %s' % traceback.format_exc()[-900:])


class Shard(object):
    def __init__(self, pid, tier, seed, index, count):
        self.mod = load(pid)
        self.pid, self.tier, self.seed, self.index, self.count = pid, tier, seed, index, count
        self.w = Worker(TZS[index % len(TZS)])
        self.keys = set()
        self.stats = {}
        self.samples = []
        self.violations = []
        self.extra_points = 0

    def note(self, aspect, case, nontrivial, points=None):
        st = self.stats.setdefault(aspect.name, {'evaluations': 0, 'nontrivial': 0})
        if points is not None:
            st['evaluations'] += points
            if nontrivial:
                st['nontrivial'] += points
                self.extra_points += points
        else:
            st['evaluations'] += 1
            if nontrivial:
                st['nontrivial'] += 1
                self.keys.add(key(aspect.name, case))
        mine = [s for s in self.samples if s['aspect'] == aspect.name]
        if len(mine) < 2 and (nontrivial or points):
            text = json.dumps(case, ensure_ascii=False)
            self.samples.append({'aspect': aspect.name,
                                 'case': case if len(text) < 600 else text[:600] + '...'})

    def fail(self, aspect, case, msg):
        self.violations.append({'property': self.pid, 'aspect': aspect.name, 'case': case,
                                'message': msg, 'seed': self.seed, 'tier': self.tier})

    def enum(self, aspect):
        for i, case in enumerate(aspect.cases(self.tier)):
            if i % self.count != self.index:
                continue
            try:
                n = run_check(aspect, self.w, case)
                self.note(aspect, case, n is not False, n or 1)
            except Violation as e:
                msg = str(e)
                for one in (aspect.split(case) if aspect.split and not isinstance(e, NoAnswer) else []):
                    try:
                        run_check(aspect, self.w, one)
                    except Violation as e1:
                        case, msg = one, str(e1)
                        break
                self.fail(aspect, case, msg)
                return

    def search(self, aspect):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase, seed
        n = QUICK * aspect.quick if self.tier == 'quick' else aspect.thorough
        n = max(1, -(-n // self.count))
        s = int.from_bytes(hashlib.blake2b(
            ('%s/%s/%d/%d' % (self.pid, aspect.name, self.seed, self.index)).encode(),
            digest_size=8).digest(), 'big')
        state = {'first': None, 'last': None, 'failed': []}

        def body(case):
            case = json.loads(json.dumps(case))
            if state['first'] is not None and time.monotonic() - state['first'] > SHRINK_SECONDS:
                raise Stop
            try:
                r = run_check(aspect, self.w, case)
            except Violation as e:
                state['first'] = state['first'] or time.monotonic()
                size = len(json.dumps(case))
                if state['last'] is None or size <= state['last'][0]:
                    state['last'] = (size, case, str(e))
                    state['failed'].append(state['last'])
                if isinstance(e, NoAnswer):
                    state['failed'] = None
                    raise Stop
                raise
            if state['first'] is None:
                self.note(aspect, case, r is None or bool(r))

        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                        phases=(Phase.generate, Phase.shrink), print_blob=False)(
            seed(s)(given(aspect.strategy)(body)))
        try:
            test()
        except (Violation, Stop, BaseExceptionGroup, hypothesis.errors.HypothesisException) as e:
            if state['last'] is None:
                raise HarnessError('hypothesis: %r' % e)
            self.fail(aspect, *(self.confirmed(aspect, state['failed']) if state['failed'] else state['last'][1:]))

    def confirmed(self, aspect, failed):
        """the smallest failing case that also fails in a new worker, where nothing was done before"""
        failed = failed[::-1]
        for _, case, msg in failed[:1] + failed[1:-1:max(1, len(failed) // 4)] + failed[-1:]:
            self.w.stop()
            try:
                run_check(aspect, self.w, case)
            except Violation as e:
                return case, str(e)
        return failed[0][1], failed[0][2] + ' [needs the cases before it in the same run]'

    def fuzz(self, aspect):
        n = aspect.quick if self.tier == 'quick' else aspect.thorough
        n = -(-n // self.count)
        if not n:
            return
        rnd = random.Random('%s/%s/%d/%d' % (self.pid, aspect.name, self.seed, self.index))
        try:
            for case, nontrivial in aspect.run(self.w, rnd, n):
                self.note(aspect, case, nontrivial)
        except Violation as e:
            case, msg = (e.case, str(e)) if isinstance(e, NoAnswer) else minimise(aspect, self.w, e.case, str(e))
            self.fail(aspect, case, msg)

    def run(self):
        if self.index == 0:
            self.replays = 0
            for r in regressions(self.pid):
                a = aspect_of(self.mod, r['aspect'])
                try:
                    run_check(a, self.w, r['case'])
                except Violation as e:
                    self.fail(a, r['case'], str(e))
                self.replays += 1
        only = os.environ.get('VERIF_ASPECT')
        for a in self.mod.ASPECTS:
            if only and a.name not in only.split(','):
                continue
            if any(not listed(v) for v in self.violations):
                break
            t0 = time.monotonic()
            getattr(self, a.kind)(a)
            self.stats.setdefault(a.name, {'evaluations': 0, 'nontrivial': 0})['seconds'] = \
                round(time.monotonic() - t0, 2)
        self.w.stop()
        return {'keys': sorted(self.keys), 'stats': self.stats, 'samples': self.samples,
                'violations': self.violations, 'points': self.extra_points,
                'replays': getattr(self, 'replays', 0), 'budget_runs': self.w.budget_runs,
                'calls': self.w.calls}


def minimise(aspect, w, case, msg, limit=SHRINK_SECONDS):
    """ddmin over the octets of case['hex']"""
    end = time.monotonic() + limit
    data = bytes.fromhex(case['hex'])
    n = 2
    while len(data) > 1 and time.monotonic() < end:
        size = max(1, len(data) // n)
        for i in range(0, len(data), size):
            cand = data[:i] + data[i + size:]
            c = dict(case, hex=cand.hex())
            try:
                run_check(aspect, w, c)
            except Violation as e:
                data, case, msg = cand, c, str(e)
                n = max(n - 1, 2)
                break
            if time.monotonic() > end:
                break
        else:
            if size == 1:
                break
            n = min(n * 2, len(data))
    return case, msg


def regressions(pid):
    path = os.path.join(REGRESS, pid + '.json')
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return []


def aspect_of(mod, name):
    for a in mod.ASPECTS:
        if a.name == name:
            return a
    raise HarnessError('no aspect %s' % name)


def findings():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def listed(v):
    """the known findings that describe the violation"""
    return [f for f in findings().get('findings', [])
            if (f['property'], f['aspect'], f['case']) == (v['property'], v['aspect'], v['case'])]


def write_replay(v):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s-%s.json' % (v['property'], v['aspect'], key(v['aspect'], v['case'])))
    with open(path, 'w') as f:
        json.dump(v, f, indent=1)
    return path


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--shard')
    ap.add_argument('--out')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        if a.replay:
            return replay(a.property, a.replay)
        if a.shard:
            i, n = map(int, a.shard.split('/'))
            shard = Shard(a.property, tier, seed, i, n)

            def terminated(*_):
                if shard.w.proc is not None:
                    shard.w.proc.kill()
                os._exit(TERMINATED)
            signal.signal(signal.SIGTERM, terminated)
            res = shard.run()
            with open(a.out, 'w') as f:
                json.dump(res, f)
            return 0
        return parent(a.property, tier, seed)
    except HarnessError as e:
        sys.stderr.write('HARNESS ERROR: %s\n' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


def replay(pid, path):
    with open(path) as f:
        v = json.load(f)
    mod = load(pid)
    w = Worker()
    try:
        run_check(aspect_of(mod, v['aspect']), w, v['case'])
    except Violation as e:
        print(str(e))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    finally:
        w.stop()
    print('property %s holds on this case' % pid)
    return 0


def found(out):
    with open(out) as f:
        return any(not listed(v) for v in json.load(f)['violations'])


def parent(pid, tier, seed):
    t0 = time.monotonic()
    mod = load(pid)
    count = 4 if tier == 'quick' else 8
    with tempfile.TemporaryDirectory(prefix='vcheck-') as tmp:
        procs = []
        for i in range(count):
            out = os.path.join(tmp, '%d.json' % i)
            procs.append((out, subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'check.py'), pid, '--tier', tier,
                 '--shard', '%d/%d' % (i, count), '--out', out], cwd=HERE,
                env=dict(os.environ, HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(tmp, 'h%d' % i), TMPDIR=tmp),
                stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))))
        results, errors = [], []
        end, looked = None, set()
        for out, p in procs:
            while p.poll() is None:
                time.sleep(0.05)
                for o, q in procs:
                    if o not in looked and q.poll() == 0:
                        looked.add(o)
                        if end is None and found(o):
                            end = time.monotonic() + GRACE_SECONDS
                if end is not None and time.monotonic() > end:
                    p.terminate()       # there is a violation to report already
                    p.wait()
                    break
            if p.returncode == TERMINATED and end is not None:
                continue
            if p.returncode != 0:
                errors.append('shard exit %s: %s' % (p.returncode, open(out + '.err').read()[-3000:]))
            else:
                results.append(json.load(open(out)))
    keys, stats, samples, violations = set(), {}, [], []
    points = replays = calls = budget = 0
    for r in results:
        keys.update(r['keys'])
        points += r['points']
        replays += r['replays']
        calls += r['calls']
        budget += r['budget_runs']
        violations += r['violations']
        for k, v in r['stats'].items():
            d = stats.setdefault(k, {'evaluations': 0, 'nontrivial': 0, 'seconds': 0})
            d['evaluations'] += v['evaluations']
            d['nontrivial'] += v['nontrivial']
            d['seconds'] = max(d['seconds'], v.get('seconds', 0))
    for a in mod.ASPECTS:
        samples += [s for r in results for s in r['samples'] if s['aspect'] == a.name][:2]
    new, known = [], []
    for v in violations:
        hit = listed(v)
        (known if hit else new).append((v, hit))
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(d['evaluations'] for d in stats.values()),
            'distinct_nontrivial': len(keys) + points,
            'rule': mod.RULE,
            'samples': samples[:24],
            'per_aspect': stats,
            'enumerated_points': points,
            'regression_cases_replayed': replays,
            'requests_to_code_under_test': calls,
            'slow_cases_rerun_under_step_budget': budget,
            'shards': count,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'The code under test runs on Jython 2.7.3, the only Python 2 here.',
            'The reference models in vlib/ read the 3GPP and WAP documents correctly.'],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    for f in {f['id']: f for _, h in known for f in h}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for v, _ in new:
        path = write_replay(v)
        print('%s/%s: %s' % (pid, v['aspect'], v['message'][:1500]))
        print('  case: %s' % json.dumps(v['case'], ensure_ascii=False)[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if new:
        return 1
    if errors:
        sys.stderr.write('\n'.join(errors) + '\n')
        return 2
    print('%s: held on %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, evidence['coverage']['evaluations'], evidence['coverage']['distinct_nontrivial'],
        evidence['wall_s']))
    return 0
