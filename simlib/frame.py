"""Running many seeded simulations of one property, and reporting on them.

A property module (simlib/props/<id>.py) has
  ID, LEVEL, RULE, COUNTS {'quick': n, 'thorough': n}, REAL, STUB, ASSUMPTIONS
  generate(rng, index, tier) -> scenario       JSON, everything decided in it
  execute(scenario) -> Outcome                 pure function of scenario, code
  shrink(scenario) -> iterator of scenarios    smaller ones
"""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
LANES = 8
CPU_LIMIT = 60       # CPU seconds for one simulation: it hangs


class Outcome(object):
    def __init__(self):
        self.violations = []      # (kind, message)
        self.hash = ''
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()       # keys of distinct interleavings or states
        self.sim_time = 0.0
        self.runs = 1
        self.steps = 0
        self.nontrivial = True
        self.log = []
        self.sample = None

    def fail(self, kind, message):
        if len(self.violations) < 5:
            self.violations.append((kind, message))


def load(prop):
    return importlib.import_module('simlib.props.' + prop)


def rng_for(seed, prop, index):
    return random.Random('%d/%s/%d' % (seed, prop, index))


class CpuHang(BaseException):
    pass


def _on_alarm(sig, frame):
    raise CpuHang()


def run_one(mod, scenario):
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        out = mod.execute(scenario)
    except CpuHang:
        out = Outcome()
        out.fail('hang', 'no result after %d s of CPU time' % CPU_LIMIT)
        out.hash = 'hang'
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return out


def key(x):
    return hashlib.sha256(x.encode('utf-8', 'backslashreplace')).hexdigest()[:16]


def hash_seed(seed, lane):
    return (seed * 7919 + lane * 104729 + 1) % 4294967295


def worker(prop, tier, seed, lane, count, budget):
    """One lane: scenarios lane, lane+LANES, ... in this process."""
    mod = load(prop)
    t0 = time.time()
    tot = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    states = set()
    nontrivial = set()
    samples = []
    hashes = {}
    result = {'violation': None, 'nondeterminism': None}
    sim_time = 0.0
    for i in range(lane, count, LANES):
        if time.time() - t0 > budget:
            tot['cut_short'] = 1
            break
        scenario = mod.generate(rng_for(seed, prop, i), i, tier)
        scenario = json.loads(json.dumps(scenario))
        out = run_one(mod, scenario)
        tot['scenarios'] += 1
        tot['runs'] += out.runs
        tot['steps'] += out.steps
        sim_time += out.sim_time
        faults.update(out.faults)
        probes.update(out.probes)
        states.update(key(s) for s in out.states)
        if out.nontrivial:
            nontrivial.add(key(json.dumps(scenario, sort_keys=True)))
        if out.sample and len(samples) < 2:
            samples.append(out.sample)
        if i < 12 * LANES:
            hashes[i] = out.hash
        if out.violations or i % 37 == lane:
            again = run_one(mod, scenario)
            tot['repeated'] += 1
            if again.hash != out.hash or \
                    [v[0] for v in again.violations] != \
                    [v[0] for v in out.violations]:
                result['nondeterminism'] = i
                result['detail'] = [out.hash, again.hash,
                                    diff_logs(out.log, again.log),
                                    out.violations, again.violations]
                break
        if out.violations:
            result['violation'] = {'index': i, 'scenario': scenario,
                                   'kind': out.violations[0][0],
                                   'message': out.violations[0][1],
                                   'hash': out.hash}
            break
    if hasattr(mod, 'close'):
        mod.close()
    result.update(totals=tot, faults=faults, probes=probes,
                  states=sorted(states), nontrivial=sorted(nontrivial),
                  samples=samples, hashes=hashes, sim_time=sim_time)
    return result


def diff_logs(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return [i, x, y]
    return [min(len(a), len(b)), len(a), len(b)]


def minimise(mod, scenario, kind, budget):
    """Greedy: take any smaller scenario that fails in the same way."""
    t0 = time.time()
    tried = 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for smaller in mod.shrink(scenario):
            if time.time() - t0 > budget:
                break
            smaller = json.loads(json.dumps(smaller))
            tried += 1
            try:
                out = run_one(mod, smaller)
            except Exception:       # the shrinker made something impossible
                continue
            if any(v[0] == kind for v in out.violations):
                scenario = smaller
                progress = True
                break
    return scenario, tried


def spawn(args, hseed):
    env = {'PATH': '/usr/sbin:/usr/bin:/sbin:/bin', 'HOME': '/root',
           'LANG': 'C.UTF-8', 'PYTHONHASHSEED': str(hseed),
           'PYTHONDONTWRITEBYTECODE': '1'}
    for name in ('VERIF_BUILD',):
        if name in os.environ:
            env[name] = os.environ[name]
    return subprocess.Popen(
        [sys.executable, '-B', os.path.join(VERIF, 'check.py')] + args,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=VERIF)


def finish(proc):
    out, err = proc.communicate()
    if proc.returncode != 0:
        raise RuntimeError('worker failed (%s): %s'
                           % (proc.returncode, err.decode()[-3000:]))
    return json.loads(out.decode().splitlines()[-1])


def known_findings():
    """[(property, key, text)] of findings recorded but not repaired."""
    found = []
    try:
        with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                if line.startswith('finding: '):
                    fields = dict(w.split('=', 1) for w in line.split()[1:3])
                    text = ' '.join(line.split()[3:])
                    found.append((fields['property'], fields['key'], text))
    except FileNotFoundError:
        pass
    return found


def check(prop, tier, seed):
    t0 = time.time()
    mod = load(prop)
    if getattr(mod, 'NEEDS_ANALYSER', False):
        from . import build
        build.ensure()
    count = mod.COUNTS[tier]
    budget = 520 if tier == 'quick' else 7200
    budget = min(budget, getattr(mod, 'BUDGET', {}).get(tier, budget))
    procs = [spawn(['--worker', prop, tier, str(seed), str(lane), str(count),
                    str(budget)], hash_seed(seed, lane))
             for lane in range(LANES)]
    results = []
    error = None
    for p in procs:
        try:
            results.append(finish(p))
        except RuntimeError as why:
            error = why
    if error:
        print('ERROR: %s' % error)
        return 3
    for r in results:
        if r['nondeterminism'] is not None:
            print('ERROR: simulation %s is not deterministic: %s'
                  % (r['nondeterminism'], r['detail']))
            return 3
    # The same seeds again, in other processes.
    redo = {}
    checkers = [spawn(['--hashes', prop, tier, str(seed), str(lane),
                       str(min(count, 3 * LANES))], hash_seed(seed, lane))
                for lane in range(LANES)]
    for p in checkers:
        redo.update(finish(p))
    for r in results:
        for i, h in r['hashes'].items():
            if i in redo and redo[i] != h:
                print('ERROR: simulation %s differs between processes' % i)
                return 3
    wall = time.time() - t0
    total = collections.Counter()
    faults = collections.Counter()
    probes = collections.Counter()
    states, nontrivial, samples = set(), set(), []
    sim_time = 0.0
    for r in results:
        total.update(r['totals'])
        faults.update(r['faults'])
        probes.update(r['probes'])
        states.update(r['states'])
        nontrivial.update(r['nontrivial'])
        samples.extend(r['samples'][:1])
        sim_time += r['sim_time']
    bad = sorted((r['violation'] for r in results if r['violation']),
                 key=lambda v: v['index'])
    status = 0
    lines = []
    known = 0
    if bad:
        v = bad[0]
        path, ok, detail = confirm(prop, mod, seed, v)
        if not ok:
            print('ERROR: violation not reproduced on replay: %s' % detail)
            return 3
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        lines.append(detail)
        status = 1
    for p, k, text in known_findings():
        if p == prop:
            hit = mod.known(k)
            if hit:
                known += 1
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, text))
    seconds = max(wall, 1e-3)
    coverage = {
        'evaluations': total['runs'],
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples[:4],
        'scenarios': total['scenarios'],
        'simulated_runs_per_hour': int(total['runs'] * 3600 / seconds),
        'seeds_per_hour': int(total['scenarios'] * 3600 / seconds),
        'simulated_seconds': round(sim_time, 3),
        'simulated_system_calls': total['steps'],
        'faults_fired': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'distinct_states_measure': mod.STATES,
        'real_components': mod.REAL,
        'stub_components': mod.STUB,
        'determinism': {
            'repeated_in_process': total['repeated'],
            'repeated_in_other_process': len(redo),
            'hash_seeds': LANES, 'differences': 0},
        'cut_short': bool(total['cut_short']),
    }
    if hasattr(mod, 'extra_coverage'):
        coverage.update(mod.extra_coverage())
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'coverage': coverage, 'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 3), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    for line in lines:
        print(line)
    if status == 0:
        print('OK property=%s scenarios=%d runs=%d states=%d faults=%d '
              'wall=%.1fs' % (prop, total['scenarios'], total['runs'],
                              len(states), sum(faults.values()),
                              time.time() - t0))
        zero = [k for k in getattr(mod, 'PROBES', []) if not probes.get(k)]
        if zero:
            print('note: never reached: %s' % ', '.join(zero))
    return status


def confirm(prop, mod, seed, v):
    """Minimises in a fresh process, then replays the file in two others."""
    lane = v['index'] % LANES
    hseed = hash_seed(seed, lane)
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d-%d.json' % (prop, seed, v['index']))
    record = {'property': prop, 'seed': seed, 'index': v['index'],
              'hashseed': hseed, 'kind': v['kind'], 'message': v['message'],
              'hash': v['hash'], 'scenario': v['scenario']}
    with open(path, 'w') as f:
        json.dump(record, f, indent=1)
    full = path[:-5] + '-full.json'
    os.replace(path, full)
    finish(spawn(['--minimise', full, path], hseed))
    with open(path) as f:
        record = json.load(f)
    seen = [finish(spawn(['--replay-json', path], hseed)) for _ in range(2)]
    ok = all(s['hash'] == record['hash'] and record['kind'] in s['kinds']
             for s in seen)
    return path, ok, ('%s: %s (seed %d, scenario %d, shrunk from %d to %d '
                      'bytes)' % (record['kind'], record['message'][:2000],
                                  seed, v['index'],
                                  len(json.dumps(v['scenario'])),
                                  len(json.dumps(record['scenario']))))


def main(argv):
    if argv[0] == '--worker':
        prop, tier, seed, lane, count, budget = argv[1:]
        r = worker(prop, tier, int(seed), int(lane), int(count), float(budget))
        print(json.dumps(r))
        return 0
    if argv[0] == '--hashes':
        prop, tier, seed, lane, count = argv[1:]
        mod = load(prop)
        out = {}
        for i in range(int(lane), int(count), LANES):
            s = mod.generate(rng_for(int(seed), prop, i), i, tier)
            out[str(i)] = run_one(mod, json.loads(json.dumps(s))).hash
        if hasattr(mod, 'close'):
            mod.close()
        print(json.dumps(out))
        return 0
    if argv[0] == '--minimise':
        with open(argv[1]) as f:
            r = json.load(f)
        mod = load(r['property'])
        small, tried = minimise(mod, r['scenario'], r['kind'], 60)
        out = run_one(mod, small)
        r['scenario'] = small
        r['minimiser_tried'] = tried
        r['hash'] = out.hash
        r['message'] = [m for k, m in out.violations if k == r['kind']][0]
        r['log'] = out.log[-300:]
        with open(argv[2], 'w') as f:
            json.dump(r, f, indent=1)
        if hasattr(mod, 'close'):
            mod.close()
        print('{}')
        return 0
    if argv[0] in ('--replay-json', '--replay'):
        with open(argv[1]) as f:
            r = json.load(f)
        if os.environ.get('PYTHONHASHSEED') != str(r['hashseed']):
            p = spawn(argv, r['hashseed'])
            out, err = p.communicate()
            sys.stdout.write(out.decode())
            sys.stderr.write(err.decode())
            return p.returncode
        mod = load(r['property'])
        if getattr(mod, 'NEEDS_ANALYSER', False):
            from . import build
            build.ensure()
        out = run_one(mod, r['scenario'])
        if hasattr(mod, 'close'):
            mod.close()
        if argv[0] == '--replay-json':
            print(json.dumps({'hash': out.hash,
                              'kinds': [k for k, _ in out.violations]}))
            return 0
        for line in out.log:
            print(line)
        for k, m in out.violations:
            print('%s: %s' % (k, m))
        same = out.hash == r['hash']
        print('replay %s the recorded execution' %
              ('is' if same else 'is NOT'))
        return 1 if out.violations else 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return check(prop, tier, seed)
    except Exception as why:
        import traceback
        traceback.print_exc()
        print('ERROR: %s' % why)
        return 3
