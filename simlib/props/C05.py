"""fix_includes: every file is always entirely old or entirely new."""
import random

from simlib import fixer, frame, vos
from simlib.props import C10

ID = 'C05'
LEVEL = 'exploration'
COUNTS = {'quick': 6000, 'thorough': 30000}
RULE = ('As C10, run alone or as several instances with interleaved system '
        'calls, with or without faults; the files are looked at before every '
        'system call and after every change (each such moment is a process '
        'kill), and after simulated power failures there. Non-trivial: a file '
        'was edited.')
STATES = 'distinct file system states at a crash or power failure'
REAL = C10.REAL
STUB = ['file system with a journal and power failures', 'scheduler of '
        'several instances', 'reports']
ASSUMPTIONS = ['rename is atomic and metadata reaches the disk in order; data '
               'is durable after fsync and otherwise lost, kept or torn',
               'a fault is an error return of one system call']
PROBES = ['edited', 'kill-points', 'power-losses', 'interleaved', 'same-file',
          'switches', 'faulted', 'killed', 'new-after-power-loss',
          'old-after-power-loss', 'more-than-two-contents', 'big']


def generate(rng, index, tier):
    sc = fixer.gen_common(rng, {'plain': True, 'n': [1, 2, 3]})
    if rng.random() < 0.08:
        f = rng.choice(sc['files'])
        big = {'x': 'int pad[] = {%s};' % ', '.join(['1234567'] * 2500),
               'k': 'code', 'id': 0, 'e': '\n'}
        f['groups'] = f['groups'][:-1] + [[big]] + f['groups'][-1:]
    sc['power'] = rng.randrange(1 << 30)
    sc['instances'] = 1
    if rng.random() < 0.5 and len(sc['units']) > 1:
        sc['instances'] = rng.choice([2, 2, 3])
        sc['schedule'] = [rng.randrange(6) for _ in range(
            rng.choice([20, 100, 300]))]
    r = rng.random()
    if r < 0.3:
        sc['faults'] = [{'op': rng.choice(['write', 'write', 'fsync', 'rename',
                                           'open', 'read', 'close', 'chmod',
                                           'stdout', 'unlink']),
                         'n': rng.randrange(0, 8),
                         'count': rng.choice([1, 1, 2, 50]),
                         'err': rng.choice(['EIO', 'ENOSPC', 'EDQUOT',
                                            'EACCES'])}]
        if rng.random() < 0.25:      # as on a network file system
            sc['faults'] = [{'op': 'read', 'n': rng.randrange(4),
                             'count': rng.choice([1, 3, 1000]),
                             'short': rng.choice([1, 7, 100])}]
        elif rng.random() < 0.4:
            sc['faults'][0] = {'op': 'write', 'n': rng.randrange(4),
                               'count': rng.choice([1, 3]),
                               'short': rng.choice([1, 7, 100])}
            if rng.random() < 0.5:
                sc['faults'].append({'op': 'write', 'n': rng.randrange(1, 5),
                                     'count': 50, 'err': 'ENOSPC'})
    elif r < 0.5:
        sc['faults'] = [{'op': 'any', 'n': rng.randrange(0, 60),
                         'action': 'kill', 'pid': rng.choice([None, 1, 2])}]
    return sc


def split(sc):
    """Reports of each instance."""
    n = min(sc['instances'], max(1, len(sc['units'])))
    return [sc['units'][i::n] for i in range(n)]


def contents(sc, groups, out):
    """Per file path: the contents some serial order of instances leaves."""
    paths = [fixer.real_path(sc, i) for i in range(len(sc['files']))]
    fs = fixer.make_fs(sc)
    start = {p: fs.get(p) for p in paths}
    seen = {p: {start[p]} for p in paths}

    def go(state, left):
        for k in left:
            fs = fixer.make_fs(sc)
            for p in paths:
                if state[p] is not None:
                    fs.node(p).data[:] = state[p]
            run = fixer.Run(sc, [fixer.stream(sc, groups[k])], fs, faults=[])
            out.runs += 1
            if not fixer.sane(run, out):
                return
            after = {p: run.after.get(p) for p in paths}
            for p in paths:
                seen[p].add(after[p])
            go(after, [x for x in left if x != k])
    go(start, list(range(len(groups))))
    return seen


def execute(sc):
    out = frame.Outcome()
    groups = split(sc)
    allowed = contents(sc, groups, out)
    if out.violations:
        return out
    fs = fixer.make_fs(sc)
    rng = random.Random(sc['power'])
    bad = []
    last = [None]
    modes = {fixer.real_path(sc, i): f['mode']
             for i, f in enumerate(sc['files'])}

    def look(where, f, kind):
        for p, ok in allowed.items():
            data = f.get(p)
            if data not in ok:
                bad.append((kind, '%s, %s: the file holds neither its old nor '
                            'its new content: %s' % (p, where, describe(
                                data, ok))))
                return False
            if data is not None and f.node(p).mode != modes[p]:
                bad.append(('mode', '%s, %s: permissions are %o, not %o' % (
                    p, where, f.node(p).mode, modes[p])))
                return False
        return True

    def moment(run, op, path):
        if bad:
            return
        n = len(fs.journal)
        where = 'at step %d (%s %s)' % (run.k.steps, op, path)
        if n != last[0]:
            out.probes['kill-points'] += 1
            out.states.add(repr(sorted(fs.files().items())))
            if not look(where, fs, 'torn-on-kill'):
                return
            for _ in range(3):
                choices = []

                def choose(label, m):
                    v = rng.randrange(m)
                    choices.append('%s=%d' % (label, v))
                    return v
                lost = fs.after_power_loss(choose)
                out.probes['power-losses'] += 1
                out.faults['power-loss'] += 1
                if not look('after a power failure %s (%s)' % (
                        where, ' '.join(choices)), lost, 'torn-on-power-loss'):
                    return
                for p in allowed:
                    if len(allowed[p]) > 1:
                        d = lost.get(p)
                        out.probes['old-after-power-loss' if d == start[p]
                                   else 'new-after-power-loss'] += 1
            last[0] = n
    start = {p: fs.get(p) for p in allowed}
    run = fixer.Run(sc, [fixer.stream(sc, g) for g in groups], fs,
                    schedule=sc.get('schedule'), hook=moment, step_hook=moment)
    run.add_to(out)
    for p in run.procs:
        if p.status == 'hung':
            out.fail('hang', 'fix_includes does not finish')
        if p.status == 'escaped':
            raise RuntimeError('outside the simulation: %s' % p.error)
        if p.status == 'killed':
            out.probes['killed'] += 1
            out.faults['kill'] += 1
    if not bad:
        look('at the end', fs, 'torn-at-end')
    for kind, msg in bad:
        out.fail(kind, msg)
    # Undisturbed instances that ran alone finish the job.
    out.nontrivial = any(len(v) > 1 for v in allowed.values())
    if out.nontrivial:
        out.probes['edited'] += 1
    if len(groups) > 1:
        out.probes['interleaved'] += 1
        if run.k.switches:
            out.probes['switches'] += 1
    if any(len(v) > 2 for v in allowed.values()):
        out.probes['more-than-two-contents'] += 1
    touched = [{r['file'] for u in g for r in u['records']} for g in groups]
    if len(groups) > 1 and set.intersection(*touched):
        out.probes['same-file'] += 1
    if any(f.fired and f.action != 'kill' for f in run.k.faults):
        out.probes['faulted'] += 1
    if any(len(fixer.content(f)) > 8192 for f in sc['files']):
        out.probes['big'] += 1
    return out


def describe(data, ok):
    if data is None:
        return 'it does not exist'
    sizes = sorted(len(x) for x in ok if x is not None)
    return '%d bytes (%r...), allowed contents have %s bytes' % (
        len(data), data[:60], sizes)


def shrink(sc):
    if sc.get('schedule'):
        s = sc['schedule']
        yield dict(sc, schedule=s[:len(s) // 2])
        yield dict(sc, schedule=s[:-1])
    if sc['instances'] > 1:
        yield dict(sc, instances=sc['instances'] - 1)
    for s in fixer.shrink(sc):
        yield s
