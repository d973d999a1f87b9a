"""The whole pipeline: it keeps a project building, finishes its job, and can
be interrupted anywhere."""
import re

from simlib import analysis as A
from simlib import frame, pipeline
from simlib import program as P
from simlib.props import C11, C13

ID = 'C14'
LEVEL = 'exploration'
NEEDS_ANALYSER = True
COUNTS = {'quick': 1000, 'thorough': 18000}
ROUNDS = 4
RULE = ('A generated project of 1 to 3 translation units over common headers '
        'goes through rounds of iwyu_tool | fix_includes in one simulated '
        'system: the real iwyu_tool runs real analysers as simulated processes '
        'on the files as they are, and the real fix_includes edits them. The '
        'first rounds are disturbed or not, the others not. Non-trivial: some '
        'file was edited.')
STATES = 'distinct states of the project\'s files'
REAL = ['the analyser (C++), iwyu_tool.py and fix_includes.py, whole programs, '
        'joined by their own text formats']
STUB = C11.STUB + ['process table, clock and load average']
ASSUMPTIONS = ['all units of the project are in the compilation database',
               'headers of the project can be compiled alone',
               'disturbances are those of analyses (see C12), kills and power '
               'failures; a header that cannot be written while its source can '
               'leaves work to do by hand',
               'rounds with --nosafe_headers are not disturbed: a header may '
               'lose a line needed by a file that was not analysed']
PROBES = ['safe', 'unsafe', 'disturbed', 'tool-killed', 'fix-killed',
          'power-loss', 'analysis-failed', 'second-round-edits', 'converged',
          'all-correct', 'several-units', 'header-edited', 'intermediate-state',
          'same-result']
FLAGS = [['--reorder'], ['--reorder'], [], ['--comments'],
         ['--reorder', '--comments'], ['--noblank_lines'],
         ['--update_comments', '--reorder'],
         ['--quoted_includes_first', '--reorder'],
         ['--separate_project_includes=<tld>']]


def generate(rng, index, tier):
    prog = P.generate_project(rng, {'headers': [1, 2, 3, 4, 6],
                                    'uses': [0, 1, 2, 4, 8],
                                    'dress': rng.random() < 0.6})
    flags = list(rng.choice(FLAGS))
    safe = rng.random() < 0.7
    if not safe:
        flags.append('--nosafe_headers')
    n = len(prog['tus'])
    sc = {'prog': prog, 'flags': flags, 'safe': safe, 'rounds': [],
          'pick': rng.randrange(1 << 20)}
    disturbed = 0
    if safe and rng.random() < 0.7:
        disturbed = rng.choice([1, 1, 2])
    for r in range(disturbed):
        d = {'plan': pipeline.gen_plan(rng, n, True), 'tool_kill': None,
             'fix_kill': None, 'power': None}
        x = rng.random()
        if x < 0.25:
            d['tool_kill'] = rng.randrange(5, rng.choice([30, 60, 120]))
        elif x < 0.7:
            d['fix_kill'] = rng.randrange(0, rng.choice([15, 40, 90]))
            if rng.random() < 0.4:
                d['power'] = rng.randrange(1 << 30)
        sc['rounds'].append(d)
    sc['calm'] = [pipeline.gen_plan(rng, n, False) for _ in range(ROUNDS)]
    sc['other'] = pipeline.gen_plan(rng, n, False)
    return sc


def kill(n):
    return None if n is None else {'op': 'any', 'n': n, 'action': 'kill'}


def execute(sc):
    out = frame.Outcome()
    pl = pipeline.Pipeline(sc, out)
    out.probes['safe' if sc['safe'] else 'unsafe'] += 1
    if len(sc['prog']['tus']) > 1:
        out.probes['several-units'] += 1
    if not pl.compiles(pl.start, 'before anything was done'):
        # A generator's mistake, not the pipeline's.
        raise RuntimeError('generated project does not compile: %s' %
                           out.violations)
    for r, d in enumerate(sc['rounds']):
        out.probes['disturbed'] += 1
        what = 'after disturbed round %d' % (r + 1)
        stream, status, results = pl.collect(d['plan'], kill(d['tool_kill']))
        if status == 'killed':
            out.probes['tool-killed'] += 1
        if any(x.code for x in results.values()):
            out.probes['analysis-failed'] += 1
        p, states = pl.edit(stream, kill(d['fix_kill']), d['power'])
        if p.status == 'killed':
            out.probes['fix-killed'] += 1
            if d['power'] is not None:
                out.probes['power-loss'] += 1
        if not look(sc, pl, states, out, 'in disturbed round %d' % (r + 1)) or \
                not pl.code_kept(pl.texts(), what) or \
                not pl.compiles(pl.texts(), what):
            return out
    for r, plan in enumerate(sc['calm'][:ROUNDS]):
        what = 'after round %d' % (r + 1)
        before = pl.texts_or_none()
        stream, status, results = pl.collect(plan)
        if out.violations or not judge(sc, pl, results, status, out, r):
            return out
        p, states = pl.edit(stream)
        after = pl.texts_or_none()
        m = re.search(rb'IWYU edited (\d+) files on your behalf',
                      bytes(p.out['stdout']))
        changed = sum(1 for n in before if before[n] != after.get(n))
        if not m or int(m.group(1)) != changed or p.status != 0:
            out.fail('count', 'fix_includes ended with status %s and says %s, '
                     'but changed %d files' % (p.status, m and m.group(0),
                                               changed))
            return out
        if r == 0 and not sc['rounds'] and changed and \
                not same(sc, pl, before, after, out):
            return out
        if not look(sc, pl, states, out, 'in round %d' % (r + 1)) or \
                not pl.code_kept(after, what) or not pl.compiles(after, what):
            return out
        if not changed:
            out.probes['converged'] += 1
            finished(sc, pl, results, out)
            break
        if r:
            out.probes['second-round-edits'] += 1
    else:
        out.fail('no-end', 'still editing after %d undisturbed rounds' % ROUNDS)
    end = pl.texts_or_none()
    out.nontrivial = end != pl.start
    if any(end[n] != pl.start[n] for n in end if not n.endswith('.cc')):
        out.probes['header-edited'] += 1
    return out


def look(sc, pl, states, out, what):
    """The project as others see it while it is being edited."""
    for t in states:
        out.states.add(repr(sorted(t.items())))
    if not sc['safe'] or not states:
        return not out.violations
    for k in range(2):
        t = states[(sc['pick'] * (k + 1)) % len(states)]
        out.probes['intermediate-state'] += 1
        if not pl.code_kept(t, what) or not pl.compiles(t, what):
            return False
    return not out.violations


def judge(sc, pl, results, status, out, r):
    """Are the reports those for the files as they are now?"""
    now = pl.texts()
    prog = P.adopt(sc['prog'], now)
    every = [f for t in prog['tus'] for f in (t['main'], t['assoc']) if f]
    for f in every + prog['files']:
        if f['odd']:
            out.fail('odd-line', '%s has %r before round %d' % (
                f['name'], f['odd'][0], r + 1))
            return False
        for field in ('incs', 'fwds'):
            names = [repr(x) for x in f[field]]
            if len(names) != len(set(names)):
                out.fail('duplicate', '%s has duplicate lines before round %d:'
                         ' %s' % (f['name'], r + 1, [
                             l for l in now[f['name']].split('\n')
                             if now[f['name']].split('\n').count(l) > 1 and
                             ('include' in l or l.endswith(';'))]))
                return False
    for k in range(len(sc['prog']['tus'])):
        sub = frame.Outcome()
        res = results.get(k)
        if res is None:
            out.fail('not-analysed', 'unit %d was not analysed' % k)
            return False
        C13.judge(P.view(prog, k), res.code, res.output.decode(
            errors='replace'), sub, now)
        if sub.violations:
            kind, msg = sub.violations[0]
            out.fail(kind, 'round %d: %s' % (r + 1, msg))
            return False
    if status != 0:
        out.fail('status', 'iwyu_tool ended with %s' % status)
        return False
    return True


def finished(sc, pl, results, out):
    """Nothing left to do: is everything as it should be?"""
    for k, t in enumerate(sc['prog']['tus']):
        rec, _ = P.parse(results[k].output.decode(errors='replace'))
        for name, g in sorted(rec.items()):
            if g is None:
                continue
            if not sc['safe'] or name.endswith('.cc') or g['adds']:
                out.fail('unfinished', 'nothing more is edited, but the report '
                         'on %s is %r' % (name, g))
                return
    out.probes['all-correct'] += 1


def same(sc, pl, before, after, out):
    """Another schedule and environment lead to the same files."""
    if '--reorder' not in sc['flags'] or any('comments' in f
                                             for f in sc['flags']):
        return True
    other = pipeline.Pipeline(sc, out)
    stream, _, _ = other.collect(sc['other'])
    other.edit(stream)
    got = other.texts_or_none()
    if got != after:
        name = [n for n in after if got.get(n) != after[n]][0]
        out.fail('schedule', '%s: another schedule leads to %r, not %r' % (
            name, got.get(name), after[name]))
        return False
    out.probes['same-result'] += 1
    return True


def shrink(sc):
    for i in range(len(sc['rounds'])):
        yield dict(sc, rounds=sc['rounds'][:i] + sc['rounds'][i + 1:])
    for i in range(len(sc['flags'])):
        if sc['flags'][i] != '--nosafe_headers':
            yield dict(sc, flags=sc['flags'][:i] + sc['flags'][i + 1:])
    for i, d in enumerate(sc['rounds']):
        def put(x):
            rounds = list(sc['rounds'])
            rounds[i] = x
            return dict(sc, rounds=rounds)
        for k in ('tool_kill', 'fix_kill', 'power'):
            if d[k] is not None:
                yield put(dict(d, **{k: None}))
        for k, kid in enumerate(d['plan']['kids']):
            if kid['fault']:
                kids = list(d['plan']['kids'])
                kids[k] = dict(kid, fault=None)
                yield put(dict(d, plan=dict(d['plan'], kids=kids)))
    for p in P.shrink_project(sc['prog']):
        n = len(p['tus'])
        if n != len(sc['prog']['tus']):
            gone = p.pop('gone')
            s = dict(sc, prog=p)

            def cut(plan):
                return dict(plan, kids=plan['kids'][:gone] +
                            plan['kids'][gone + 1:])
            s['rounds'] = [dict(d, plan=cut(d['plan'])) for d in sc['rounds']]
            s['calm'] = [cut(x) for x in sc['calm']]
            s['other'] = cut(sc['other'])
            yield s
        else:
            yield dict(sc, prog=p)
    plain = dict(A.PLAIN)
    for field in ('calm',):
        if any(kid['env'] != plain for pl in sc[field] for kid in pl['kids']):
            yield dict(sc, **{field: [dict(pl, jobs=1, kids=[
                dict(kid, env=plain) for kid in pl['kids']])
                for pl in sc[field]]})


def close():
    A.close()
