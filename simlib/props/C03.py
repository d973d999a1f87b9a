"""iwyu_tool: the outcome does not depend on schedule or number of jobs."""
import copy
import random

from simlib import frame, tool
from simlib.props import C01

ID = 'C03'
LEVEL = 'exploration'
COUNTS = {'quick': 2000, 'thorough': 30000}
RULE = ('A scenario is a compilation database with children of fixed output '
        'and exit code (some killed by signals), executed under 4 schedules: '
        'serially, and with generated job counts, load limits and timings. '
        'Non-trivial: at least two commands.')
STATES = C01.STATES
REAL = C01.REAL
STUB = C01.STUB
ASSUMPTIONS = C01.ASSUMPTIONS
PROBES = ['different-order', 'signal', 'signal-and-code', 'all-succeed',
          'worst-not-last']


def generate(rng, index, tier):
    sc = tool.gen_common(rng, {})
    style = rng.random()
    for e in sc['entries']:
        if style < 0.3:
            if rng.random() < 0.3:
                e['code'] = -rng.choice([1, 6, 9, 11, 15])
        elif style < 0.45:
            e['code'] = 0
        elif style < 0.6:
            e['code'] = -rng.choice([6, 9, 11])
    sc['variants'] = []
    for _ in range(3):
        v = {}
        gen = copy.deepcopy(sc)
        tool.gen_schedule(rng, gen, {'jobs': [2, 3, 4, 8, 20, 0]})
        for f in ('jobs', 'load', 'loads'):
            v[f] = gen[f]
        v['timing'] = []
        for e in gen['entries']:
            tool.gen_timing(rng, e)
            v['timing'].append([e['end'], e['cuts'], e['when']])
        sc['variants'].append(v)
    return sc


def variants(sc):
    yield dict(sc, jobs=1, load=None)
    for v in sc['variants']:
        s = dict(sc, jobs=v['jobs'], load=v['load'], loads=v['loads'])
        s['entries'] = [dict(e, end=t[0], cuts=t[1], when=t[2])
                        for e, t in zip(sc['entries'], v['timing'])]
        yield s


def execute(sc):
    out = frame.Outcome()
    out.runs = 0
    seen = []
    for s in variants(sc):
        run = tool.Run(s)
        run.outcome(out)
        out.runs += 1
        if not tool.check_sane(run, out):
            return out
        codes = [sc['entries'][i]['code'] for i, _, _ in run.want]
        want = tool.worst(codes) & 0xff
        if run.status != want:
            out.fail('exit-status', 'exit status %s with %s jobs for analyses '
                     'that ended with %s: the worst is %s' %
                     (run.status, s['jobs'], codes, tool.worst(codes)))
            return out
        got = sorted((c.argv, c.cwd) for h, c in run.children.history
                     if h == 'start')
        if seen and seen[0] != got:
            out.fail('schedule-dependent', 'with %s jobs other commands run '
                     'than serially' % s['jobs'])
            return out
        seen.append(got)
        tool.check_blocks(run, out)
        if out.violations:
            kind, msg = out.violations[0]
            out.violations[0] = ('schedule-dependent', 'with %s jobs: %s'
                                 % (s['jobs'], msg))
            return out
        ends = [c.index for h, c in run.children.history if h == 'exit']
        if ends != [i for i, _, _ in run.want]:
            out.probes['different-order'] += 1
        if ends and sc['entries'][ends[-1]]['code'] != tool.worst(codes):
            out.probes['worst-not-last'] += 1
        if any(c < 0 for c in codes):
            out.probes['signal'] += 1
            if any(c > 0 for c in codes):
                out.probes['signal-and-code'] += 1
        if codes and not any(codes):
            out.probes['all-succeed'] += 1
    out.nontrivial = len(run.want) > 1
    out.sample = {'argv': run.p.argv, 'codes': codes,
                  'history': run.interleaving()[:200], 'status': run.status}
    return out


def shrink(sc):
    for s in tool.shrink(dict(sc)):
        if len(s['entries']) != len(sc['entries']):
            keep = [i for i, e in enumerate(sc['entries'])
                    if e in s['entries']]
            s['variants'] = [dict(v, timing=[v['timing'][i] for i in keep])
                             for v in sc['variants']]
        yield s
    for i in range(len(sc['variants'])):
        yield dict(sc, variants=sc['variants'][:i] + sc['variants'][i + 1:])
