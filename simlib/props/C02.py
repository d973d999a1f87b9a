"""iwyu_tool: job and load limits hold, free slots are used, it finishes."""
from simlib import frame, tool
from simlib.props import C01

ID = 'C02'
LEVEL = 'exploration'
COUNTS = {'quick': 4000, 'thorough': 60000}
RULE = C01.RULE
STATES = C01.STATES
REAL = C01.REAL
STUB = C01.STUB
ASSUMPTIONS = ['a sleep lasts at least as long as asked, and may last until '
               'the next event', 'no load-limit claim for one job, where the '
               'option has no effect']
PROBES = ['at-limit', 'held-by-load', 'forced-by-idle', 'refilled',
          'stalled-child']


def generate(rng, index, tier):
    sc = tool.gen_common(rng, {'load': 0.5, 'jobs': [2, 2, 3, 4, 5, 8, 0,
                                                      'flag', 1, None]})
    for e in sc['entries']:
        if rng.random() < 0.1:
            e['end'] = round(rng.random() * 100000, 3)      # stalled
        elif rng.random() < 0.1:
            e['end'] = 0.0
    return sc


def execute(sc):
    out = frame.Outcome()
    run = tool.Run(sc)
    run.outcome(out)
    C01.probes(run, out)
    out.probes.clear()
    if not tool.check_sane(run, out):
        return out
    kids = run.children
    if kids.max_running > run.jobs:
        out.fail('too-many-jobs', '%d analyses ran at once with a limit of %d'
                 % (kids.max_running, run.jobs))
    if run.jobs > 1:
        if kids.max_running == run.jobs:
            out.probes['at-limit'] += 1
        limits(run, out)
    if any(c.end - c.start > 1000 for c in kids.started):
        out.probes['stalled-child'] += 1
    return out


def limits(run, out):
    sc = run.sc
    t0 = 1000.0
    if sc['load'] is not None:
        batch_time, batch = None, 0
        for now, before, load, child, step in run.starts:
            head = sc['load'] - load
            if batch_time != now:
                batch_time, batch = now, 0
                room = head
            if before > 0 and batch == 0 and head <= 0:
                out.fail('load-exceeded', 'an analysis was started at load %s '
                         '(limit %s) with %d running' % (load, sc['load'],
                                                         before))
                return
            batch += 1
            if batch > max(1, int(max(0, room))):
                out.fail('load-exceeded', '%d analyses were started together '
                         'at load %s, limit %s' % (batch, load, sc['load']))
                return
            if before == 0 and head < 1:
                out.probes['forced-by-idle'] += 1
        if run.children.max_running < run.jobs:
            out.probes['held-by-load'] += 1
    # A free slot is used within a simulated second (and, under a load limit,
    # some analysis is always running until all have run).
    want = run.jobs if sc['load'] is None else 1
    kids = sorted(run.children.started, key=lambda c: c.start)
    n = len(run.want)
    times = sorted(set([t0] + [c.start for c in kids] + [c.end for c in kids]))
    for a in times:
        running = sum(1 for c in kids if c.start <= a < c.end)
        started = sum(1 for c in kids if c.start <= a)
        if running < want and started < n:
            later = [c.start for c in kids if c.start > a]
            gone = [c.end for c in kids if a < c.end]
            if not later or min(later) > a + 1.0:
                out.fail('slot-idle', '%d analyses running, %d waiting, limit '
                         '%d, yet none was started for %.1f simulated seconds '
                         'after %.6f' % (running, n - started, want, (min(
                             later) if later else float('inf')) - a, a - t0))
                return
            out.probes['refilled'] += 1


shrink = tool.shrink
