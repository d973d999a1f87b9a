"""iwyu_tool: failures of single analyses stay confined and are reported."""
from simlib import frame, tool
from simlib.props import C01

ID = 'C04'
LEVEL = 'exploration'
COUNTS = {'quick': 4000, 'thorough': 60000}
RULE = ('As C01, with faults: children killed at a byte of their output, '
        'output with invalid bytes, empty output, output whose removal lines '
        'lack line numbers, spawn errors, missing working directories, '
        'failing temporary files, damaged databases. Non-trivial: a fault '
        'fired while other analyses ran or remained.')
STATES = C01.STATES
REAL = C01.REAL
STUB = C01.STUB
ASSUMPTIONS = C01.ASSUMPTIONS + [
    'what is printed for a damaged report is only checked line by line, and '
    'only in the iwyu format']
PROBES = ['fault-free', 'killed', 'invalid-bytes', 'spawn-failed', 'no-dir',
          'tempfile-failed', 'bad-database', 'others-running-when-failed',
          'clang-format-damaged', 'all-failed']


def generate(rng, index, tier):
    sc = tool.gen_common(rng, {'load': 0.15})
    if index % 8 == 0:
        return sc                     # fault free
    if rng.random() < 0.08:
        sc['db'] = rng.choice(['truncated', 'empty', 'garbage', 'binary',
                               'missing', 'unreadable'])
        return sc
    kinds = rng.sample(['kill', 'bytes', 'empty', 'noline', 'spawn', 'nodir'],
                       rng.randrange(1, 5))
    rate = rng.choice([0.1, 0.3, 0.6, 1.0])
    for e in sc['entries']:
        if rng.random() > rate:
            continue
        k = rng.choice(kinds)
        if k == 'kill':
            e['fault'] = {'kind': k, 'at': round(rng.random(), 4),
                          'signal': rng.choice([6, 9, 11, 15])}
        elif k == 'bytes':
            e['fault'] = {'kind': k, 'at': round(rng.random(), 4),
                          'data': rng.choice(['ff', 'c3', '00', 'e9e8', '80',
                                              'f0289f', '0d', 'fffe41',
                                              'eda080'])}
        elif k == 'spawn':
            e['fault'] = {'kind': k, 'err': rng.choice(
                ['ENOENT', 'EAGAIN', 'ENOMEM', 'EACCES', 'EMFILE', 'E2BIG'])}
        elif k == 'empty':
            e['fault'] = {'kind': k}
        elif k == 'noline':
            if any(r.get('removes') for r in e['records']):
                e['fault'] = {'kind': k}
        elif k == 'nodir':
            # (a selection by directory would look for the file elsewhere)
            if not sc['sources']:
                e['fault'] = {'kind': k}
    if rng.random() < 0.15:
        sc['faults'] = [{'op': 'open', 'path': '/sim/tmp',
                         'n': rng.randrange(0, 6), 'count': 2,
                         'err': rng.choice(['ENOSPC', 'EMFILE', 'EROFS'])}]
    return sc


def execute(sc):
    out = frame.Outcome()
    run = tool.Run(sc)
    run.outcome(out)
    C01.probes(run, out)
    out.probes.clear()
    out.nontrivial = False
    if sc['db'] != 'ok':
        out.probes['bad-database'] += 1
        out.faults['database:' + sc['db']] += 1
        out.nontrivial = True
        if run.status == 'hung':
            tool.check_sane(run, out)
        elif run.status == 0:
            out.fail('failure-hidden', 'exit status 0 although the compilation '
                     'database is %s' % sc['db'])
        elif run.children.history:
            out.fail('bad-database', 'analyses were started from a damaged '
                     'database (%s)' % sc['db'])
        elif run.p.error:
            out.fail('crash', 'a database that is %s ends iwyu_tool with %s' %
                     (sc['db'], run.p.error.strip().splitlines()[-1]))
        return out
    if not tool.check_sane(run, out):
        return out
    # Which analyses were touched by a fault.
    faulty = {}
    for i, _, _ in run.want:
        f = sc['entries'][i]['fault']
        if f:
            faulty[i] = f['kind']
    failed_temp = sum(f.fired for f in run.k.faults)
    if failed_temp:
        out.probes['tempfile-failed'] += 1
    started = {c.index for h, c in run.children.history if h == 'start'}
    attempted = started | {c.index for h, c in run.children.history
                           if h == 'spawn-failed'}
    lost = [i for i, _, _ in run.want if i not in attempted]
    if len(lost) > failed_temp:
        out.fail('analysis-lost', '%d analyses were never attempted: %s' %
                 (len(lost), [sc['entries'][i]['file'] for i in lost][:3]))
        return out
    counts = {}
    for h, c in run.children.history:
        if h in ('start', 'spawn-failed'):
            counts[c.index] = counts.get(c.index, 0) + 1
    again = [i for i, n in counts.items() if n > 1]
    if again:
        out.fail('wrong-commands', 'analysis repeated: %s' % again)
        return out
    for i in lost:
        faulty.setdefault(i, 'tempfile')
    for i, k in faulty.items():
        out.faults['child:' + k] += 1
    names = {'kill': 'killed', 'bytes': 'invalid-bytes',
             'spawn': 'spawn-failed', 'nodir': 'no-dir'}
    for k in faulty.values():
        if k in names:
            out.probes[names[k]] += 1
    if not faulty:
        out.probes['fault-free'] += 1
    elif len(faulty) < len(run.want):
        out.nontrivial = True
        if run.children.max_running > 1:
            out.probes['others-running-when-failed'] += 1
    else:
        out.probes['all-failed'] += 1
    if faulty and sc['format'] not in (None, 'iwyu'):
        out.probes['clang-format-damaged'] += 1
    # Healthy analyses: printed once, whole.
    tool.check_blocks(run, out, faulty)
    if out.violations:
        kind, msg = out.violations[0]
        out.violations[0] = ('others-lost' if faulty else kind,
                             msg + ' (faults: %s)' % faulty)
        return out
    # What a damaged child said is passed on as far as it is text.
    if sc['format'] in (None, 'iwyu'):
        for i, kind in faulty.items():
            if i not in started:
                continue
            data, _ = tool.output_of(sc['entries'][i])
            for line in data.split(b'\n'):
                try:
                    line.decode()
                except UnicodeDecodeError:
                    continue
                if line not in run.stdout:
                    out.fail('output-lost', 'line %r of the output of %s is '
                             'not printed' % (line[:80],
                                              sc['entries'][i]['file']))
                    return out
    codes = [c.code for h, c in run.children.history if h == 'exit']
    worst = tool.worst(codes)
    unstarted = len(run.want) - len(started)
    if worst < 0:
        ok = run.status == worst & 0xff
    elif unstarted:
        ok = run.status not in (0, 'killed') and run.status >= worst & 0xff
    else:
        ok = run.status == worst & 0xff
    if not ok:
        out.fail('failure-hidden', 'exit status %s although analyses ended '
                 'with %s and %d could not be started' %
                 (run.status, codes, unstarted))
    return out


shrink = tool.shrink
