"""fix_includes: one file that cannot be edited does not affect the others."""
import re

from simlib import fixer, frame
from simlib.props import C10

ID = 'C06'
LEVEL = 'exploration'
COUNTS = {'quick': 9000, 'thorough': 60000}
RULE = ('As C10 with several files, of which some are missing, unreadable, '
        'read-only, not decodable or unlike their report, and with failing system calls. '
        'Non-trivial: a fault fired or a file was unusable while another one '
        'had to be edited.')
STATES = 'distinct (fault, call hit, outcome) combinations'
REAL = C10.REAL
STUB = C10.STUB
ASSUMPTIONS = ['a failing call has no effect except that a write may be short',
               'lstat does not fail for a file that can be opened',
               'a failing unlink of a temporary file may leave it behind']
PROBES = ['missing', 'unreadable', 'read-only', 'not-decodable', 'not-encodable',
          'write-failed', 'rename-failed', 'disk-full', 'short-write',
          'short-read',
          'stale', 'survived', 'all-edited', 'stdout-broken']


def generate(rng, index, tier):
    sc = fixer.gen_common(rng, {'plain': True, 'n': [2, 3, 4, 6],
                                'correct': 0.05})
    if index % 10 == 0:
        return sc
    for f in sc['files']:
        r = rng.random()
        if r < 0.08:
            f['missing'] = True
        elif r < 0.14:
            f['mode'] = 0o000
        elif r < 0.22:
            f['mode'] = 0o444
        elif r < 0.28 and f['enc'] == 'ascii':
            f['enc'] = 'raw'
            f['groups'].append([{'x': 'int undecodable; // \x81\x83\x88\x8d '
                                 '\x90\x98', 'k': 'code', 'id': 0,
                                 'e': '\n'}])
        elif r < 0.45 and r > 0.36:
            recs = [rec for u in sc['units'] for rec in u['records']
                    if sc['files'][rec['file']] is f and not rec['correct']]
            if recs:
                rng.choice(recs)['stale'] = rng.choice(['end', 'next', 'code'])
        elif r < 0.33:
            for u in sc['units']:
                for rec in u['records']:
                    if sc['files'][rec['file']] is f and not rec['correct']:
                        rec['adds'].append({'h': '"\u65e5/\u672c.h"',
                                            'why': None})
    if rng.random() < 0.7:
        for _ in range(rng.choice([1, 1, 2])):
            op = rng.choice(['write', 'write', 'fsync', 'rename', 'open',
                             'open', 'read', 'chmod', 'close', 'unlink',
                             'stdout'])
            sc['faults'].append({
                'op': op, 'n': rng.randrange(0, 14 if op in (
                    'open', 'read', 'close') else 5),
                'count': rng.choice([1, 1, 1, 2, 3, 1000]),
                'err': rng.choice({
                    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EFBIG'],
                    'fsync': ['EIO', 'ENOSPC'], 'rename': ['EIO', 'EACCES',
                                                           'ENOSPC'],
                    'open': ['EMFILE', 'EACCES', 'ENOSPC', 'EIO', 'EROFS'],
                    'read': ['EIO', 'ESTALE'], 'chmod': ['EPERM', 'EROFS'],
                    'close': ['EIO'],
                    'unlink': ['EIO', 'EROFS'],
                    'stdout': ['ENOSPC', 'EPIPE', 'EIO']}[op])})
        if rng.random() < 0.15:
            sc['faults'].append({'op': 'write', 'n': rng.randrange(4),
                                 'count': 2, 'short': rng.choice([1, 5, 99])})
        if rng.random() < 0.15:
            sc['faults'].append({'op': 'read', 'n': rng.randrange(10),
                                 'count': rng.choice([1, 3, 1000]),
                                 'short': rng.choice([1, 5, 99])})
    return sc


def execute(sc):
    out = frame.Outcome()
    out.nontrivial = False
    # The same without anything failing.
    stale = {r['file'] for u in sc['units'] for r in u['records']
             if r.get('stale')}
    healthy = dict(sc, faults=[], files=[dict(f, mode=0o644)
                                         for f in sc['files']],
                   units=[dict(u, records=[r for r in u['records']
                                           if r['file'] not in stale])
                          for u in sc['units']])
    good = fixer.Run(healthy)
    out.runs += 1
    if not fixer.sane(good, out):
        return out
    run = fixer.Run(sc)
    run.add_to(out)
    if run.status == 'hung':
        fixer.sane(run, out)
        return out
    fired = sum(f.fired for f in run.k.faults if f.err)
    broken_out = sum(f.fired for f in run.k.faults if f.op == 'stdout')
    broken_unlink = sum(f.fired for f in run.k.faults if f.op == 'unlink')
    for f in run.k.faults:
        if f.fired and f.short:
            out.probes['short-' + f.op] += 1
    mentioned = {r['file'] for u in sc['units'] for r in u['records']}
    unusable, undone, edited = {}, [], 0
    maybe = set()              # may count as failures: mentioned, unusable
    for i, f in enumerate(sc['files']):
        p = fixer.real_path(sc, i)
        old, new, want = (run.before.get(p), run.after.get(p),
                          good.after.get(p))
        why = None
        if f.get('missing'):
            why = 'missing'
        elif old is not None and not C10.decodable(old):
            why = 'not-decodable'
        elif not f['mode'] & 0o400:
            why = 'unreadable'
        elif not f['mode'] & 0o200:
            why = 'read-only'
        elif any('\u65e5' in a.get('h', '') for u in sc['units']
                 for r in u['records'] if r['file'] == i and not r['correct']
                 for a in r['adds']) and want == old:
            why = 'not-encodable'
        needs = want != old
        if why and i in mentioned and (fixer.lines_of(f) or why in (
                'missing', 'unreadable')):
            maybe.add(i)
            if needs or why in ('missing', 'unreadable', 'not-decodable',
                                'not-encodable') and asks(sc, i):
                unusable[i] = why
        if new != old and new != want:
            out.fail('damaged', '%s is neither as before nor as without '
                     'faults' % f['name'])
            return out
        if i in stale:
            out.probes['stale'] += 1
            if new != old:
                out.fail('stale-edited', '%s was edited although its report '
                         'does not match it' % f['name'])
                return out
        if why and new != old:
            out.fail('unusable-edited', '%s is %s, yet it was edited' %
                     (f['name'], why))
            return out
        if new != old:
            edited += 1
        elif needs and not why:
            undone.append(f['name'])
        if old is not None and run.fs.node(p).mode != f['mode']:
            out.fail('mode', 'permissions of %s went from %o to %o' %
                     (f['name'], f['mode'], run.fs.node(p).mode))
            return out
    for w in unusable.values():
        out.probes[w] += 1
        out.faults['file:' + w] += 1
    if fired or unusable or stale:
        out.nontrivial = any(good.after.get(p) != d
                             for p, d in run.before.items())
    for f in run.k.faults:
        if f.fired and f.err:
            out.states.add('%s %s %d %s %s' % (f.op, f.err, f.fired,
                                               len(undone), run.status))
            if f.op in ('write', 'rename'):
                out.probes[f.op + '-failed'] += 1
            if f.fired > 5:
                out.probes['disk-full'] += 1
    if broken_out:
        # Nowhere to report to: it may stop, with a nonzero exit status.
        out.probes['stdout-broken'] += 1
        if run.status == 0 and undone:
            out.fail('failure-hidden', 'exit status 0 although %s was not '
                     'edited' % undone)
        return out
    if run.p.error:
        out.fail('crash', 'a failing call ends fix_includes with %s' %
                 run.p.error.strip().splitlines()[-1])
        return out
    if len(undone) > fired:
        out.fail('others-lost', '%s not edited although only %d calls failed '
                 '(and %s)' % (undone, fired, sorted(unusable.values())))
        return out
    if (undone or unusable) and run.status == 0:
        out.fail('failure-hidden', 'exit status 0 although not edited: %s, %s'
                 % (undone, {sc['files'][i]['name']: w
                             for i, w in unusable.items()}))
        return out
    if not fired and not maybe and run.status != 0:
        out.fail('false-failure', 'exit status %s although nothing failed' %
                 run.status)
        return out
    m = re.search(rb'IWYU edited (\d+) files', run.stdout)
    if not m or int(m.group(1)) != edited:
        out.fail('miscounted', 'said %r, but %d files were edited' % (
            m and m.group(0).decode(), edited))
        return out
    if not broken_unlink:
        C10.others(sc, run, out)
    if undone and edited:
        out.probes['survived'] += 1
    if not undone:
        out.probes['all-edited'] += 1
    return out


def asks(sc, i):
    rs = [r for u in sc['units'] for r in u['records'] if r['file'] == i]
    return any(not r['correct'] and r['adds'] for r in rs)


shrink = fixer.shrink
