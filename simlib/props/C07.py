"""fix_includes: cut, stale, repeated and noisy reports do no damage."""
import itertools

from simlib import fixer, frame, tool
from simlib.props import C10

ID = 'C07'
LEVEL = 'exploration'
COUNTS = {'quick': 9000, 'thorough': 80000}
RULE = ('As C10, with the stream of reports cut within analyses (as when '
        'those are killed) and at its end, analyses repeated, noise between '
        'reports, invalid bytes, and line numbers from another version of a '
        'file. Non-trivial: the stream was damaged and a file was edited.')
STATES = 'distinct (kinds of damage, section cut, files edited) combinations'
REAL = C10.REAL
STUB = C10.STUB
ASSUMPTIONS = ['the analyser or iwyu_tool ends the output of each analysis '
               'with a newline',
               'the report after a cut one may be lost with it',
               'a stale report is one whose include lines moved']
PROBES = ['cut', 'cut-stream', 'repeated', 'noise', 'invalid-bytes', 'stale',
          'cut-in-add', 'cut-in-remove', 'cut-in-total', 'cut-between',
          'next-lost', 'edited-despite-damage', 'stale-refused']


def generate(rng, index, tier):
    sc = fixer.gen_common(rng, {'plain': True, 'n': [1, 2, 3, 4],
                                'units': [1, 2, 3, 4, 6]})
    sc['damage'] = []
    if index % 10 == 0:
        return sc
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['cut', 'cut', 'cut', 'stream', 'repeat', 'noise',
                        'stale', 'bytes'])
        u = rng.randrange(max(1, len(sc['units'])))
        d = {'kind': k, 'unit': u, 'at': round(rng.random(), 5)}
        if k == 'noise':
            d['text'] = rng.choice([
                'make: *** [all] Error 1\n', '---\n', 'fatal error: too many '
                'errors emitted\n', '#include <noise>\n', 'class Noise;\n',
                '- #include <x>  // lines 1-1\n', 'The full include-list\n',
                '(everything is fine)\n', '\x1b[0;1;31merror: \x1b[0m x\n',
                'x.cc:1:1: error: should add these lines\n', '\x0c\n\t\n'])
        if k == 'stale':
            d['by'] = rng.choice([-3, -2, -1, 1, 2, 3, 40])
        if k == 'bytes':
            d['data'] = rng.choice(['ff', 'c3', '80', 'e9e8'])
        sc['damage'].append(d)
    if any(d['kind'] in ('cut', 'stream') for d in sc['damage']):
        for d in sc['damage']:
            if d.get('text') == '---\n':      # would complete what was cut
                d['text'] = '-- -\n'
    return sc


def records(sc):
    """The stream as a list of pieces: [unit index, record or None, text]."""
    out = []
    for i, u in enumerate(sc['units']):
        out.append([i, None, ''.join(n + '\n' for n in u['noise'])])
        for r in u['records']:
            out.append([i, r, fixer.record_text(sc['files'], r,
                                                u.get('shift', 0))])
        out.append([i, None, '\n'])
    return out


def complete(text, kept):
    """Is a record whole when only kept characters of it are left?"""
    return kept >= len(text.rstrip('\n'))


def section(text, kept):
    t = text[:kept]
    if 'The full include-list' in t:
        return 'cut-in-total'
    if 'should remove' in t:
        return 'cut-in-remove'
    return 'cut-in-add'


def damage(sc, out):
    """Returns (stream, [(record, 'sure'|'maybe')])."""
    pieces = [p + ['whole'] for p in records(sc)]
    for d in sc['damage']:
        if d['kind'] == 'cut':
            mine = [n for n, p in enumerate(pieces) if p[0] == d['unit'] and
                    p[3] == 'whole']
            total = sum(len(pieces[n][2]) for n in mine)
            left = int(total * d['at'])
            touched = False
            for n in mine:
                text = pieces[n][2]
                if left >= len(text):
                    left -= len(text)
                    continue
                r = pieces[n][1]
                if r is None or left <= 0:
                    out.probes['cut-between'] += 1
                    pieces[n] = [d['unit'], r if left > 0 and r is None
                                 else None, text[:max(left, 0)], 'gone']
                elif complete(text, left):
                    pieces[n][2] = text[:left]
                else:
                    out.probes[section(text, left)] += 1
                    pieces[n] = [d['unit'], r, text[:left], 'cut']
                left = 0
                if not touched:                # whoever runs it ends the line
                    pieces[n][2] += '\n'
                touched = True
            if touched:
                out.probes['cut'] += 1
                out.faults['cut'] += 1
        elif d['kind'] == 'repeat':
            mine = [p for p in pieces if p[0] == d['unit']]
            if mine:
                pieces.extend([list(p) for p in mine])
                out.probes['repeated'] += 1
                out.faults['repeat'] += 1
        elif d['kind'] == 'noise' and pieces:
            ends = [n for n, p in enumerate(pieces)
                    if p[1] is None and p[2].endswith('\n')]
            if ends:
                n = ends[int(d['at'] * len(ends))]
                pieces[n] = pieces[n][:2] + [pieces[n][2] + d['text'],
                                             pieces[n][3]]
                out.probes['noise'] += 1
                out.faults['noise'] += 1
    data = [[p[1], p[2].encode(), p[3]] for p in pieces]
    for d in sc['damage']:
        if d['kind'] == 'stream' and data:
            total = sum(len(p[1]) for p in data)
            left = int(total * d['at'])
            for p in data:
                if left >= len(p[1]):
                    left -= len(p[1])
                    continue
                text = p[1].decode(errors='ignore')
                if p[0] is not None and p[2] == 'whole':
                    if not complete(text, len(p[1][:max(left, 0)].decode(
                            errors='ignore'))):
                        p[2] = 'cut'
                p[1] = p[1][:max(left, 0)]
                left = -1
            out.probes['cut-stream'] += 1
            out.faults['cut-stream'] += 1
    for d in sc['damage']:
        if d['kind'] == 'bytes' and data:
            n = int(d['at'] * len(data))
            p = data[n]
            pos = int(d['at'] * 7919) % (len(p[1]) + 1)
            p[1] = p[1][:pos] + bytes.fromhex(d['data']) + p[1][pos:]
            out.probes['invalid-bytes'] += 1
            out.faults['invalid-bytes'] += 1
    result = []
    after_cut = False
    for r, text, state in data:
        if r is None:
            continue
        if state == 'whole' and text.strip():
            result.append((r, 'maybe' if after_cut else 'sure'))
            after_cut = False
        elif state == 'cut' and text.strip():
            after_cut = True
    return b''.join(p[1] for p in data), result


def execute(sc):
    out = frame.Outcome()
    out.nontrivial = False
    stale = {}
    sc = dict(sc, units=[dict(u) for u in sc['units']])
    for d in sc['damage']:
        if d['kind'] == 'stale' and d['unit'] < len(sc['units']):
            u = sc['units'][d['unit']]
            # (declarations are trusted where the report says they are)
            u['records'] = [dict(r, numbered=True) for r in u['records']
                            if not any(l['k'] == 'fwd' for l in fixer.lines_of(
                                sc['files'][r['file']]))]
            u['shift'] = d['by']
            out.faults['stale'] += 1
            out.probes['stale'] += 1
            for r in u['records']:
                if not r['correct']:
                    stale[r['file']] = True
    text, recs = damage(sc, out)
    run = fixer.Run(sc, [text])
    run.add_to(out)
    try:
        text.decode()
    except UnicodeDecodeError:
        # Refusing all of it is as good as understanding it, if it says so.
        if run.status != 0:
            out.probes['refused-bytes'] += 1
            for i, f in enumerate(sc['files']):
                p = fixer.real_path(sc, i)
                if run.before[p] != run.after.get(p):
                    out.fail('half-applied', 'refused the reports, but %s was '
                             'edited' % f['name'])
            return out
    if not fixer.sane(run, out):
        return out
    maybe = [n for n, (r, s) in enumerate(recs) if s == 'maybe']
    options = list(itertools.product([True, False], repeat=len(maybe)))[:32]
    results = []
    for keep in options:
        left = [r for n, (r, s) in enumerate(recs)
                if s == 'sure' or keep[maybe.index(n)]]
        units = [{'records': [r], 'noise': []} for r in left]
        shifts = {id(r): u.get('shift', 0) for u in sc['units']
                  for r in u['records']}
        for u in units:
            u['shift'] = shifts.get(id(u['records'][0]), 0)
        ref = fixer.Run(sc, [fixer.stream(sc, units)])
        out.runs += 1
        if not fixer.sane(ref, out):
            return out
        results.append(ref.after)
        if ref.after == run.after:
            if not all(keep):
                out.probes['next-lost'] += 1
            break
    else:
        diff = [sc['files'][i]['name'] for i in range(len(sc['files']))
                if all(run.after.get(fixer.real_path(sc, i)) !=
                       r.get(fixer.real_path(sc, i)) for r in results)]
        out.fail('damage-acted-on', 'the damaged stream left files %s in a '
                 'state that no set of its complete reports explains' % diff)
        return out
    edited = [p for p in run.before if run.before[p] != run.after.get(p)]
    if sc['damage'] and edited:
        out.nontrivial = True
        out.probes['edited-despite-damage'] += 1
    out.states.add('%s %d %s' % (sorted(out.faults), len(edited),
                                 sorted(k for k in out.probes
                                        if k.startswith('cut'))))
    for i in stale:
        path = fixer.real_path(sc, i)
        old, new = run.before[path], run.after[path]
        if old == new:
            out.probes['stale-refused'] += 1
            continue
        f = sc['files'][i]
        got = new.replace(b'\xef\xbb\xbf', b'').split(b'\n')
        for n, l in enumerate(fixer.lines_of(f)):
            if l['k'] == 'code' and fixer.encode(f, l['x']).rstrip() not in \
                    [g.rstrip() for g in got]:
                out.fail('stale-code-lost', '%s: code line %r was deleted on '
                         'the word of a stale report' % (f['name'], l['x']))
                return out
    others(sc, run, out)
    return out


def others(sc, run, out):
    C10.others(sc, run, out)


def shrink(sc):
    for i in range(len(sc['damage'])):
        yield dict(sc, damage=sc['damage'][:i] + sc['damage'][i + 1:])
    for s in fixer.shrink(sc):
        yield s
