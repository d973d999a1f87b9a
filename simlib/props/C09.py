"""fix_includes: only the selected files are edited, none in a dry run."""
import re

from simlib import fixer, frame
from simlib.props import C10

ID = 'C09'
LEVEL = 'exploration'
COUNTS = {'quick': 12000, 'thorough': 80000}
RULE = ('As C10, run several times from the same start: without restriction; '
        'restricted by a list of files, --only_re or --ignore_re or two '
        'of these; with '
        '--dry_run (also beside an instance that edits, killed, or with '
        'failing calls); and with --sort_only. Non-trivial: the unrestricted '
        'run edits something.')
STATES = 'distinct (kind of run, what it left alone, edited) combinations'
REAL = C10.REAL
STUB = C10.STUB
ASSUMPTIONS = C10.ASSUMPTIONS + [
    'sorting again changes nothing: no file with mixed line endings or with '
    'several #includes that may be of its associated header']
PROBES = ['dry-run', 'diff-checked', 'dry-beside-edit', 'dry-killed', 'list',
          'only', 'ignore', 'list-only', 'list-ignore', 'only-ignore',
          'sort', 'sorted-changed', 'left-alone',
          'selected-edited', 'other-spelling']


def generate(rng, index, tier):
    mode = rng.choice(['dry', 'dry', 'dry2', 'dryfault', 'list', 'list',
                       'only', 'ignore', 'list-only', 'list-ignore',
                       'only-ignore', 'sort', 'sort'])
    cfg = {'n': [1, 2, 3, 4, 6] if mode != 'sort' else [1, 2, 3]}
    if 'only' in mode or 'ignore' in mode:
        cfg['plain'] = True
    sc = fixer.gen_common(rng, cfg)
    sc['mode'] = mode
    n = len(sc['files'])
    sc['pick'] = sorted(rng.sample(range(n), rng.randrange(0 if mode == 'sort'
                                                           else 1, n + 1)))
    sc['pick2'] = sorted(rng.sample(range(n), rng.randrange(1, n + 1)))
    sc['loose'] = rng.random() < 0.4
    sc['how'] = rng.choice(['abs', 'abs', 'rel', 'dot', 'up'])
    sc['schedule'] = [rng.randrange(2) for _ in range(rng.choice([5, 40]))]
    if mode == 'dryfault':
        sc['faults'] = [rng.choice([
            {'op': rng.choice(['open', 'read', 'stdout', 'close']),
             'n': rng.randrange(20), 'count': rng.choice([1, 3]),
             'err': rng.choice(['EIO', 'EMFILE', 'ENOSPC'])},
            {'op': 'any', 'n': rng.randrange(60), 'action': 'kill'}])]
    return sc


def spelled(sc, i):
    name = sc['files'][i]['name']
    return {'abs': fixer.PROJ + '/' + name, 'rel': name, 'dot': './' + name,
            'up': fixer.PROJ + '/lib/../' + name}[sc['how']]


def regex(sc, pick):
    names = sorted(re.escape(fixer.PROJ + '/' + sc['files'][i]['name'])
                   for i in pick)
    if sc.get('loose'):
        # Found anywhere in the name.
        return '|'.join(r'/f%d\.' % i for i in sorted(pick))
    return '^(%s)$' % '|'.join(names)


def parse_diff(text):
    """{file name: [diff lines]} in order of appearance."""
    out = []
    for line in text.split('\n'):
        m = re.match(r">>> Fixing #includes in '(.*)'$", line)
        if m:
            out.append((m.group(1), []))
        elif out and not line.startswith(('IWYU edited', 'No changes in')):
            out[-1][1].append(line)
    return out


def patch(old, diff):
    """Applies a diff to right-stripped lines."""
    hunks = []
    for line in diff:
        m = re.match(r'@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@', line)
        if m:
            a = int(m.group(1))
            n = int(m.group(2)) if m.group(2) is not None else 1
            k = int(m.group(4)) if m.group(4) is not None else 1
            hunks.append([a - 1 if n else a, n, k, []])
        elif hunks:
            hunks[-1][3].append(line)
    new, at = [], 0
    for a, n, k, lines in hunks:
        new += old[at:a]
        at = a
        for line in lines:
            if n == 0 and k == 0:
                break
            tag, rest = line[:1], line[1:]
            if tag in ('', ' ', '-'):
                if at >= len(old) or old[at] != rest:
                    return None
                at += 1
                n -= 1
            if tag in ('', ' ', '+'):
                new.append(rest)
                k -= 1
        if n or k:
            return None
    return new + old[at:]


def encoding(data):
    for enc in ('utf-8-sig', 'cp1250', 'cp1252'):
        try:
            data.decode(enc)
            return enc
        except UnicodeDecodeError:
            pass


def bare(data, enc):
    text = data.decode(enc)
    out = [l.rstrip() for l in text.split('\n')]
    if out and out[-1] == '':
        out.pop()
    return out


def execute(sc):
    out = frame.Outcome()
    out.nontrivial = False
    clean = dict(sc, faults=[])
    full = fixer.Run(clean)
    full.add_to(out)
    if not fixer.sane(full, out):
        return out
    edited = [i for i in range(len(sc['files']))
              if full.before[fixer.real_path(sc, i)] !=
              full.after[fixer.real_path(sc, i)]]
    out.nontrivial = bool(edited)
    mode = sc['mode']
    out.runs += 1
    if mode.startswith('dry'):
        dry(sc, full, edited, out)
    elif mode == 'sort':
        sort(sc, clean, out)
    else:
        restricted(sc, clean, full, edited, out)
    return out


def dry(sc, full, edited, out):
    out.probes['dry-run'] += 1
    clean = dict(sc, faults=[])
    mode = sc['mode']
    argv = fixer.argv_of(sc, ['--dry_run'])
    if mode == 'dry2':
        s = fixer.stream(sc)
        run = fixer.Run(clean, streams=[s, s],
                        argvs=[argv, fixer.argv_of(sc)],
                        schedule=sc['schedule'])
        out.probes['dry-beside-edit'] += 1
    else:
        run = fixer.Run(sc if mode == 'dryfault' else clean, argvs=[argv])
    run.add_to(out)
    p = run.p
    killed = p.status not in (0, 1)
    if killed:
        out.probes['dry-killed'] += 1
    if run.status == 'hung' or mode != 'dryfault' and not fixer.sane(run, out):
        fixer.sane(run, out)
        return
    want = full.after if mode == 'dry2' else run.before
    if run.after != want:
        diff = sorted(set(run.after.items()) ^ set(want.items()))
        out.fail('dry-run-writes', 'a dry run changed %s' % diff[0][0])
        return
    out.states.add('%s %s %s' % (mode, run.status, len(edited)))
    if mode == 'dryfault':
        return
    # What it printed are the changes of the real run.
    seen = set()
    for name, diff in parse_diff(run.stdout.decode('utf-8', 'replace')):
        node = run.fs.lookup(name if name.startswith('/')
                             else fixer.PROJ + '/' + name)[2]
        i = [i for i in range(len(sc['files'])) if node is not None and
             run.fs.lookup(fixer.real_path(sc, i))[2] is node]
        if not i:
            out.fail('stray-diff', 'a diff for %r' % name)
            return
        seen.add(i[0])
        real = fixer.real_path(sc, i[0])
        old, new = full.before[real], full.after[real]
        states = [(old, new)]
        if mode == 'dry2':
            states += [(new, new)]
        enc = encoding(old)          # a file keeps its encoding
        got = [patch(bare(a, enc), diff) for a, b in states]
        if mode == 'dry2' and not any(d.startswith('@@') for d in diff):
            continue                       # already edited by the other one
        if not any(g == bare(b, enc) for g, (a, b) in zip(got, states)):
            if '\x0c' in old.decode(enc) or '\r' in old.decode(
                    enc).replace('\r\n', ''):
                continue
            if mode == 'dry2' and new != old:
                # It may have found the new content: then what it prints is
                # an edit of that.
                g = patch(bare(new, enc), diff)
                if g is not None:
                    continue
            out.fail('wrong-diff', 'the dry run shows another change of %s '
                     'than the real run makes: %r' % (
                         sc['files'][i[0]]['name'], diff[:12]))
            return
        out.probes['diff-checked'] += 1
    if mode == 'dry' and not set(edited) <= seen:
        out.fail('no-diff', 'the dry run does not show the change of %s' %
                 [sc['files'][i]['name'] for i in set(edited) - seen])
        return
    m = re.search(rb'IWYU edited (\d+) files', run.stdout)
    if mode == 'dry' and (not m or int(m.group(1)) != len(edited)):
        out.fail('miscounted', 'the dry run counts %s files, the real run '
                 'edits %d' % (m and m.group(1).decode(), len(edited)))


def restricted(sc, clean, full, edited, out):
    mode = sc['mode']
    more, picks = [], [sc['pick'], sc.get('pick2', [])]
    chosen = set(range(len(sc['files'])))
    for part in mode.split('-'):
        pick = picks.pop(0)
        if part == 'list':
            # --basedir is where names in reports start, not those given here.
            more += [spelled(sc, i) for i in pick]
        else:
            more += ['--%s_re' % part, regex(sc, pick)]
        if part == 'ignore':
            chosen -= set(pick)
        else:
            chosen &= set(pick)
    out.probes[mode] += 1
    run = fixer.Run(clean, argvs=[fixer.argv_of(sc, more)])
    run.add_to(out)
    if not fixer.sane(run, out):
        return
    # A link and its target are one file.
    if sc['how'] != 'abs' and 'list' in mode:
        out.probes['other-spelling'] += 1
    for i, f in enumerate(sc['files']):
        p = fixer.real_path(sc, i)
        want = full.after[p] if i in chosen else full.before[p]
        if run.after.get(p) != want:
            if i in chosen:
                out.fail('selected-differs', '%s is selected, but is not '
                         'edited as without the restriction' % f['name'])
            else:
                out.fail('excluded-edited', '%s was edited although it is '
                         'excluded (%s)' % (f['name'], more))
            return
        if i not in chosen:
            out.probes['left-alone'] += i in edited
        else:
            out.probes['selected-edited'] += i in edited
        out.states.add('%s %s %s' % (mode, i in chosen, i in edited))
    C10.others(sc, run, out)


def sort(sc, clean, out):
    out.probes['sort'] += 1
    if not sc['pick']:
        return
    sc2 = dict(clean, units=[])
    more = ['--sort_only'] + [spelled(sc, i) for i in sc['pick']]
    run = fixer.Run(sc2, streams=[b''], argvs=[fixer.argv_of(sc, more)])
    run.add_to(out)
    if not fixer.sane(run, out):
        return
    changed = 0
    for i, f in enumerate(sc['files']):
        p = fixer.real_path(sc, i)
        old, new = run.before[p], run.after.get(p)
        if i not in sc['pick'] or not fixer.lines_of(f) or \
                not C10.decodable(old):
            if new != old:
                out.fail('excluded-edited', '%s was edited although it is '
                         'not listed' % f['name'])
                return
            continue
        changed += new != old
        out.states.add(repr(new))
        want = {'remove': set(), 'adds': [], 'keep_all': False}
        if not fixer.verify(sc, i, want, new, out):
            return
    if changed:
        out.probes['sorted-changed'] += 1
        out.nontrivial = True
    C10.others(sc, run, out)
    again = fixer.Run(sc2, streams=[b''], fs=run.fs,
                      argvs=[fixer.argv_of(sc, more)])
    again.add_to(out)
    out.runs += 1
    # (In a file with mixed line endings the majority may change.)
    mixed = {fixer.real_path(sc, i) for i, f in enumerate(sc['files'])
             if len({l['e'] for l in fixer.lines_of(f)}) > 1 or
             fixer.several_mains(f)}
    diff = sorted(x for x in set(run.after.items()) ^ set(again.after.items())
                  if x[0] not in mixed)
    if diff:
        out.fail('not-stable', 'sorting %s again changes it: %r' % (
            diff[0][0], diff))


def shrink(sc):
    for s in fixer.shrink(sc):
        if len(s['files']) == len(sc['files']):
            yield s
    if sc['how'] != 'abs':
        yield dict(sc, how='abs')
    for i in range(len(sc['pick'])):
        if len(sc['pick']) > 1:
            yield dict(sc, pick=sc['pick'][:i] + sc['pick'][i + 1:])
    if sc.get('loose'):
        yield dict(sc, loose=False)
