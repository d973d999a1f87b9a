"""fix_includes: the documented order, blank lines and comments."""
import posixpath
import random
import re

from simlib import fixer, frame
from simlib.props import C10

ID = 'C15'
LEVEL = 'exploration'
COUNTS = {'quick': 15000, 'thorough': 100000}
RULE = ('As C10, with every combination of the options about order, blank '
        'lines and comments, from reports or with --sort_only; the latter '
        'also killed, hit by power failures, failing calls or beside other '
        'instances, and then run again. Non-trivial: at least two of the '
        'lines that are put in order are neighbours in the result.')
STATES = 'distinct (kinds of neighbours, options, kept or new) combinations'
REAL = C10.REAL
STUB = C10.STUB
ASSUMPTIONS = ['a line keeps to its block: blocks end at code, conditionals, '
               'namespaces, unattached comments and <linux/...> #includes',
               'which name decides about the associated header, when reports '
               'spell the name of a file differently, is the first']
PROBES = ['report', 'sort', 'interrupted', 'reorder', 'keep-order',
          'quoted-first', 'project', 'associated', 'c-system', 'cxx-system',
          'quoted', 'declaration', 'blank-wanted', 'blank-unwanted',
          'commented', 'uncommented', 'inl', 'rerun-completes']
POOL = ['"a/b.h"', '"a/b-inl.h"', '"a/c.h"', '<assert.h>', '<list>', '<deque>',
        '"proj/api.h"', '"proj/api-inl.h"', '"lib/peer.h"', '"zeta.h"',
        '"alpha.h"', '"lib/core/own.h"', '<time.h>', '"Alpha.h"', '"a/b2.h"']


def generate(rng, index, tier):
    mode = rng.choice(['report', 'report', 'report', 'sort', 'sort', 'crash'])
    sc = fixer.gen_common(rng, {
        'n': [1, 1, 2, 3], 'dup': 0.0, 'plain': rng.random() < 0.7,
        'plans': [['inc'], ['inc', 'inc', 'fwd', 'code'], ['inc', 'fwd', 'inc'],
                  ['cond', 'inc', 'code', 'inc'], ['inc', 'pragma', 'inc'], ['inc', 'ns', 'fwd', 'code']],
        'pool': fixer.POOL + POOL, 'block': 12})
    sc['mode'] = mode
    flags = []
    if rng.random() < 0.6:
        flags.append('--reorder')
    elif rng.random() < 0.3:
        flags.append('--noreorder')
    if rng.random() < 0.4:
        flags.append('--noblank_lines')
    if rng.random() < 0.3:
        flags.append('--quoted_includes_first')
    if rng.random() < 0.4:
        flags.append('--separate_project_includes=' + rng.choice(
            ['<tld>', 'proj', 'proj/', 'lib', 'a/b']))
    if rng.random() < 0.4:
        flags.append(rng.choice(['--comments', '--update_comments',
                                 '--nocomments']))
    flags += [f for f in ('-m', '--noupdate_comments', '-b', '--safe_headers',
                          '--nokeep_iwyu_namespace_format')
              if rng.random() < 0.12]
    if rng.random() < 0.5:
        flags.append('--nosafe_headers')
    rng.shuffle(flags)
    sc['flags'] = flags
    sc['how'] = rng.choice(['abs', 'abs', 'rel'])
    if mode == 'crash':
        sc['instances'] = rng.choice([1, 1, 2, 3])
        sc['schedule'] = [rng.randrange(6) for _ in range(
            rng.choice([20, 100]))]
        sc['power'] = rng.randrange(1 << 30)
        sc['loss'] = rng.random() < 0.4
        if rng.random() < 0.8:
            sc['faults'] = [rng.choice([
                {'op': 'any', 'n': rng.randrange(0, 60), 'action': 'kill',
                 'pid': rng.choice([None, 1, 2])},
                {'op': rng.choice(['write', 'fsync', 'rename', 'open', 'read',
                                   'close', 'chmod', 'unlink']),
                 'n': rng.randrange(0, 6), 'count': rng.choice([1, 2, 40]),
                 'err': rng.choice(['EIO', 'ENOSPC', 'EACCES'])}])]
    return sc


# --- the documented order -----------------------------------------------------

MAIN, CSYS, CXXSYS, QUOTED, PROJECT, DECL = range(6)
NAMES = ['associated', 'c-system', 'cxx-system', 'quoted', 'project',
         'declaration']
DEFAULT = [MAIN, CSYS, CXXSYS, QUOTED, PROJECT, DECL]
QUOTED_FIRST = [MAIN, QUOTED, PROJECT, CSYS, CXXSYS, DECL]


def option(sc, name):
    out = None
    for f in sc['flags']:
        if f.startswith('--%s=' % name):
            out = f.split('=', 1)[1]
    return out


def classify(sc, name, h, first, marked):
    """The kind of #include h (with quotes) in the file spelled name; first:
    it is the file's first one; marked: a pragma says it is associated."""
    path = h[1:-1]
    if marked and h[0] == '"':
        return MAIN
    if h[0] == '"':
        stem = re.sub(r'(-inl\.h|\.h|\.hpp)$', '', path, flags=re.I)
        own = re.sub(r'(_unittest|_regtest|_test)$', '',
                     posixpath.splitext(name)[0])
        if own in (stem, stem.replace('/public/', '/internal/')) or \
                first and posixpath.basename(own) == posixpath.basename(stem):
            return MAIN
        project = option(sc, 'separate_project_includes')
        if project == '<tld>':
            a, b = path.split('/')[0], name.split('/')[0]
            if '/' in path and '/' in name and a and a == b:
                return PROJECT
        elif project and path.startswith(project.rstrip('/') + '/'):
            return PROJECT
        return QUOTED
    return CSYS if '.' in path else CXXSYS


def items(sc, fi, name, want, data, sort_only):
    """The result as runs of lines that were put in order."""
    f = sc['files'][fi]
    ls = fixer.lines_of(f)
    incs = [(n, l) for n, l in enumerate(ls) if l['k'] == 'inc']
    first = incs[0][1]['h'] if incs else None
    where = {}
    for n, l in incs:
        where.setdefault(l['h'], []).append(n)
    told = any(r['file'] == fi and not r['correct']
               for u in sc['units'] for r in u['records'])
    decls = {} if sort_only or not told else {
        l['n']: n for n, l in enumerate(ls) if l['k'] == 'fwd'}
    new = {a['fwd'] for a in want['adds'] if 'fwd' in a}
    added = {a['h'] for a in want['adds'] if 'h' in a}
    runs, run, blanks, notes, head, after = [], [], 0, 0, None, False
    for raw in data.split(b'\n'):
        line = raw.decode('latin-1').rstrip()
        s = line.strip()
        m = fixer.INC.match(raw)
        d = re.search(r'\b(?:class|struct|union) ([AF]\d+);', s)
        if not s:
            if notes:              # a comment that belongs to no line
                run, after = [], False
                notes = 0
            blanks += 1
            continue
        if s.startswith('//') or s.startswith('/*'):
            if 'IWYU pragma' in s:
                run, after, blanks, notes = [], False, 0, 0
            else:
                notes += 1
            continue
        if s == 'template <typename T>':
            head = s
            continue
        item = None
        if m:
            h = m.group(1).decode('latin-1')
            pos = where.get(h, [])
            item = {'h': h, 'kind': classify(
                sc, name, h, h == first, 'pragma: associated' in line),
                    'key': re.sub(r'\s', '', h).replace('-inl.h', '_inl.h'),
                    'new': h in added and not pos, 'line': line,
                    'pos': pos[0] if len(pos) == 1 and h not in added
                    else None, 'sure': h not in added or not pos}
            if re.match(r'\s*#\s*include\s+<linux/', line):
                # New lines may stand beside it, in its own block.
                for x in run:
                    x['beside'] = True
                run, blanks, notes, after = [], 0, 0, True
                continue
        elif d and (d.group(1) in decls or d.group(1) in new):
            text = (head or '') + re.sub(r'\s*//.*', '', s)
            item = {'kind': DECL, 'key': re.sub(r'\s', '', text),
                    'new': d.group(1) in new, 'line': line,
                    'pos': decls.get(d.group(1)), 'sure': True}
        head = None
        if item:
            item['blanks'] = blanks
            item['beside'] = after
            if not run:
                runs.append(run)
            run.append(item)
        else:
            run, after = [], False
        blanks = notes = 0
    return [r for r in runs if r]


def reported_comments(sc, fi):
    """{h: lines with which the reports list it in full}."""
    f = sc['files'][fi]
    first = {}
    out = {}
    for l in fixer.lines_of(f):
        if l['k'] == 'inc':
            first.setdefault(l['id'], l)
    for u in sc['units']:
        for r in u['records']:
            if r['file'] != fi or r['correct']:
                continue
            for i, l in first.items():
                if i not in r['remove']:
                    out.setdefault(l['h'], []).append(
                        None if r.get('numbered') else 'kept_%d' % i)
            for a in r['adds']:
                if 'h' in a:
                    out.setdefault(a['h'], []).append(a['why'])
    return out


def judge(sc, fi, name, want, data, out, sort_only=False):
    f = sc['files'][fi]
    if f['enc'] == 'utf-8-sig':
        data = data[3:]
    reorder = '--reorder' in sc['flags']
    order = QUOTED_FIRST if '--quoted_includes_first' in sc['flags'] \
        else DEFAULT
    blank = ([True] + [x in ('-b', '--blank_lines') for x in sc['flags'] if x in (
        '-b', '--blank_lines', '--noblank_lines')])[-1]

    def fail(kind, msg):
        out.fail(kind, '%s: %s' % (f['name'], msg))
        return False
    out.probes['reorder' if reorder else 'keep-order'] += 1
    for run in items(sc, fi, name, want, data, sort_only):
        for a, b in zip(run, run[1:]):
            if (a['beside'] or b['beside']) and not all(
                    x['sure'] and not x['new'] for x in (a, b)):
                continue
            out.nontrivial = True
            out.states.add('%s %s %s %s %s' % (
                NAMES[a['kind']], NAMES[b['kind']], a['new'], b['new'],
                sorted(x.split('=')[0] for x in sc['flags'])))
            for x in (a, b):
                out.probes[NAMES[x['kind']]] += 1
            x, y = order.index(a['kind']), order.index(b['kind'])
            if x > y:
                return fail('kinds', '%s (%s) comes before %s (%s)' % (
                    a['line'], NAMES[a['kind']], b['line'], NAMES[b['kind']]))
            if '--quoted_includes_first' in sc['flags']:
                out.probes['quoted-first'] += 1
            if x == y:
                if reorder and a['key'] > b['key']:
                    return fail('unsorted', '%s comes before %s' % (
                        a['line'], b['line']))
                if '-inl' in a['line'] + b['line']:
                    out.probes['inl'] += 1
                if not reorder and a['sure'] and b['sure']:
                    if a['new'] and not b['new']:
                        return fail('order-changed', 'new %s comes before %s' %
                                    (a['line'], b['line']))
                    if None not in (a['pos'], b['pos']) and \
                            a['pos'] > b['pos']:
                        return fail('order-changed', '%s came after %s' % (
                            a['line'], b['line']))
                continue
            if DECL in (a['kind'], b['kind']) or blank and \
                    {a['kind'], b['kind']} != {CSYS, CXXSYS}:
                out.probes['blank-wanted'] += 1
                if not b['blanks']:
                    return fail('blank', 'no blank line between %s and %s' % (
                        a['line'], b['line']))
            else:
                out.probes['blank-unwanted'] += 1
                if b['blanks']:
                    return fail('blank', 'a blank line between %s and %s' % (
                        a['line'], b['line']))
    # What the lines say.
    said = {} if sort_only else reported_comments(sc, fi)
    comments = fixer.last(sc, 'comments') or \
        fixer.last(sc, 'update_comments')
    olds = {}
    for l in fixer.lines_of(f):
        if l['k'] == 'inc':
            olds.setdefault(l['h'], set()).add(fixer.encode(f, l['x']).rstrip())
    for raw in data.split(b'\n'):
        m = fixer.INC.match(raw)
        if not m:
            continue
        h = m.group(1).decode('latin-1')
        may = set(olds.get(h, ()))
        why = said.get(h, []) if comments else []
        if any(b'IWYU pragma' in x for x in may) and not any(
                a.get('h') == h for a in want['adds']):
            why = []               # pragmas stay
        if h not in olds or any(a.get('h') == h for a in want['adds']):
            if not any(why) or None in why:
                may.add(b'#include ' + h.encode())
        if any(why) and None not in why:
            may = {x for x in may if b'IWYU pragma' in x}
        may |= {('#include %s  // for %s' % (h, w)).encode() for w in why if w}
        out.probes['commented' if why else 'uncommented'] += 1
        if raw.rstrip() not in may:
            return fail('text', 'line %r, expected one of %s' % (
                raw, sorted(may)))
    return True


# --- runs ------------------------------------------------------------------------

def execute(sc):
    out = frame.Outcome()
    out.nontrivial = False
    if sc['mode'] == 'report':
        report(sc, out)
    else:
        sort(sc, out)
    return out


def names(sc):
    """How the first report on each file spells its name."""
    out = {}
    for u in sc['units']:
        for r in u['records']:
            if r['file'] not in out:
                n = fixer.PROJ + '/' + sc['files'][r['file']]['name'] \
                    if r['correct'] else r['spell']
                if sc['basedir']:
                    n = n if n.startswith('/') else fixer.PROJ + '/' + n
                out[r['file']] = n
    return out


def report(sc, out):
    run = fixer.Run(sc)
    run.add_to(out)
    out.probes['report'] += 1
    if not fixer.sane(run, out):
        return
    if option(sc, 'separate_project_includes'):
        out.probes['project'] += 0
    called = names(sc)
    for fi, want in fixer.plan(sc).items():
        p = fixer.real_path(sc, fi)
        if not fixer.lines_of(sc['files'][fi]) or \
                not C10.decodable(run.before[p]):
            continue
        if not judge(sc, fi, called[fi], want, run.after[p], out):
            return


def argv(sc):
    return fixer.argv_of(sc, ['--sort_only'] + [
        spelled(sc, i) for i in range(len(sc['files']))])


def spelled(sc, i):
    name = sc['files'][i]['name']
    return name if sc['how'] == 'rel' else fixer.PROJ + '/' + name


def sort(sc, out):
    clean = dict(sc, units=[], faults=[])
    run = fixer.Run(clean, streams=[b''], argvs=[argv(sc)])
    run.add_to(out)
    out.probes['sort'] += 1
    if not fixer.sane(run, out):
        return
    want = {'remove': set(), 'adds': [], 'keep_all': False}
    for i, f in enumerate(sc['files']):
        p = fixer.real_path(sc, i)
        if not fixer.lines_of(f) or not C10.decodable(run.before[p]):
            continue
        n = spelled(sc, i)
        if sc['basedir'] and not n.startswith('/'):
            n = fixer.PROJ + '/' + n
        if not judge(sc, i, n, want, run.after[p], out, True):
            return
    if sc['mode'] != 'crash':
        return
    fs = fixer.make_fs(sc)
    n = sc['instances']
    broken = fixer.Run(dict(sc, units=[]), streams=[b''] * n, fs=fs,
                       argvs=[argv(sc)] * n, schedule=sc['schedule'])
    broken.add_to(out)
    out.runs += 2
    if broken.status == 'hung':
        out.fail('hang', 'does not finish')
        return
    out.probes['interrupted'] += 1
    if sc['loss']:
        rng = random.Random(sc['power'])
        fs = fs.after_power_loss(lambda what, n: rng.randrange(n))
        out.faults['power-loss'] += 1
    again = fixer.Run(clean, streams=[b''], fs=fs, argvs=[argv(sc)])
    again.add_to(out)
    if not fixer.sane(again, out):
        return
    for i, f in enumerate(sc['files']):
        p = fixer.real_path(sc, i)
        if len({l['e'] for l in fixer.lines_of(f)}) > 1 or \
                fixer.several_mains(f):
            continue           # sorting again may change it further
        if run.after[p] != again.after.get(p):
            out.fail('not-completed', '%s: sorting again after an interruption '
                     'gives %r instead of %r' % (f['name'], again.after.get(p),
                                                 run.after[p]))
            return
    out.probes['rerun-completes'] += 1


def shrink(sc):
    for s in fixer.shrink(sc):
        yield s
    for k in ('loss',):
        if sc.get(k):
            yield dict(sc, **{k: False})
    if sc.get('instances', 1) > 1:
        yield dict(sc, instances=1)
    if sc['how'] != 'abs':
        yield dict(sc, how='abs')
