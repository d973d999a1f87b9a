"""fix_includes: an edit changes what the report says and nothing else."""
from simlib import fixer, frame

ID = 'C10'
LEVEL = 'exploration'
COUNTS = {'quick': 15000, 'thorough': 100000}
RULE = ('A scenario is a set of generated source files (encodings, line '
        'endings, guards, conditionals, namespaces, comments), reports of '
        'several analyses about them, and flags. Non-trivial: some file was '
        'edited.')
STATES = 'distinct file contents after the run'
REAL = ['fix_includes.py, whole program, run from its command line']
STUB = ['file system', 'reports (generated in the analyser\'s format)']
ASSUMPTIONS = ['files contain no raw strings or comments that look like '
               'include lines at the start of a line']
PROBES = ['edited', 'merged', 'crlf', 'bom', 'link', 'not-utf8', 'safe-header',
          'no-final-newline', 'untouched']


def generate(rng, index, tier):
    return fixer.gen_common(rng, {})


def execute(sc):
    out = frame.Outcome()
    run = fixer.Run(sc)
    run.add_to(out)
    if not fixer.sane(run, out):
        return out
    judge(sc, run, out, fixer.plan(sc))
    return out


def judge(sc, run, out, plan):
    out.nontrivial = False
    for i, f in enumerate(sc['files']):
        path = fixer.real_path(sc, i)
        old, new = run.before.get(path), run.after.get(path)
        if new is None:
            out.fail('file-lost', '%s is gone' % f['name'])
            return
        if i not in plan:
            out.probes['untouched'] += 1
            if new != old:
                out.fail('untouched-changed', '%s was edited although no '
                         'report asks for a change' % f['name'])
                return
            continue
        if not fixer.lines_of(f):
            continue
        if not decodable(old) or skipped(sc, i, old):
            if new != old:
                out.fail('untouched-changed', '%s cannot be decoded, yet it '
                         'was edited' % f['name'])
            continue
        out.states.add(repr(new))
        if new != old:
            out.probes['edited'] += 1
            out.nontrivial = True
            if f['link']:
                out.probes['link'] += 1
            if b'\r\n' in old:
                out.probes['crlf'] += 1
            if f['enc'] == 'utf-8-sig':
                out.probes['bom'] += 1
            try:
                old.decode()
            except UnicodeDecodeError:
                out.probes['not-utf8'] += 1
            if plan[i]['keep_all']:
                out.probes['safe-header'] += 1
            if not f['final']:
                out.probes['no-final-newline'] += 1
        n = sum(1 for u in sc['units'] for r in u['records'] if r['file'] == i)
        if n > 1:
            out.probes['merged'] += 1
        if not fixer.verify(sc, i, plan[i], new, out):
            return
        mode = run.fs.node(path).mode
        if mode != f['mode']:
            out.fail('mode', 'permissions of %s went from %o to %o' %
                     (f['name'], f['mode'], mode))
            return
    others(sc, run, out)


def others(sc, run, out):
    """Nothing but the mentioned files changed."""
    mine = {fixer.real_path(sc, i) for i in range(len(sc['files']))}
    a = {p: d for p, d in run.before.items() if p not in mine}
    b = {p: d for p, d in run.after.items() if p not in mine}
    if a != b:
        diff = sorted(set(a.items()) ^ set(b.items()))
        out.fail('stray-change', 'also changed: %s' % diff[0][0])


def decodable(data):
    for enc in ('utf-8', 'cp1250', 'cp1252'):
        try:
            data.decode(enc)
            return True
        except UnicodeDecodeError:
            pass
    return False


def skipped(sc, i, old):
    return False


shrink = fixer.shrink
