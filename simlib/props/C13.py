"""The report for a program is exactly the documented one."""
import re

from simlib import analysis as A
from simlib import frame
from simlib import program as P
from simlib.props import C11

ID = 'C13'
LEVEL = 'exploration'
NEEDS_ANALYSER = True
COUNTS = {'quick': 12000, 'thorough': 300000}
RULE = ('A generated multi-file program whose correct report is known from '
        'its construction, or an example of the repository\'s corpus with its '
        'documented report, analysed in a random environment (see C11). '
        'Non-trivial: the correct report changes something.')
STATES = 'distinct (kind of use, how it is provided now) pairs decided'
REAL = C11.REAL
STUB = C11.STUB
ASSUMPTIONS = ['the model of simlib/program.py states the documented policy']
PROBES = ['corpus', 'generated', 'main', 'associated', 'other-header',
          'correct-already', 'choice', 'adds', 'removes', 'fwd-add', 'fwd-remove',
          'layout-0', 'layout-1', 'layout-2', 'layout-3']


def generate(rng, index, tier):
    tests = A.corpus().tests
    env = A.gen_env(rng)
    if index < len(tests) or rng.random() < 0.03:
        t = tests[index] if index < len(tests) else rng.choice(tests)
        return {'test': t, 'env': env}
    return {'prog': P.generate(rng, {'rich': 0.6}), 'env': env}


def execute(sc):
    out = frame.Outcome()
    env = sc['env']
    A.note_env(out, env)
    if 'test' in sc:
        c = A.corpus()
        log = []

        def runner(args):
            r = A.run(args, c.files, frame.REPO, env)
            log.append(r.digest)
            out.steps += r.ops
            out.log.append(r.output.decode(errors='replace'))
            return r
        why = c.attempt(sc['test'], runner)
        out.probes['corpus'] += 1
        if why:
            out.fail('example', '%s: %s' % (sc['test'], why))
        out.states.add(sc['test'])
        out.hash = A.digest(*log)
        out.sample = sc['test']
        return out
    p = sc['prog']
    r = A.run(P.arguments(p), P.files(p), P.SRC, env)
    out.steps = r.ops
    text = r.output.decode(errors='replace')
    out.log.append(text)
    out.hash = r.digest
    out.probes['generated'] += 1
    judge(p, r.code, text, out)
    return out


def judge(p, code, text, out, now=None):
    if 'error:' in text or code < 0:
        out.fail('broken', 'exit %d: %s' % (code, text[:600]))
        return
    try:
        rec, why = P.parse(text)
    except (ValueError, KeyError, AttributeError) as e:
        out.fail('malformed', '%r in %s' % (e, text[:1000]))
        return
    for msg in P.form(p, text):
        out.fail('form', msg)
    p = P.look(p, now)
    want = P.expectations(p)
    status = P.exit_status(p, rec.values() if P.multi(p) else
                           [w for w, _ in want.values()])
    if code != status:
        out.fail('exit', 'exit status %d, not %d' % (code, status))
    out.nontrivial = any(w is not None for w, _ in want.values())
    for name, (w, f) in sorted(want.items()):
        out.probes[{'main.cc': 'main', 'main.h': 'associated'}.get(
            name.split('/')[-1], 'other-header')] += 1
        if name not in rec:
            out.fail('no report', 'no report for %s' % name)
            continue
        g = rec[name]
        for x in P.kinds(p, f):
            out.states.add(x)
        if w is None:
            out.probes['correct-already'] += 1
        else:
            for k, what in (('adds', 'add'), ('removes', 'remove')):
                if w[k]:
                    out.probes[k] += 1
                if any(not str(x if k == 'adds' else x[0]).startswith('#')
                       for x in w[k]):
                    out.probes['fwd-' + what] += 1
        if P.multi(p):
            a = p['assoc'] and rec.get(p.get('dir', '') + p['assoc']['name'])
            g = plain(g)
            for msg in P.choice(p, f, f is p['main'], g, plain(a)):
                out.fail('report', '%s: %s' % (name, msg))
            out.probes['choice'] += 1
        elif g is None or w is None:
            if g is not w:
                out.fail('report', '%s: got %r, want %r' % (name, g, w))
            continue
        g = plain(g)
        for k in () if P.multi(p) else w:
            if g[k] != w[k]:
                out.fail('report', '%s: %s: missing %s, unjustified %s' % (
                    name, k, sorted(w[k] - g[k]), sorted(g[k] - w[k])))
        rs = P.reasons(p, f)
        for line, ss in why.get(name, {}).items():
            must, may = rs.get(line, (set(), set()))
            if 'width' in p:
                must, may = set(), must | may   # there may be no room
            if not must <= set(ss) or not set(ss) <= must | may:
                out.fail('reasons', '%s: %s is said to be for %s; needed '
                         'for %s%s' % (name, line, ss, sorted(must), (
                             ' perhaps %s' % sorted(may)) if may else ''))
    for name in rec:
        if name not in want:
            out.fail('extra report', 'unexpected report for %s' % name)


def plain(g):
    return g and dict(g, full={re.sub(r'^(#.*?)  // lines \d+-\d+$', r'\1', x)
                               for x in g['full']})


def shrink(sc):
    if sc['env'] != A.PLAIN:
        yield dict(sc, env=A.PLAIN)
        for k in ('io', 'noise', 'ident', 'seed'):
            if sc['env'][k]:
                yield dict(sc, env=dict(sc['env'], **{k: 0}))
    if 'prog' in sc:
        for p in P.shrink(sc['prog']):
            yield dict(sc, prog=p)


def close():
    A.close()


def known(key):
    return False
