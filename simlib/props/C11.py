"""The analyser's report depends on the program and the options alone."""
import random

from simlib import analysis as A
from simlib import frame
from simlib import program as P
from simlib import wild as W

ID = 'C11'
LEVEL = 'exploration'
NEEDS_ANALYSER = True
COUNTS = {'quick': 12000, 'thorough': 150000}
RULE = ('One program - a file of the repository\'s own corpus or a generated '
        'multi-file program, many of them with pragmas, mappings, templates, '
        'files of the same name and random options - analysed in several environments that differ in '
        'memory layout, inode numbers, times, directory order, unrelated '
        'files, chunking and interruption of system calls.  Non-trivial: the '
        'report recommends something or diagnoses something.')
STATES = 'distinct reports'
REAL = ['include-what-you-use (all of it, with the Clang libraries)',
        'dynamic memory use, all system calls redirected']
STUB = ['file system', 'allocator', 'clock, process id', 'console']
ASSUMPTIONS = ['system headers outside the program do not change']
PROBES = ['corpus', 'generated', 'wild', 'layout-0', 'layout-1', 'layout-2',
          'layout-3', 'unrelated-files', 'recommends', 'diagnoses']


def generate(rng, index, tier):
    tests = A.corpus().tests
    envs = [A.gen_env(rng, 0), A.gen_env(rng, 1)] + [
        A.gen_env(rng) for _ in range(rng.choice([1, 2]))]
    # Every corpus file early, then a mixture.
    if index < len(tests) or rng.random() < 0.1:
        t = tests[index] if index < len(tests) else rng.choice(tests)
        return {'test': t, 'envs': envs}
    r = rng.random()
    if r < 0.9:
        # Small ones find more in the same time.
        return {'wild': (W.small if r < 0.65 else W.generate)(rng),
                'envs': envs}
    return {'prog': P.generate(rng, {}), 'envs': envs}


def observe(sc, env):
    if 'test' in sc:
        c = A.corpus()
        got = []

        def runner(args):
            r = A.run(args, c.files, frame.REPO, env)
            got.append(r)
            return r
        c.attempt(sc['test'], runner)
        return got
    if 'wild' in sc:
        w = sc['wild']
        return [A.run(W.arguments(w), W.files(w), W.SRC, env)]
    p = sc['prog']
    return [A.run(P.arguments(p), P.files(p), P.SRC, env)]


def execute(sc):
    out = frame.Outcome()
    seen = []
    log = []
    for env in sc['envs']:
        A.note_env(out, env)
        rs = observe(sc, env)
        out.runs += len(rs)
        for r in rs:
            out.steps += r.ops
            log.append(r.digest)
        seen.append([(r.code, r.output) for r in rs])
    out.runs -= 1
    out.probes['corpus' if 'test' in sc else 'wild' if 'wild' in sc
               else 'generated'] += 1
    text = b''.join(o for _, o in seen[0])
    out.nontrivial = b'should add these lines' in text or b'error:' in text
    if b'should add' in text:
        out.probes['recommends'] += 1
    if b'warning:' in text or b'error:' in text:
        out.probes['diagnoses'] += 1
    out.states.add(A.digest(text))
    for i, s in enumerate(seen):
        if s != seen[0]:
            a = b'\n'.join(o for _, o in seen[0]).decode(errors='replace')
            b = b'\n'.join(o for _, o in s).decode(errors='replace')
            at = [(x, y) for x, y in zip(a.split('\n') + [''],
                                         b.split('\n') + ['']) if x != y]
            out.fail('differs', '%s: environments 0 and %d give different '
                     'results: codes %s and %s; %r' % (
                         sc.get('test', 'program'), i,
                         [c for c, _ in seen[0]], [c for c, _ in s], at[:1]))
            break
    for s in seen:
        for code, _ in s:
            if code < 0 or code >= 128:
                out.fail('crash', '%s: the analyser died (%d): %s' % (
                    sc.get('test', 'program'), code,
                    s[0][1][-300:].decode(errors='replace')))
    out.hash = A.digest(*log)
    out.log = ['%s -> %s' % (e, [x[0] for x in s])
               for e, s in zip(sc['envs'], seen)] + [
        x[1].decode(errors='replace') for s in seen[:1] for x in s]
    out.sample = sc.get('test')
    return out


def shrink(sc):
    envs = sc['envs']
    for i in range(len(envs)):
        if len(envs) > 2:
            yield dict(sc, envs=envs[:i] + envs[i + 1:])
    for i, e in enumerate(envs):
        for k in ('io', 'noise', 'ident', 'seed'):
            if e[k]:
                yield dict(sc, envs=envs[:i] + [dict(e, **{k: 0})] +
                           envs[i + 1:])
    if 'wild' in sc:
        for w in W.shrink(sc['wild']):
            yield dict(sc, wild=w)
    if 'prog' in sc:
        for p in P.shrink(sc['prog']):
            yield dict(sc, prog=p)


def close():
    A.close()


def known(key):
    return False
