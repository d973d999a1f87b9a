"""A failing environment never leads the analyser to give other advice."""
import errno
import re

from simlib import analysis as A
from simlib import frame
from simlib import iwyusim as S
from simlib import program as P
from simlib import wild as W
from simlib.props import C11

ID = 'C12'
LEVEL = 'exploration'
NEEDS_ANALYSER = True
COUNTS = {'quick': 2200, 'thorough': 120000}
RULE = ('One program - an example of the corpus or a generated one, many with '
        'pragmas, mapping files and random options - analysed '
        'once undisturbed and then again and again with faults: failing '
        'system calls on its files, failing or lost writes of the report, '
        'failing allocations, and kills, each at a seeded operation; and '
        'with one of its files torn. '
        'Non-trivial: a fault changed the outcome.')
STATES = 'distinct (fault, kind of outcome) pairs'
REAL = C11.REAL
STUB = C11.STUB
ASSUMPTIONS = ['a file reported as absent is a different program, not a '
               'fault', 'a search directory Clang cannot examine counts as '
               'absent', 'Clang finds its own installation']
PROBES = ['corpus', 'generated', 'same-outcome', 'failed-without-report',
          'failed-with-partial-report', 'killed', 'mapping-file-fault',
          'baseline-fails', 'wild', 'torn-error', 'torn-no-error']

ERRORS = {S.OPEN: [errno.EIO, errno.EACCES, errno.EMFILE, errno.ENFILE,
                   errno.ENOMEM, errno.ELOOP],
          S.STAT: [errno.EIO, errno.EACCES, errno.ENOMEM],
          S.READ: [errno.EIO, errno.ENOMEM, errno.EISDIR],
            S.WRITE: [errno.EIO, errno.ENOSPC, errno.EPIPE]}
FOREVER = 1000000000


def gen_fault(rng):
    cls = rng.choice([S.OPEN, S.OPEN, S.STAT, S.STAT, S.READ, S.READ,
                      S.WRITE, S.MALLOC, S.MALLOC])
    f = {'cls': cls, 'at': rng.random(), 'n': 1}
    if cls == S.MALLOC:
        f.update(action=S.ERRNO, arg=errno.ENOMEM)
        return f
    if rng.random() < 0.2:
        f.update(action=S.KILL, arg=0)
        return f
    f.update(action=S.ERRNO, arg=rng.choice(ERRORS[cls]))
    # A disk that fails goes on failing; a lost write in the middle of the
    # report cannot be told from its text alone.
    if cls == S.WRITE or rng.random() < 0.3:
        f['n'] = FOREVER
    return f


def generate(rng, index, tier):
    tests = A.corpus().tests
    runs = [[gen_fault(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            for _ in range(rng.choice([4, 6, 8]))]
    sc = {'env': A.gen_env(rng), 'runs': runs, 'torn': [
        {'file': rng.random(), 'at': rng.random(), 'how': rng.choice(TORN)}
        for _ in range(rng.choice([0, 1, 1, 2]))]}
    if index < len(tests) or rng.random() < 0.2:
        sc['test'] = tests[index] if index < len(tests) else rng.choice(tests)
    elif rng.random() < 0.6:
        sc['wild'] = rng.choice([W.small, W.generate])(rng)
    else:
        sc['prog'] = P.generate(rng, {})
    return sc


TORN = ['cut', 'cut', 'zeros', 'hole', 'swap']


def tear(t, data):
    """What is left of a file after a crash while it was written."""
    n = int(t['at'] * len(data))
    if t['how'] == 'cut':
        return data[:n]
    if t['how'] == 'zeros':
        return data[:n] + bytes(len(data) - n)
    if t['how'] == 'hole':
        return data[:n] + bytes(16) + data[n + 16:]
    return data[n:] + data[:n]


CLS = {'open': S.OPEN, 'stat': S.STAT, 'lstat': S.STAT, 'fstat': S.STAT,
       'realpath': S.STAT, 'read': S.READ, 'mmap': S.READ, 'write': S.WRITE}
# Where Clang looks for its own installation: not part of the program.
TOOLCHAIN = re.compile(r'^/(usr|etc|lib|lib64|proc|sim/bin)(/|$)')
HEADER = re.compile(r'^/usr/(include|lib/.*/include)/.')


def counts(log):
    """{class: [path of each operation]} of an undisturbed run."""
    out = {}
    for line in log.decode(errors='replace').split('\n'):
        w = line.split(' ')
        c = CLS.get(w[0])
        if c is not None and len(w) > 1:
            out.setdefault(c, []).append(w[1])
    return out


def search_dirs(args):
    out = set()
    for i, a in enumerate(args):
        if a.startswith('-I') and len(a) > 2:
            out.add(a[2:].rstrip('/'))
        elif i and args[i - 1] in ('-I', '-isystem', '-iquote'):
            out.add(a.rstrip('/'))
    return out


def place(f, base, dirs=('.',)):
    """The fault of the simulator that a fault of the scenario means."""
    if f['cls'] == S.MALLOC:
        return S.Fault(S.MALLOC, int(f['at'] * base.mallocs), f['n'], '',
                       f['action'], f['arg'])
    paths = counts(base.log).get(f['cls'], [])
    if f['cls'] == S.WRITE or f['action'] == S.KILL:
        return S.Fault(f['cls'], int(f['at'] * len(paths)), f['n'], '',
                       f['action'], f['arg'])
    paths = [p for p in paths if not TOOLCHAIN.match(p) or
             f['cls'] != S.STAT and HEADER.match(p)]
    if f['cls'] == S.STAT:
        paths = [p for p in paths if p not in dirs]
    if not paths:
        return None
    k = int(f['at'] * len(paths))
    p = paths[k]
    return S.Fault(f['cls'], paths[:k].count(p), f['n'], '=' + p, f['action'],
                   f['arg'])


CORRECT = re.compile(r'^\(.* has correct #includes/fwd-decls\)$')


def blocks(text):
    """The complete per-file reports in a text."""
    out = []
    cur = None
    for line in text.split('\n'):
        if CORRECT.match(line):
            out.append(line)
        elif line.endswith(' should add these lines:'):
            cur = [line]
        elif cur is not None:
            cur.append(line)
            if line == '---':
                out.append('\n'.join(cur))
                cur = None
    return out


def execute(sc):
    out = frame.Outcome()
    env = sc['env']
    A.note_env(out, env)
    if 'test' in sc:
        c = A.corpus()
        files, cwd, cap = c.files, frame.REPO, []

        def runner(args):
            cap.append(args)
            return A.run(args, files, cwd, env)
        c.attempt(sc['test'], runner)
        args = cap[0] if cap else None
        out.probes['corpus'] += 1
    elif 'wild' in sc:
        w = sc['wild']
        args, files, cwd = W.arguments(w), W.files(w), W.SRC
        out.probes['wild'] += 1
    else:
        p = sc['prog']
        args, files, cwd = P.arguments(p), P.files(p), P.SRC
        out.probes['generated'] += 1
    log = []
    if args is None:
        out.hash = A.digest()
        return out
    base = A.run(args, files, cwd, env)
    log.append(base.digest)
    want = blocks(base.output.decode(errors='replace'))
    if base.code:
        out.probes['baseline-fails'] += 1
    for run in sc['runs']:
        fs = [x for x in (place(f, base, search_dirs(args))
                          for f in run) if x]
        r = A.run(args, files, cwd, env, faults=fs)
        out.runs += 1
        out.steps += r.ops
        log.append(r.digest)
        fired = [f for f, n in zip(fs, r.fired) if n]
        for f in fired:
            out.faults[f.label()] += 1
            if '.imp' in f.sub:
                out.probes['mapping-file-fault'] += 1
        text = r.output.decode(errors='replace')
        got = blocks(text)
        if r.code == base.code and got == want and (
                fired or r.output == base.output):
            if fired:
                out.probes['same-outcome'] += 1
                out.states.update(f.label() + ' same' for f in fired)
            continue
        out.nontrivial = True
        how = 'partial report' if got else 'no report'
        out.probes['killed' if r.code < 0 else
                   'failed-with-partial-report' if got else
                   'failed-without-report'] += 1
        out.states.update('%s %s %s' % (f.label(), how, r.code < 0)
                          for f in fired)
        what = '%s with %s' % (sc.get('test', 'program'), ', '.join(
            '%s at operation %d%s%s' % (
                f.label(), f.index, ' and after' if f.count > 1 else '',
                ' on ' + f.sub[1:] if f.sub else '') for f in fired))
        if not fired:
            out.fail('differs', '%s: no fault happened, yet the outcome '
                     'differs' % what)
        elif r.code == 0:
            out.fail('silent', '%s: the analysis could not be done, but the '
                     'exit status is 0: %s' % (what, text[-500:]))
        elif r.code == base.code:
            if base.code == 1 and not set(got) - set(want):
                continue           # it had failed anyway
            out.fail('silent', '%s: the outcome differs but the exit status '
                     '%d is that of a good analysis: %s' % (
                         what, r.code, text[-500:]))
        elif got != want[:len(got)]:
            bad = [b for b in got if b not in want]
            out.fail('wrong advice', '%s: gives reports it would not have '
                     'given: %s' % (what, (bad or got)[0][:500]))
    for t in sc.get('torn', ()):
        torn(sc, t, args, files, cwd, base, log, out)
    out.hash = A.digest(*log)
    out.log = ['exit %d' % base.code, base.output.decode(errors='replace')]
    out.sample = sc.get('test')
    return out


ERROR = re.compile(r'^[^\s:]+:\d+:\d+: (fatal )?error: (?!.*\[-W)(.*)', re.M)


def torn(sc, t, args, files, cwd, base, log, out):
    """A file of the program was torn: if that makes it no program any more,
    there is no advice."""
    read = {p if p.startswith('/') else '%s/%s' % (cwd, p)
            for p in counts(base.log).get(S.OPEN, [])}
    names = sorted(p for p in files if p in read and files[p] and
                   not p.endswith('.imp'))
    if not names:
        return
    name = names[int(t['file'] * len(names))]
    data = files[name]
    data = data.encode() if isinstance(data, str) else data
    r = A.run(args, dict(files, **{name: tear(t, data)}), cwd, sc['env'])
    out.runs += 1
    out.steps += r.ops
    log.append(r.digest)
    out.faults['torn-file:' + t['how']] += 1
    text = r.output.decode(errors='replace')
    m = ERROR.search(text)
    out.probes['torn-error' if m else 'torn-no-error'] += 1
    if not m:
        return
    out.nontrivial = True
    got = blocks(text)
    out.states.add('torn %s %s %d' % (t['how'], re.sub(
        r"'.*?'", '', m.group(2)), r.code))
    what = '%s with %s torn (%s)' % (sc.get('test', 'program'), name, t['how'])
    if r.code == 0:
        out.fail('silent', '%s: it has errors, but the exit status is 0: %s' %
                 (what, text[:500]))
    elif got:
        out.fail('wrong advice', '%s: it has errors, yet there are reports: '
                 '%s %s' % (what, m.group(0), got[0][:500]))


def shrink(sc):
    if sc.get('torn'):
        yield dict(sc, torn=[])
        for i in range(len(sc['torn'])):
            if len(sc['torn']) > 1 or sc['runs']:
                yield dict(sc, torn=[sc['torn'][i]], runs=[])
    runs = sc['runs']
    for i in range(len(runs)):
        if len(runs) > 1:
            yield dict(sc, runs=[runs[i]])
    for i, r in enumerate(runs):
        for k in range(len(r)):
            if len(r) > 1:
                yield dict(sc, runs=runs[:i] + [r[:k] + r[k + 1:]] +
                           runs[i + 1:])
    if sc['env'] != A.PLAIN:
        yield dict(sc, env=A.PLAIN)
    if 'prog' in sc:
        for p in P.shrink(sc['prog']):
            yield dict(sc, prog=p)
    if 'wild' in sc:
        for w in W.shrink(sc['wild']):
            yield dict(sc, wild=w)


def close():
    A.close()


def known(key):
    return False
