"""The three programs together: a project is analysed by iwyu_tool, which runs
simulated analysers on the files as they are, and edited by fix_includes."""
import json
import posixpath

from . import analysis as A
from . import frame, iwyusim as S, popen, program as P, tool, vos

SRC = P.SRC
IWYU = '/sim/bin/include-what-you-use'


class Pipeline(object):
    def __init__(self, sc, out):
        self.sc = sc
        self.out = out
        self.prog = sc['prog']
        fs = self.fs = vos.FileSystem()
        fs.makedirs('/sim/bin')
        fs.put(IWYU, b'\x7fELF', 0o755)
        for name, text in P.project_texts(self.prog).items():
            path = '%s/%s' % (SRC, name)
            fs.makedirs(posixpath.dirname(path))
            fs.put(path, text.encode())
        db = [{'directory': SRC, 'file': t['main']['name'],
               'arguments': ['c++', '-I.', '-c', t['main']['name']]}
              for t in self.prog['tus']]
        fs.makedirs('/sim/build')
        fs.put('/sim/build/compile_commands.json', json.dumps(db).encode())
        fs.settle()
        self.cache = {}
        self.start = self.texts()

    def texts(self, fs=None):
        """{name: text} of the project's files."""
        out = {}
        for p, d in (fs or self.fs).files(SRC).items():
            out[p[len(SRC) + 1:]] = d.decode()
        return out

    # --- analysing --------------------------------------------------------------
    def extra(self):
        x = ['-Xiwyu', '--max_line_length=1000']
        if self.prog['also']:
            x += ['-Xiwyu', '--check_also=*h[0-9]*']
        return x

    def analyse(self, args, env, faults=(), fs=None):
        files = (fs or self.fs).files(SRC)
        key = (tuple(args), repr(sorted(env.items())),
               tuple(sorted(files.items())), repr(faults))
        if key not in self.cache:
            w = S.World(files, cwd=SRC, ident=env['ident'])
            r = A.analyser().run(args, w, seed=env['seed'], mode=env['mode'],
                                 io=env['io'], faults=faults)
            self.out.steps += r.ops
            self.cache[key] = r
        return self.cache[key]

    def collect(self, plan, kill=None):
        """One run of iwyu_tool; plan: per unit how its analysis goes.
        Returns its standard output."""
        results = {}

        def child(k):
            kid = plan['kids'][k]

            def go(argv, cwd):
                r = self.analyse(argv[1:], kid['env'])
                if kid['fault']:
                    f = place(kid['fault'], r)
                    if f:
                        r = self.analyse(argv[1:], kid['env'], [f])
                        if sum(r.fired):
                            self.out.faults[f.label()] += 1
                results[k] = r
                data = r.output
                c = int(kid['cut'] * len(data))
                code = r.code
                return {'chunks': [[kid['start'], data[:c]],
                                   [kid['end'], data[c:]]],
                        'end': kid['end'], 'code': code}
            return {'index': k, 'run': go}
        rules = {t['main']['name']: child(k)
                 for k, t in enumerate(self.prog['tus'])}
        k = vos.Kernel(self.fs, [kill] if kill else [])
        k.max_steps = 60000
        c = popen.Children(k, lambda argv, cwd: next(
            (rules[a] for a in argv if a in rules), None))
        k.load = lambda now: 0.5
        k.next_event = lambda: None if any(
            x.done and not x.reaped for x in c.started) else (
                c.events[0][0] if c.events else None)
        with vos.Session(k, {'IWYU_BINARY': IWYU}, popen.make_popen(k, c)):
            p = k.run(tool.program('iwyu_tool.py'),
                      ['iwyu_tool.py', '-p', '/sim/build', '-j',
                       str(plan['jobs']), '--'] + self.extra(),
                      cwd=SRC, filename='/sim/bin/iwyu_tool.py')
        self.note(k, p, 'iwyu_tool')
        return bytes(p.out['stdout']), p.status, results

    def note(self, k, p, what):
        out = self.out
        out.steps += k.steps
        out.sim_time += k.now - 1000.0
        out.log.extend(k.log_lines[:400])
        out.hash = frame.key(out.hash + k.trace.hexdigest() + repr(p.status) +
                             frame.key(repr(sorted(self.fs.files(SRC).items()))))
        if p.status == 'escaped':
            raise RuntimeError('outside the simulation: %s' % p.error)
        if p.status == 'hung':
            out.fail('hang', '%s does not finish' % what)
        elif p.error:
            out.fail('crash', '%s ended with %s' % (
                what, ' / '.join(p.error.strip().splitlines()[-3:])))
        for f in k.faults:
            if f.fired:
                out.faults['%s-%s' % (what, f.action)] += f.fired

    # --- editing ------------------------------------------------------------------
    def edit(self, stream, kill=None, power=None):
        """One run of fix_includes.  Returns (process, states the project was
        in, as file systems are seen by others)."""
        states = []
        k = vos.Kernel(self.fs, [kill] if kill else [])
        k.max_steps = 20000

        def look(op, path):
            t = self.texts_or_none()
            if t is not None and (not states or states[-1] != t):
                states.append(t)
        k.invariant = look
        with vos.Session(k):
            p = k.run(tool.program('fix_includes.py'),
                      ['fix_includes.py'] + self.sc['flags'], stream, SRC,
                      '/sim/bin/fix_includes.py')
        self.note(k, p, 'fix_includes')
        if p.status == 'killed' and power is not None:
            import random
            rng = random.Random(power)
            self.fs = self.fs.after_power_loss(lambda label, n:
                                               rng.randrange(n))
            self.out.faults['power-loss'] += 1
        return p, states

    def texts_or_none(self):
        t = self.texts()
        return {n: t.get(n) for n in self.start}

    # --- judging --------------------------------------------------------------
    def compiles(self, texts, what):
        """Do all units of these texts compile?"""
        for t in self.prog['tus']:
            name = t['main']['name']
            files = {'%s/%s' % (SRC, n): x.encode() for n, x in texts.items()
                     if x is not None}
            key = ('compile', name, tuple(sorted(files.items())))
            if key not in self.cache:
                w = S.World(files, cwd=SRC)
                self.cache[key] = A.analyser().run(
                    ['-I.', name], w, seed=1, mode=2)
                self.out.steps += self.cache[key].ops
            r = self.cache[key]
            if r.code or b'error:' in r.output:
                self.out.fail('does-not-compile', '%s does not compile %s: %s' %
                              (name, what, next(
                                  (l for l in r.output.decode(
                                      errors='replace').split('\n')
                                   if 'error:' in l), 'exit %d' % r.code)))
                return False
        return True

    def code_kept(self, texts, what):
        for n, old in self.start.items():
            if texts.get(n) is None:
                self.out.fail('file-lost', '%s is gone %s' % (n, what))
                return False
            a = P.code_lines(self.prog, n, old)
            b = P.code_lines(self.prog, n, texts[n])
            if a != b:
                diff = [x for x in a if x not in b] or \
                    [x for x in b if x not in a] or ['order']
                self.out.fail('code-changed', '%s: code changed %s: %s' % (
                    n, what, diff[0]))
                return False
        return True


def place(f, base):
    from .props import C12
    return C12.place(f, base)


def gen_plan(rng, n, faulty):
    from .props import C12
    kids = []
    for _ in range(n):
        kid = {'env': A.gen_env(rng), 'start': round(rng.random() * 0.5, 3),
               'end': round(0.5 + rng.random() * 3, 3),
               'cut': round(rng.random(), 3), 'fault': None}
        kid['env']['noise'] = 0
        if faulty and rng.random() < 0.5:
            kid['fault'] = C12.gen_fault(rng)
        kids.append(kid)
    return {'jobs': rng.choice([1, 2, 3, 4]), 'kids': kids}
