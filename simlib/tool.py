"""Workload, execution and oracles for iwyu_tool.py."""
import json
import os
import posixpath
import re
import shlex

from . import frame, popen, vos

IWYU = '/sim/bin/include-what-you-use'
PROJ = '/sim/proj'
_code = {}


def program(name):
    path = os.path.join(frame.REPO, name)
    if name not in _code:
        with open(path, 'rb') as f:
            src = f.read()
        _code[name] = compile(src, '/sim/bin/' + name, 'exec')
    return _code[name]


# --- reports ----------------------------------------------------------------

HEADERS = ['<vector>', '<string>', '<map>', '<stdio.h>', '"util/log.h"',
           '"base/types.h"', '"net/socket.h"', '<memory>', '"a b.h"',
           '"x/y/z.hpp"', '<sys/types.h>', '<algorithm>']
DECLS = ['class Foo;', 'namespace n { class Bar; }', 'struct Baz;',
         'template <typename T> class Tpl;', 'namespace a { namespace b { '
         'struct Qux; } }']
SYMBOLS = ['vector', 'string, basic_string', 'printf', 'Foo', 'operator<<',
           'size_t', 'map<>::iterator']
NOISE = ['%s:12:3: warning: unused variable \'x\' [-Wunused-variable]',
         'In file included from %s:3:',
         '%s:7:10: note: expanded from macro \'CHECK\'',
         'warning: unknown warning option \'-Wfoo\' for %s',
         '  int x = f(%s);  // caf\u00e9 \u2014 \u65e5\u672c',
         '1 warning generated for %s.']


def gen_records(rng, tag, n):
    """Structured report records: what one analysis says about n files."""
    recs = []
    for i in range(n):
        name = '/sim/proj/%s_%d.%s' % (tag, i, rng.choice(['h', 'cc', 'hpp']))
        if rng.random() < 0.3:
            recs.append({'file': name, 'correct': True})
            continue
        adds = []
        for h in rng.sample(HEADERS, rng.randrange(0, 4)):
            adds.append(['#include ' + h,
                         'for ' + rng.choice(SYMBOLS)
                         if rng.random() < 0.8 else None])
        for d in rng.sample(DECLS, rng.randrange(0, 2)):
            adds.append([d, None])
        removes = []
        for h in rng.sample(HEADERS, rng.randrange(0, 3)):
            line = rng.randrange(1, 900)
            removes.append(['#include ' + h, line, line])
        if rng.random() < 0.2:
            line = rng.randrange(1, 900)
            removes.append([rng.choice(DECLS), line, line + rng.randrange(3)])
        recs.append({'file': name, 'correct': False, 'adds': adds,
                     'removes': removes})
    return recs


def report_text(recs):
    out = []
    for r in recs:
        if r['correct']:
            out.append('\n(%s has correct #includes/fwd-decls)\n' % r['file'])
            continue
        out.append('\n%s should add these lines:\n' % r['file'])
        for line, why in r['adds']:
            out.append(line + ('  // %s' % why if why else '') + '\n')
        out.append('\n%s should remove these lines:\n' % r['file'])
        for line, a, b in r['removes']:
            out.append('- %s  // lines %d-%d\n' % (line, a, b))
        out.append('\nThe full include-list for %s:\n' % r['file'])
        for line, why in r['adds']:
            out.append(line + ('  // %s' % why if why else '') + '\n')
        out.append('---\n')
    return ''.join(out)


def clang_lines(recs, style):
    """The reference for the clang-like formats."""
    out = []
    for r in recs:
        if r['correct']:
            out.append('%s:1:1: note: #includes/fwd-decls are correct'
                       % r['file'])
            continue
        for line, why in r['adds']:
            out.append("%s:1:1: %s: add '%s'%s" % (
                r['file'], style, line, ' (%s)' % why if why else ''))
        for line, a, b in r['removes']:
            out.append("%s:%d:1: %s: superfluous '%s'" % (r['file'], a, style,
                                                          line))
    return out


# --- scenarios ----------------------------------------------------------------

def gen_entry(rng, i, cfg):
    sub = rng.choice(['', 'lib', 'lib/core', 'app', 'app sp', 'tools'])
    d = posixpath.join(PROJ, sub) if sub else PROJ
    ext = rng.choice(['cc', 'cpp', 'c', 'cxx'])
    name = '%s.%s' % ('f%d' % i if rng.random() < 0.7 else
                      rng.choice(['main', 'util']), ext)
    rel = rng.random() < 0.4
    directory = rng.choice([d, PROJ, PROJ + '/build'])
    full = posixpath.join(d, name)
    if rel:
        file = posixpath.relpath(full, directory)
        if rng.random() < 0.3:
            file = './' + file
    else:
        file = full
    args = []
    for _ in range(rng.randrange(0, 5)):
        args.append(rng.choice(['-I.', '-Iinclude', '-std=c++17', '-O2', '-DX=1',
                                '-DNAME="a b"', "-DQ='c'", '-Wall', '-w',
                                '-DS=a\\b', '-isystem', '/usr/x y/include',
                                '-c', '-fPIC']))
    args.append('-DU=%d' % i)
    args.append(file)
    compiler = rng.choice(['clang++', '/usr/bin/c++', 'gcc', 'cc'])
    r = rng.random()
    if r < 0.08:
        compiler = rng.choice(['clang-cl', 'C:/VC/bin/cl.exe'])
    argv = [compiler] + args
    if rng.random() < 0.1:
        argv = ['ccache'] + argv
    recs = gen_records(rng, 'r%d' % i, rng.choice([0, 1, 1, 2, 3]))
    noise = [rng.choice(NOISE) % file for _ in range(rng.choice([0, 0, 1, 3]))]
    e = {'file': file, 'full': full, 'directory': directory, 'argv': argv,
         'style': rng.choice(['arguments', 'command']),
         'records': recs, 'noise': noise, 'big': 0, 'fault': None,
         'code': rng.choice([0, 0, 0, 1, 2, 3, 77, 255])
         if cfg.get('codes', True) else 0}
    if rng.random() < 0.05:
        e['big'] = rng.choice([5000, 70000, 300000])
    gen_timing(rng, e)
    return e


def gen_timing(rng, e):
    scale = rng.choice([0.001, 0.05, 1.0, 1.0, 30.0])
    e['end'] = round(rng.random() * scale, 6)
    k = rng.choice([1, 1, 1, 2, 3, 7])
    e['cuts'] = sorted(round(rng.random(), 4) for _ in range(k - 1))
    e['when'] = sorted(round(rng.random() * e['end'], 6) for _ in range(k))


def gen_common(rng, cfg):
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
    entries = [gen_entry(rng, i, cfg) for i in range(n)]
    rng.shuffle(entries)
    sc = {'entries': entries, 'cpus': rng.choice([1, 2, 4, 16]),
          'db_as_dir': rng.random() < 0.5, 'verbose': rng.random() < 0.3,
          'format': rng.choice(['iwyu', 'iwyu', None, 'clang',
                                'clang-warning']),
          'extra': rng.choice([[], [], ['-Xiwyu', '--error=3'],
                               ['-Xiwyu', '--mapping_file=a b.imp', '-w']]),
          'sources': gen_sources(rng, entries),
          'faults': [], 'db': 'ok'}
    gen_schedule(rng, sc, cfg)
    return sc


def gen_schedule(rng, sc, cfg):
    sc['jobs'] = rng.choice(cfg.get('jobs') or [None, 1, 2, 3, 4, 8, 20, 0,
                                                'flag'])
    sc['load'] = None
    sc['loads'] = [[0, 0.5]]
    if rng.random() < cfg.get('load', 0.3):
        sc['load'] = rng.choice([0.5, 1, 1.5, 2, 4, 8])
        t = 0
        loads = []
        for _ in range(rng.randrange(1, 8)):
            loads.append([round(t, 4), round(rng.choice(
                [0, 0.3, 0.99, 1, 1.2, 2, 3.5, 4, 7.9, 8, 50]), 3)])
            t += rng.random() * rng.choice([0.01, 1, 20])
        sc['loads'] = loads


def gen_sources(rng, entries):
    if rng.random() < 0.6 or not entries:
        return []
    r = rng.random()
    if r < 0.5:
        pick = rng.sample(entries, rng.randrange(1, len(entries) + 1))
        out = []
        for e in pick:
            out.append(rng.choice([e['full'],
                                   posixpath.relpath(e['full'], PROJ)]))
        if rng.random() < 0.3:        # selections may overlap
            out += rng.sample(out, 1) + rng.choice([
                ['lib'], ['app/.'], [PROJ], [pick[0]['full']]])
            rng.shuffle(out)
        return out
    dirs = rng.sample(['lib', 'app', 'app sp', 'tools', 'build'],
                      rng.randrange(1, 4))
    out = [rng.choice([d, d + '/', './' + d, PROJ + '/' + d]) for d in dirs]
    if rng.random() < 0.2:
        out.append('missing.cc')
    return out


def output_of(e):
    """(bytes, is this output damaged)"""
    text = ''.join(n + '\n' for n in e['noise'])
    if e['big']:
        text += ('/sim/proj/big.h:1:2: note: ' + 'x' * 60 + '\n') * (e['big'] // 90)
    text += report_text(e['records'])
    if e['records'] or e['noise'] or e['big']:
        text += 'marker %d end\n' % int(re.search(
            r'-DU=(\d+)', ' '.join(e['argv'])).group(1))
    data = text.encode()
    f = e['fault']
    if f is None:
        return data, False
    if f['kind'] == 'kill':
        return data[:int(len(data) * f['at'])], True
    if f['kind'] == 'bytes':
        pos = int(len(data) * f['at'])
        return data[:pos] + bytes.fromhex(f['data']) + data[pos:], True
    if f['kind'] == 'empty':
        return b'', True
    if f['kind'] == 'noline':
        return data.replace(b'  // lines ', b'  // '), True
    return data, False


def behaviour(e, index):
    data, _ = output_of(e)
    cuts = [0] + [int(c * len(data)) for c in e['cuts']] + [len(data)]
    pieces = [data[a:b] for a, b in zip(cuts, cuts[1:])]
    when = e['when'][:len(pieces)]
    while len(when) < len(pieces):
        when.append(e['end'])
    b = {'index': index, 'chunks': [[t, p] for t, p in zip(when, pieces)],
         'end': e['end'], 'code': e['code']}
    f = e['fault']
    if f and f['kind'] == 'kill':
        b['code'] = -f['signal']
    if f and f['kind'] == 'spawn':
        b['spawn_error'] = f['err']
    return b


def expected(sc):
    """The reference: which commands must run, [(entry, argv, cwd)]."""
    out = []
    sources = [posixpath.normpath(posixpath.join(PROJ, s))
               for s in sc['sources']]
    for i, e in enumerate(sc['entries']):
        if sources:
            n = sum(1 for s in sources
                    if e['full'] == s or e['full'].startswith(s + '/'))
            if not n:
                continue
        argv = list(e['argv'])
        if argv[0] == 'ccache':
            argv = argv[1:]
        cl = argv[0].endswith('clang-cl') or argv[0].endswith('cl.exe')
        out.append((i, [IWYU] + (['--driver-mode=cl'] if cl else []) +
                    sc['extra'] + argv[1:], e['directory']))
    return out


def worst(codes):
    neg = [c for c in codes if c < 0]
    return min(neg) if neg else max([0] + codes)


class Run(object):
    """One execution of iwyu_tool.py in a scenario."""
    def __init__(self, sc):
        self.sc = sc
        fs = vos.FileSystem()
        for d in ('', 'lib', 'lib/core', 'app', 'app sp', 'tools', 'build'):
            fs.makedirs(posixpath.join(PROJ, d))
        fs.put(IWYU, b'\x7fELF', 0o755)
        gone = set()
        for e in sc['entries']:
            fs.put(e['full'], b'int x;\n')
            if e['fault'] and e['fault']['kind'] == 'nodir':
                gone.add(e['directory'])
        db = []
        for i, e in enumerate(sc['entries']):
            d = {'file': e['file'], 'directory': e['directory']}
            if e['fault'] and e['fault']['kind'] == 'nodir':
                d['directory'] = e['directory'] + '/gone%d' % i
                d['file'] = e['full']
            if e['style'] == 'arguments':
                d['arguments'] = e['argv']
            else:
                d['command'] = ' '.join(shlex.quote(a) for a in e['argv'])
            db.append(d)
        text = json.dumps(db, indent=1)
        kind = sc['db']
        if kind == 'truncated':
            text = text[:len(text) * 2 // 3]
        elif kind == 'empty':
            text = ''
        elif kind == 'garbage':
            text = '\0\1\2' + text
        data = text.encode()
        if kind == 'binary':
            data = b'\xff\xfe' + data
        path = PROJ + '/build/compile_commands.json'
        if kind != 'missing':
            fs.put(path, data, 0o000 if kind == 'unreadable' else 0o644)
        k = self.k = vos.Kernel(fs, sc['faults'])
        k.cpus = sc['cpus']
        k.max_steps = 60000 + 4000 * len(sc['entries'])
        by_marker = {}
        for i, e in enumerate(sc['entries']):
            m = [a for a in e['argv'] if a.startswith('-DU=')][0]
            by_marker[m] = behaviour(e, i)

        def match(argv, cwd):
            for a in argv:
                if a in by_marker:
                    return by_marker[a]
            return None
        self.children = c = popen.Children(k, match)
        t0 = k.now
        loads = sc['loads']

        def load(now):
            v = loads[0][1]
            for t, x in loads:
                if now - t0 >= t:
                    v = x
            self.last_load = v
            return v
        self.last_load = None
        k.load = load

        def next_event():
            if any(x.done and not x.reaped for x in c.started):
                return None          # something to do first
            times = [c.events[0][0]] if c.events else []
            times += [t0 + t for t, _ in loads[1:] if t0 + t > k.now]
            return min(times) if times else None
        k.next_event = next_event
        self.starts = []           # (time, running before, load)

        def on_start(child):
            self.starts.append((k.now, c.running(), load(k.now), child,
                                k.steps))
        c.on_start = on_start
        argv = ['iwyu_tool.py'] + (['-j'] if sc['jobs'] == 'flag' else [])
        argv += ['-p', PROJ + '/build' if sc['db_as_dir'] else path]
        if isinstance(sc['jobs'], int):
            argv += ['-j', str(sc['jobs'])]
        if sc['load'] is not None:
            argv += ['-l', str(sc['load'])]
        if sc['verbose']:
            argv += ['-v']
        if sc['format']:
            argv += ['-o', sc['format']]
        argv += sc['sources']
        if sc['extra']:
            argv += ['--'] + sc['extra']
        with vos.Session(k, {'IWYU_BINARY': IWYU},
                         popen.make_popen(k, c)):
            self.p = k.run(program('iwyu_tool.py'), argv, cwd=PROJ,
                           filename='/sim/bin/iwyu_tool.py')
        self.stdout = bytes(self.p.out['stdout'])
        self.stderr = bytes(self.p.out['stderr'])
        self.status = self.p.status
        self.want = expected(sc)
        if any(e['fault'] and e['fault']['kind'] == 'nodir'
               for e in sc['entries']):
            self.want = [(i, a, (self.sc['entries'][i]['directory'] +
                                 '/gone%d' % i)
                          if self.sc['entries'][i]['fault'] and
                          self.sc['entries'][i]['fault']['kind'] == 'nodir'
                          else c) for i, a, c in self.want]
        self.jobs = {None: 1, 'flag': sc['cpus'], 0: sc['cpus']}.get(
            sc['jobs'], sc['jobs'])

    def block(self, i):
        """The text that must appear for healthy entry i."""
        e = self.sc['entries'][i]
        data, _ = output_of(e)
        fmt = self.sc['format']
        if fmt in ('clang', 'clang-warning'):
            style = 'error' if fmt == 'clang' else 'warning'
            lines = [l for l in ''.join(n + '\n' for n in e['noise'])
                     .splitlines()]
            if e['big']:
                lines += ['/sim/proj/big.h:1:2: note: ' + 'x' * 60] * \
                    (e['big'] // 90)
            lines += clang_lines(e['records'], style)
            if data:
                lines.append(data.decode().splitlines()[-1])
            return ('\n'.join(l for l in lines) + '\n').encode()
        return data + b'\n'

    def interleaving(self):
        """A key for the order of starts, ends and prints of this run."""
        return ','.join('%s%s' % (h[0][0], h[1].index)
                        for h in self.children.history)

    def outcome(self, out):
        out.steps += self.k.steps
        out.sim_time += self.k.now - 1000.0
        out.states.add(self.interleaving())
        out.log.extend(self.k.log_lines)
        out.hash = frame.key(out.hash + self.k.trace.hexdigest() +
                             repr(self.status))
        for f in self.k.faults:
            if f.fired:
                out.faults['%s:%s' % (f.op, f.err or f.action)] += f.fired


def check_exactly_once(run, out):
    """Every selected command ran once, as given, and printed once, whole."""
    want = sorted((a, c) for _, a, c in run.want)
    got = sorted((c.argv, c.cwd) for h, c in run.children.history
                 if h in ('start', 'spawn-failed'))
    if want != got:
        missing = [w for w in want if w not in got]
        extra = [g for g in got if g not in want]
        out.fail('wrong-commands',
                 'commands run differ from the database selection: missing '
                 '%s, unexpected %s, %d started for %d selected' %
                 (missing[:2], extra[:2], len(got), len(want)))


def check_blocks(run, out, faulty=()):
    """Standard output is the blocks of the healthy entries, in some order,
    plus (only) what the faulty ones said."""
    rest = run.stdout
    spans = []
    for i, _, _ in run.want:
        if i in faulty:
            continue
        b = run.block(i)
        if not b.strip():
            continue
        n = rest.count(b)
        if n != 1:
            near = b[:120]
            out.fail('report-lost' if n == 0 else 'report-repeated',
                     'report of %s is printed %d times, complete and in one '
                     'piece (it starts %r)' %
                     (run.sc['entries'][i]['file'], n, near))
            return
        at = rest.index(b)
        rest = rest[:at] + b'\0' + rest[at + len(b):]
    if not faulty and rest.replace(b'\0', b'').strip():
        out.fail('report-garbled', 'output has text that belongs to no report,'
                 ' or a report is not in one piece: %r' %
                 rest.replace(b'\0', b'')[:200])


def check_sane(run, out):
    if run.status == 'hung':
        out.fail('hang', 'iwyu_tool made no progress any more after %d steps '
                 'and %.1f simulated seconds: %d of %d analyses had started, '
                 '%d had ended' % (run.k.steps, run.k.now - 1000,
                                   len(run.children.started), len(run.want),
                                   sum(c.done for c in run.children.started)))
        return False
    if run.status == 'escaped':
        raise RuntimeError('outside the simulation: %s' % run.p.error)
    if run.p.error:
        out.fail('crash', 'iwyu_tool ended with %s' %
                 run.p.error.strip().splitlines()[-1])
        return False
    return True


def shrink(sc):
    """Smaller scenarios of this kind."""
    n = len(sc['entries'])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for a in range(0, n, size):
            s = dict(sc, entries=sc['entries'][:a] + sc['entries'][a + size:])
            yield s
    for i in range(len(sc['faults'])):
        yield dict(sc, faults=sc['faults'][:i] + sc['faults'][i + 1:])
    for field, simple in (('verbose', False), ('format', None), ('extra', []),
                          ('sources', []), ('load', None),
                          ('loads', [[0, 0.5]]), ('db_as_dir', True),
                          ('cpus', 1)):
        if sc[field] != simple:
            yield dict(sc, **{field: simple})
    if isinstance(sc['jobs'], int) and sc['jobs'] > 2:
        yield dict(sc, jobs=2)
        yield dict(sc, jobs=sc['jobs'] - 1)
    for i, e in enumerate(sc['entries']):
        for change in ({'records': []}, {'noise': []}, {'big': 0},
                       {'cuts': []}, {'fault': None}, {'code': 0},
                       {'style': 'arguments'},
                       {'end': 1.0, 'when': [0.5], 'cuts': []},
                       {'records': e['records'][:1]},
                       {'argv': ['cc', [a for a in e['argv'] if a.startswith(
                           '-DU=')][0], e['file']]}):
            if any(e[f] != v for f, v in change.items()):
                s = dict(sc, entries=list(sc['entries']))
                s['entries'][i] = dict(e, **change)
                yield s
