"""Workload, execution and oracles for fix_includes.py."""
import json
import os
import posixpath
import re

from . import frame, tool, vos

PROJ = '/sim/proj'
POOL = ['<vector>', '<string>', '<map>', '<set>', '<stdio.h>', '<stddef.h>',
        '<sys/types.h>', '<memory>', '"base/log.h"', '"base/log-inl.h"',
        '"net/socket.h"', '"x/y/z.hpp"', '"util.h"', '<algorithm>',
        '<linux/kernel.h>', '"a b.h"', '<boost/any.hpp>', '"proj/core.h"',
        '<c++/impl>', '"../up.h"', '<cstdint>', '<string.h>', '"q/r-s.h"']
ENCS = ['ascii', 'ascii', 'ascii', 'utf-8', 'utf-8', 'utf-8-sig', 'cp1252',
        'raw']
SPECIAL = {'ascii': '', 'utf-8': '\u00e9\u65e5\u672c\u2014\U0001f600',
           'utf-8-sig': '\u00fc\u4e2d', 'cp1252': '\u00e9\u00fc\u00df\u2014',
           'raw': '\x81\x98\xe9\xff'}
FLAGS = [['--noupdate_comments', '--blank_lines'],
         ['--comments', '--nokeep_iwyu_namespace_format'], [], [], ['--reorder'], ['--comments'], ['--noblank_lines'],
         ['--quoted_includes_first', '--reorder'],
         ['--separate_project_includes=<tld>'],
         ['--separate_project_includes=proj', '--reorder'],
         ['-m'], ['--update_comments'], ['--reorder', '--comments'],
         ['--noreorder', '--nocomments', '-b']]


class Ids(object):
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


# --- source files -----------------------------------------------------------

def _special(rng, enc, rate=0.3):
    s = SPECIAL[enc]
    return ' ' + rng.choice(s) if s and rng.random() < rate else ''


def _inc(rng, ids, h, enc):
    i = ids.next()
    x = rng.choice(['#include %s', '#include %s', '#include %s', '# include %s',
                    '#include  %s', '#  include\t%s']) % h
    if rng.random() < 0.2:
        x += '  // for %s%s' % (rng.choice(tool.SYMBOLS), _special(rng, enc))
    elif rng.random() < 0.1:
        x += rng.choice(['  // see a.h', ' // 1.2', '  // f.', '// <x.h>',
                         '  // was "old.h"'])
    elif rng.random() < 0.1:
        x += '  // IWYU pragma: ' + rng.choice(['keep', 'export', 'keep',
                                                'associated'])
    return {'x': x, 'k': 'inc', 'id': i, 'h': h}


def _comment(rng, ids, enc):
    i = ids.next()
    return {'x': rng.choice(['// note %d', '// #include <old%d>', '/* block %d */',
                             '// %d: see "x"', '//%d']) % i +
            ('' if rng.random() < 0.7 else _special(rng, enc, 1)
             if False else ''),
            'k': 'comment', 'id': i}


def _pragma(rng, ids, enc):
    i = ids.next()
    return {'x': rng.choice([
        '// IWYU pragma: no_include "n%d.h"', '// IWYU pragma: begin_keep  // %d',
        '/* IWYU pragma: no_forward_declare N%d */',
        '// IWYU pragma: end_keep  // %d', '// IWYU pragma: begin_exports  // %d',
        '// IWYU pragma: private, include "p%d.h"']) % i, 'k': 'pragma', 'id': i}


def _code(rng, ids, enc):
    i = ids.next()
    x = rng.choice(['int v%d = 0;', 'static const char* s%d = "text";',
                    '#define M%d 1', 'using T%d = int;', 'extern int e%d;',
                    '#pragma warning(disable: %d)', 'typedef int t%d;',
                    'char c%d = \'x\';  // trailing', 'int w%d; /* more */',
                    '  int indented%d;', '\tint tabbed%d;',
                    'int a%d; \x0c', 'const char* u%d = "#include <no>";',
                    'static_assert(sizeof(int) >= %d - %d, "");' % (i, i)
                    + ' // %d', 'int trailing%d;   ']) % i
    s = _special(rng, enc, 0.4)
    if s:
        x += '  //' + s
    return {'x': x, 'k': 'code', 'id': i}


def _fwd(rng, ids):
    i = ids.next()
    if rng.random() < 0.2:
        return [{'x': 'template <typename T>', 'k': 'fwd', 'id': i,
                 'n': 'F%d' % i},
                {'x': 'class F%d;' % i, 'k': 'fwd', 'id': i, 'cont': True,
                 'n': 'F%d' % i}]
    return [{'x': '%s F%d;' % (rng.choice(['class', 'struct', 'union']), i),
             'k': 'fwd', 'id': i, 'n': 'F%d' % i}]


def _blank():
    return {'x': '', 'k': 'blank', 'id': 0}


def _block(rng, ids, enc, pool, dup, most=6):
    out = []
    for _ in range(rng.randrange(1, most)):
        if rng.random() < 0.15:
            for _ in range(rng.randrange(1, 3)):
                out.append(_comment(rng, ids, enc))
        if not pool:
            break
        h = pool[-1] if rng.random() < dup else pool.pop()
        out.append(_inc(rng, ids, h, enc))
        if rng.random() < 0.15:
            out.append(_blank())
    return out


def _function(rng, ids, enc):
    i = ids.next()
    return [{'x': 'void f%d() {' % i, 'k': 'code', 'id': i},
            {'x': '  g(%d);' % i, 'k': 'code', 'id': i},
            {'x': '}  // f%d' % i, 'k': 'code', 'id': i}]


def _namespace(rng, ids, enc, depth=0):
    i = ids.next()
    name = rng.choice(['n%d' % i, 'n%d' % i, 'm', 'p', 'k'])
    style = rng.choice(['same', 'same', 'allman', 'mixed', 'double'])
    end = '}  // namespace %s' % name
    if style == 'same':
        head = ['namespace %s {' % name]
    elif style == 'allman':
        head = ['namespace %s' % name, '{']
    else:
        head = ['namespace %s { namespace k%s' % (
            name, ' {' if style == 'double' else '')]
        if style == 'mixed':
            head.append('{')
        end = '} ' + end
    body = []
    if depth < 2 and rng.random() < 0.3:
        body.extend(_namespace(rng, ids, enc, depth + 1))
    for _ in range(rng.randrange(0, 3)):
        body.extend(_fwd(rng, ids))
    if rng.random() < 0.5:
        body.append(_code(rng, ids, enc))
    if rng.random() < 0.3:
        body.extend(_function(rng, ids, enc))
    if depth < 2 and rng.random() < 0.2:
        body.extend(_namespace(rng, ids, enc, depth + 1))
    return [{'x': h, 'k': 'ns', 'id': i} for h in head] + body + [
        {'x': end, 'k': 'nsend', 'id': i}]


def _class(rng, ids, enc):
    """A class with a nested forward declaration."""
    i = ids.next()
    n = _fwd(rng, ids)
    for l in n:
        l['x'] = '  ' + l['x']
        l['in'] = 'K%d' % i
    return [{'x': 'class K%d {' % i, 'k': 'code', 'id': i}] + n + [
        {'x': '  %s* q%d;' % (n[0]['n'], i), 'k': 'code', 'id': i},
        {'x': '};  // K%d' % i, 'k': 'code', 'id': i}]


def _cond(rng, ids, enc, pool, depth=0):
    i = ids.next()
    out = [{'x': rng.choice(['#ifdef C%d', '#if defined(C%d)', '#ifndef C%d',
                             '# if C%d > 1']) % i, 'k': 'if', 'id': i}]

    def body():
        r = rng.random()
        if r < 0.6:
            out.extend(_block(rng, ids, enc, pool, 0.0))
        if r > 0.5:
            out.append(_code(rng, ids, enc))
        if depth < 1 and rng.random() < 0.15:
            out.extend(_cond(rng, ids, enc, pool, depth + 1))
    body()
    if rng.random() < 0.3:
        out.append({'x': rng.choice(['#else  // C%d', '#elif D%d']) % i,
                    'k': 'else', 'id': i})
        body()
    out.append({'x': '#endif  // C%d' % i, 'k': 'endif', 'id': i})
    return out


def gen_file(rng, ids, i, cfg):
    enc = rng.choice(cfg.get('encs', ENCS))
    header = rng.random() < 0.5
    name = '%sf%d.%s' % (rng.choice(['', 'lib/', 'app sp/', 'lib/core/']), i,
                         rng.choice(['h', 'hpp', 'hh', 'inc']) if header else
                         rng.choice(['cc', 'cpp', 'c', 'cxx', 'C', 'c++']))
    pool = list(cfg.get('pool', POOL))
    rng.shuffle(pool)
    if not header:
        pool.append('"%s.h"' % posixpath.splitext(name)[0])
    groups = []
    if rng.random() < 0.4:
        groups.append([_comment(rng, ids, enc) for _ in range(
            rng.randrange(1, 4))] + ([_blank()] if rng.random() < 0.8 else []))
    guard = None
    if header:
        g = ids.next()
        r = rng.random()
        if r < 0.6:
            guard = g
            groups.append([{'x': '#ifndef G%d_H_' % g, 'k': 'guard', 'id': g},
                           {'x': '#define G%d_H_' % g, 'k': 'guard', 'id': g}])
        elif r < 0.8:
            groups.append([{'x': '#pragma once', 'k': 'code', 'id': g}])
    makers = {
        'inc': lambda: _block(rng, ids, enc, pool, cfg.get('dup', 0.05),
                              cfg.get('block', 6)),
        'cond': lambda: _cond(rng, ids, enc, pool),
        'ns': lambda: _namespace(rng, ids, enc),
        'fwd': lambda: [x for _ in range(rng.randrange(1, 3))
                        for x in _fwd(rng, ids)],
        'code': lambda: [_code(rng, ids, enc) for _ in range(
            rng.randrange(1, 4))],
        'func': lambda: _function(rng, ids, enc),
        'class': lambda: _class(rng, ids, enc),
        'comment': lambda: [_comment(rng, ids, enc)],
        'pragma': lambda: [_pragma(rng, ids, enc)] + _block(
            rng, ids, enc, pool, 0.0, 3),
    }
    plan = rng.choice(cfg.get('plans') or [['inc', 'code'], ['inc', 'inc', 'fwd', 'code', 'ns'],
                       ['inc', 'cond', 'fwd', 'ns', 'code', 'func'],
                       ['inc'], [], ['code'], ['comment'],
                       ['inc', 'pragma', 'pragma', 'inc', 'code'],
                       ['inc', 'ns', 'ns', 'class'], ['inc', 'class', 'inc'],
                       ['inc', 'code', 'inc', 'code'],
                       ['fwd', 'inc', 'ns'], ['cond', 'code'],
                       ['cond'], ['comment', 'cond', 'comment'],
                       [rng.choice(sorted(makers)) for _ in range(6)]])
    for kind in plan:
        groups.append(makers[kind]())
        if rng.random() < 0.6:
            groups.append([_blank() for _ in range(rng.choice([1, 1, 1, 2]))])
    if guard:
        groups.append([{'x': '#endif  // G%d' % guard, 'k': 'guard',
                        'id': guard}])
    if rng.random() < 0.1:
        groups.append([_comment(rng, ids, enc)])
    eol = rng.choice(['\n', '\n', '\n', '\r\n', 'mixed'])
    for g in groups:
        for line in g:
            line['e'] = eol if eol != 'mixed' else rng.choice(['\n', '\r\n',
                                                               '\n'])
    return {'name': name, 'enc': enc, 'groups': groups,
            'mode': rng.choice([0o644, 0o644, 0o755, 0o600, 0o664]),
            'link': rng.random() < 0.08, 'final': rng.random() < 0.9}


def lines_of(f):
    return [line for g in f['groups'] for line in g]


def encode(f, text):
    if f['enc'] == 'raw':
        return text.encode('latin-1')
    enc = 'utf-8' if f['enc'] == 'utf-8-sig' else f['enc']
    return text.encode(enc)


def content(f):
    ls = lines_of(f)
    out = [encode(f, l['x'] + l['e']) for l in ls]
    if out and not f['final']:
        out[-1] = encode(f, ls[-1]['x'])
    data = b''.join(out)
    return b'\xef\xbb\xbf' + data if f['enc'] == 'utf-8-sig' else data


# --- reports ----------------------------------------------------------------

def gen_record(rng, ids, f, fi, cfg):
    ls = lines_of(f)
    movable = sorted({(l['id'], l['k']) for l in ls if l['k'] in ('inc', 'fwd')})
    r = rng.random()
    if r < cfg.get('correct', 0.12):
        return {'file': fi, 'correct': True}
    remove = [i for i, k in movable if rng.random() < 0.4]
    have = {l['h'] for l in ls if l['k'] == 'inc'}
    adds = []
    pool = cfg.get('pool', POOL)
    for h in rng.sample(pool, rng.randrange(0, 4)):
        if h not in have or rng.random() < 0.1:
            adds.append({'h': h, 'why': rng.choice(tool.SYMBOLS)
                         if rng.random() < 0.8 else None})
    if rng.random() < 0.3:
        i = ids.next()
        ns = rng.choice([[], [], ['m'], ['m', 'k'], ['p']])
        adds.append({'fwd': 'A%d' % i, 'ns': ns,
                     'kind': rng.choice(['class', 'struct',
                                         'template <typename T> class'])})
    return {'file': fi, 'correct': False, 'remove': remove, 'adds': adds,
            'numbered': rng.random() < 0.3, 'spell': gen_spell(rng, f, cfg)}


def gen_spell(rng, f, cfg):
    full = PROJ + '/' + f['name']
    r = rng.random()
    if r < 0.7 or cfg.get('plain'):
        return full
    if r < 0.8:
        return PROJ + '/./' + f['name']
    if r < 0.9:
        return PROJ + '/lib/../' + f['name']
    return f['name']


def add_line(a):
    if 'h' in a:
        return '#include ' + a['h'] + ('  // for %s' % a['why']
                                       if a['why'] else '')
    return ''.join('namespace %s { ' % n for n in a['ns']) + '%s %s;' % (
        a['kind'], a['fwd']) + ' }' * len(a['ns'])


def spans(f):
    """id -> (first line, last line), counted from 1."""
    out = {}
    for n, l in enumerate(lines_of(f), 1):
        if l['k'] in ('inc', 'fwd'):
            a, _ = out.get(l['id'], (n, n))
            out[l['id']] = (a, n)
    return out


def stale_line(f, how):
    """The number of a line that is no #include."""
    ls = lines_of(f)
    code = [i + 1 for i, l in enumerate(ls) if l['k'] == 'code']
    if how == 'code' and code:
        return code[len(code) // 2]
    return len(ls) + (1 if how == 'next' else 9000)


def record_text(files, r, shift=0):
    f = files[r['file']]
    name = r.get('spell') or PROJ + '/' + f['name']
    if r['correct']:
        return '\n(%s has correct #includes/fwd-decls)\n' % name
    sp = spans(f)
    first = {}
    for l in lines_of(f):
        if l['k'] in ('inc', 'fwd'):
            first.setdefault(l['id'], l)

    def text(i):
        l = first[i]
        if l['k'] == 'inc':
            return '#include ' + l['h']
        return 'class %s;' % '::'.join(x for x in (l.get('in'), l['n']) if x)
    out = ['\n%s should add these lines:\n' % name]
    for a in r['adds']:
        out.append(add_line(a) + '\n')
    out.append('\n%s should remove these lines:\n' % name)
    for i in r['remove']:
        if i in sp:
            out.append('- %s  // lines %d-%d\n' % (
                text(i), sp[i][0] + shift, sp[i][1] + shift))
    out.append('\nThe full include-list for %s:\n' % name)
    for i in sorted(sp):
        if i in r['remove'] or i in r.get('unseen', ()):
            continue
        if first[i]['k'] == 'fwd' or r.get('numbered'):
            out.append('%s  // lines %d-%d\n' % (text(i), sp[i][0] + shift,
                                                 sp[i][1] + shift))
        else:
            out.append('%s  // for %s\n' % (text(i), 'kept_%d' % i))
    for a in r['adds']:
        out.append(add_line(a) + '\n')
    if r.get('stale'):
        n = stale_line(f, r['stale'])
        out.append('#include "was_here.h"  // lines %d-%d\n' % (n, n))
    out.append('---\n')
    return ''.join(out)


def gen_common(rng, cfg):
    ids = Ids()
    n = rng.choice(cfg.get('n', [1, 1, 2, 3, 4]))
    files = [gen_file(rng, ids, i, cfg) for i in range(n)]
    units = []
    for _ in range(rng.choice(cfg.get('units', [1, 1, 2, 3, 5]))):
        u = {'records': [], 'noise': []}
        for fi in rng.sample(range(n), rng.randrange(1, n + 1)):
            u['records'].append(gen_record(rng, ids, files[fi], fi, cfg))
        if rng.random() < 0.3:
            u['noise'] = [rng.choice(tool.NOISE) % 'x.cc'
                          for _ in range(rng.randrange(1, 3))]
        units.append(u)
    flags = list(rng.choice(FLAGS))
    if rng.random() < cfg.get('unsafe', 0.5):
        flags.append('--nosafe_headers')
    elif rng.random() < 0.3:
        flags.append('--safe_headers')
    return {'files': files, 'units': units, 'flags': flags,
            'basedir': rng.random() < 0.3, 'faults': [], 'args': [],
            'extra': rng.random() < 0.5}


def unit_text(sc, u):
    out = ''.join(n + '\n' for n in u['noise'])
    for r in u['records']:
        out += record_text(sc['files'], r, u.get('shift', 0))
    return out + '\n'


def stream(sc, units=None):
    return ''.join(unit_text(sc, u)
                   for u in (sc['units'] if units is None else units)).encode()


# --- execution ----------------------------------------------------------------

def make_fs(sc):
    fs = vos.FileSystem()
    for d in ('', 'lib', 'lib/core', 'app sp', 'store'):
        fs.makedirs(posixpath.join(PROJ, d))
    for i, f in enumerate(sc['files']):
        path = PROJ + '/' + f['name']
        if f.get('missing'):
            continue
        if f['link']:
            real = PROJ + '/store/r%d' % i
            fs.put(real, content(f), f['mode'])
            fs.put_link(path, real)
        else:
            fs.put(path, content(f), f['mode'])
    if sc.get('extra'):
        fs.put(PROJ + '/lib/other.h', b'#include <vector>\nint keep;\n')
        fs.put(PROJ + '/README', b'read me\n')
    fs.settle()
    return fs


def real_path(sc, i):
    f = sc['files'][i]
    return PROJ + ('/store/r%d' % i if f['link'] else '/' + f['name'])


def argv_of(sc, more=()):
    out = ['fix_includes.py'] + sc['flags'] + list(more)
    if sc['basedir']:
        out += ['--basedir', PROJ]
    return out + sc['args']


class Run(object):
    """One or more instances of fix_includes.py on the files of a scenario."""
    def __init__(self, sc, streams=None, fs=None, faults=None, schedule=None,
                 hook=None, argvs=None, step_hook=None):
        self.fs = fs or make_fs(sc)
        self.before = self.fs.files()
        k = self.k = vos.Kernel(self.fs, sc['faults'] if faults is None
                                else faults, schedule)
        k.max_steps = 20000
        if hook:
            k.invariant = lambda op, path: hook(self, op, path)
        if step_hook:
            k.on_step = lambda op, path: step_hook(self, op, path)
        code = tool.program('fix_includes.py')
        streams = [stream(sc)] if streams is None else streams
        with vos.Session(k):
            if len(streams) == 1:
                self.procs = [k.run(code, argvs[0] if argvs else argv_of(sc),
                                    streams[0], PROJ,
                                    '/sim/bin/fix_includes.py')]
            else:
                self.procs = k.run_all([
                    (code, argvs[i] if argvs else argv_of(sc), s, PROJ,
                     '/sim/bin/fix_includes.py')
                    for i, s in enumerate(streams)])
        self.p = self.procs[0]
        self.status = self.p.status
        self.stdout = bytes(self.p.out['stdout'])
        self.after = self.fs.files()

    def add_to(self, out):
        out.steps += self.k.steps
        out.log.extend(self.k.log_lines[:1500])
        out.hash = frame.key(out.hash + self.k.trace.hexdigest() + repr(
            [p.status for p in self.procs]) + frame.key(repr(sorted(
                self.after.items()))))
        for f in self.k.faults:
            if f.fired:
                out.faults['%s:%s' % (f.op, f.err or f.action)] += f.fired


def sane(run, out, what='fix_includes'):
    for p in run.procs:
        if p.status == 'hung':
            out.fail('hang', '%s does not finish (%d steps)' % (what,
                                                               run.k.steps))
            return False
        if p.status == 'escaped':
            raise RuntimeError('outside the simulation: %s' % p.error)
        if p.error:
            out.fail('crash', '%s ended with %s' % (
                what, ' / '.join(p.error.strip().splitlines()[-3:])))
            return False
    return True


# --- what must come out ----------------------------------------------------------

HEADER_NOT = ('.c', '.C', '.cc', '.CC', '.cxx', '.CXX', '.cpp', '.CPP', '.c++',
              '.C++', '.cp')


def several_mains(f):
    """Whether more than one #include of file f may count as that of its own
    header: by name only the first does, and sorting may change which it is."""
    def base(x):
        return re.sub(r'(_unittest|_regtest|_test|-inl)$', '',
                      posixpath.splitext(posixpath.basename(x))[0])
    return len([l for l in lines_of(f) if l['k'] == 'inc' and (
        'associated' in l['x'] or
        base(l['h'][1:-1]).lower() == base(f['name']).lower())]) > 1


def last(sc, name):
    """The last of --name and --noname wins."""
    return ([False] + [f == '--' + name for f in sc['flags']
                       if f in ('--' + name, '--no' + name)])[-1]


def plan(sc, units=None):
    """Per file: what the reports together ask for; None: nothing to do."""
    got = {}
    for u in (sc['units'] if units is None else units):
        for r in u['records']:
            got.setdefault(r['file'], []).append(r)
    out = {}
    for fi, rs in got.items():
        if sc['files'][fi].get('missing'):
            continue
        remove = None
        adds = []
        for r in rs:
            mine = set() if r['correct'] else set(r['remove'])
            remove = mine if remove is None else remove & mine
            for a in ([] if r['correct'] else r['adds']):
                if a not in adds:
                    adds.append(a)
        present = {l['id'] for l in lines_of(sc['files'][fi])}
        remove &= present
        if not remove and not adds and not last(sc, 'update_comments'):
            continue
        f = sc['files'][fi]
        header = posixpath.splitext(f['name'])[1] not in HEADER_NOT
        safe = header and '--nosafe_headers' not in sc['flags']
        out[fi] = {'remove': set() if safe else remove, 'adds': adds,
                   'keep_all': safe}
    return out


INC = re.compile(rb'\s*#\s*include\s+([<"][^">]+[>"])')


def scan(lines):
    """For each line: (number of enclosing or preceding things, stack)."""
    stack = []
    out = []
    for raw in lines:
        s = raw.strip()
        code = re.sub(rb'"[^"]*"', b'', s.split(b'//')[0])
        if re.match(rb'#\s*if', s):
            stack.append(s)
            out.append(tuple(stack[:-1]))
            continue
        if re.match(rb'#\s*(else|elif)', s):
            base = len(stack) - 1
            while base >= 0 and not stack[base].startswith(b'#'):
                base -= 1
            out.append(tuple(stack[:base]))
            if base >= 0:
                stack[base] = stack[base].split(b'|')[0] + b'|' + s
            continue
        if re.match(rb'#\s*endif', s):
            while stack and not stack[-1].startswith(b'#'):
                stack.pop()
            if stack:
                stack.pop()
            out.append(tuple(stack))
            continue
        if s.startswith(b'#') or s.startswith(b'/*'):
            out.append(tuple(stack))
            continue
        if s.startswith(b'}'):
            for _ in re.match(rb'[} ]*', s).group(0).replace(b' ', b''):
                if stack and not stack[-1].startswith(b'#'):
                    stack.pop()
            out.append(tuple(stack))
            continue
        depth = len(stack)
        label = None
        for m in re.finditer(rb'namespace\s+(\w+)|\{|\}', code):
            if m.group(1):
                label = b'namespace ' + m.group(1)
            elif m.group(0) == b'{':
                stack.append(label or getattr(scan, 'pending', None) or b'{')
                label = None
            elif len(stack) > depth:
                stack.pop()
        if label:
            scan.pending = label
        else:
            scan.pending = None
        out.append(tuple(stack))
    scan.pending = None
    return out


def verify(sc, fi, want, data, out):
    """Is data a correct edit of file fi?"""
    f = sc['files'][fi]
    name = f['name']
    bom = b'\xef\xbb\xbf'

    def fail(kind, msg):
        out.fail(kind, '%s: %s' % (name, msg))
        return False
    if f['enc'] == 'utf-8-sig':
        if not data.startswith(bom):
            return fail('encoding', 'byte order mark lost')
        data = data[3:]
        if data.startswith(bom):
            return fail('encoding', 'byte order mark doubled')
    ls = lines_of(f)
    old = [encode(f, l['x']) for l in ls]
    got = data.split(b'\n')
    got_e = [g + b'\n' for g in got[:-1]] + [got[-1]]
    if got[-1] == b'':
        got.pop()
        got_e.pop()
    bare = [g.rstrip() for g in got]
    remove = want['remove']
    # 1. Code: same bytes, same order, once.
    code = []
    for n, l in enumerate(ls):
        if l['k'] in ('code', 'guard', 'pragma') and not vanished_guard(f, l, remove,
                                                             want):
            e = encode(f, l['x'] + l['e'])
            if n == len(ls) - 1 and not f['final']:
                e = encode(f, l['x'])
                for end in (b'\n', b'\r\n'):
                    if e + end in got_e:      # something was put after it
                        e += end
            code.append(e)
    known = set(code)
    seen = [g for g in got_e if g in known]
    if seen != code:
        missing = [c for c in code if c not in seen]
        if not missing and sorted(seen) == sorted(code):
            return fail('code-moved', 'code lines were reordered')
        return fail('code-lost', 'code line %r %s' % (
            (missing or [c for c in code if seen.count(c) != 1])[0],
            'is gone or changed' if missing else 'appears %d times' %
            seen.count([c for c in code if seen.count(c) != 1][0])))
    # 2. Nothing that was not there before or asked for.
    allowed = {}
    for o in old:
        allowed[o.rstrip()] = allowed.get(o.rstrip(), 0) + 1
    add_names = set()
    add_incs = {}
    for a in want['adds']:
        if 'h' in a:
            add_incs[a['h'].encode()] = a
        else:
            add_names.add(a['fwd'].encode())
    nss = {n.encode() for a in want['adds'] if 'fwd' in a for n in a['ns']}
    inc_got = {}
    for n, (raw, b) in enumerate(zip(got, bare)):
        m = INC.match(b)
        if m:
            inc_got.setdefault(m.group(1), []).append(n)
            continue
        if not b:
            continue
        if allowed.get(b, 0) > 0:
            allowed[b] -= 1
            continue
        m = re.match(rb'namespace (\w+) \{$', b) or \
            re.match(rb'\}  // namespace (\w+)$', b)
        if m and m.group(1) in nss:
            continue
        m = re.search(rb'(?:class|struct) (A\d+);', b)
        if m and m.group(1) in add_names:
            continue
        return fail('text-invented', 'line %r was neither in the file nor in '
                    'the report' % raw)
    # 3. Includes: exactly those that were kept or added.
    kept = {}
    for n, l in enumerate(ls):
        if l['k'] == 'inc' and l['id'] not in remove:
            kept.setdefault(l['h'].encode(), []).append(n)
    for h in sorted(set(kept) | set(add_incs)):
        n = len(inc_got.get(h, []))
        most = len(kept.get(h, [])) + (1 if h in add_incs else 0)
        if not 1 <= n <= most or want['keep_all'] and n < len(kept.get(h, [])):
            return fail('include-lost' if n == 0 else 'include-count',
                        '%s %s: found %d times, expected 1 to %d' %
                        (h.decode(), 'was to be added' if h in add_incs
                         else 'was to stay', n, most))
    for h in inc_got:
        if h not in kept and h not in add_incs:
            was = any(l['k'] == 'inc' and l['h'].encode() == h for l in ls)
            return fail('include-kept' if was else 'include-invented',
                        '%s %s' % (h.decode(), 'was to be removed' if was
                                   else 'was never mentioned'))
    # 4. Forward declarations.
    for l in ls:
        if l['k'] == 'fwd' and not l.get('cont'):
            pat = re.compile(rb'\b(class|struct|union) %s;' % l['n'].encode())
            n = sum(1 for b in bare if pat.search(b))
            if n != (0 if l['id'] in remove else 1):
                return fail('decl-lost' if n == 0 else 'decl-kept',
                            'declaration of %s found %d times' % (l['n'], n))
    got_stacks = scan(got)
    for a in want['adds']:
        if 'fwd' in a:
            pat = re.compile(rb'\b(class|struct) %s;' % a['fwd'].encode())
            at = [n for n, b in enumerate(bare) if pat.search(b)]
            if len(at) != 1:
                return fail('decl-lost', 'new declaration of %s found %d times'
                            % (a['fwd'], len(at)))
            stack = [s for s in got_stacks[at[0]] if s.startswith(b'namespace')]
            inline = [b'namespace ' + x for x in re.findall(
                rb'namespace (\w+) \{', bare[at[0]])]
            if stack + inline != [b'namespace ' + x.encode()
                                  for x in a['ns']]:
                return fail('decl-misplaced', 'new declaration of %s is in %s, '
                            'not in %s' % (a['fwd'], stack + inline, a['ns']))
    # 5. Kept includes and declarations stay between the same code, in the
    # same conditional; new includes are in no conditional but a guard.
    old_stacks = scan(old)

    def before(lines, upto):
        return sum(1 for x in lines[:upto] if x in known)
    old_e = [encode(f, l['x'] + l['e']) for l in ls]
    if ls and not f['final']:
        old_e[-1] = old[-1]
    for h, where in kept.items():
        if len(where) == 1 and h not in add_incs and len(inc_got[h]) == 1:
            a = (before(old_e, where[0]), conds(old_stacks[where[0]]))
            b = (before(got_e, inc_got[h][0]), conds(got_stacks[inc_got[h][0]]))
            if a != b:
                return fail('include-moved', '%s moved across code or '
                            'conditionals: %s, then %s' % (h.decode(), a, b))
    whole = whole_file_cond(ls, old)
    for h in add_incs:
        if h in kept:
            continue
        st = [s for s in got_stacks[inc_got[h][0]]
              if s.split(b'|')[0] not in whole]
        if [s for s in st if s.startswith(b'#')]:
            return fail('include-misplaced', 'new %s is inside %s' %
                        (h.decode(), st))
    # Where no #include shows the place, new ones are put above all code.
    if not any(l['k'] == 'inc' and not [
            c for c in conds(old_stacks[n]) if c.split(b'|')[0] not in whole]
               for n, l in enumerate(ls)):
        first = None
        for n, l in enumerate(ls):
            if l['k'] in ('code', 'ns') and not l['x'].startswith('#') and \
                    old_e[n] in known:
                first = got_e.index(old_e[n])
                break
        for h in add_incs:
            if first is not None and inc_got[h][0] > first:
                return fail('include-late', 'new %s stands below %r' % (
                    h.decode(), got[first]))
    # 6. Conditionals and namespaces stay balanced, and go only when empty.
    depth = 0
    for b in bare:
        if re.match(rb'\s*#\s*if', b):
            depth += 1
        elif re.match(rb'\s*#\s*endif', b):
            depth -= 1
        if depth < 0:
            break
    if depth:
        return fail('unbalanced', 'conditionals do not match')
    have = {}
    for b in bare:
        have[b] = have.get(b, 0) + 1
    gone = gone_lines(f, remove) if not want['keep_all'] else set()
    for n, l in enumerate(ls):
        if l['k'] in ('if', 'else', 'endif', 'ns', 'nsend', 'comment', 'fwd'):
            if n in gone:
                continue
            if not have.get(old[n].rstrip()):
                return fail('line-lost', 'line %r is gone' % old[n])
    for n in must_go(ls, remove) if not want['keep_all'] else ():
        m = re.match(rb'namespace (\w+)|\}  // namespace (\w+)', old[n])
        if m and (m.group(1) or m.group(2)) in nss:
            continue                       # may be a new one
        if sum(o == old[n] for o in old) == 1 and have.get(old[n].rstrip()):
            return fail('empty-kept', 'line %r encloses nothing any more, but '
                        'is still there' % old[n])
    # 7. Lines moved or added end as most lines do.
    crlf = sum(1 for l in ls[:len(ls) if f['final'] else -1] if l['e'] == '\r\n')
    lf = len(ls) - crlf - (0 if f['final'] else 1)
    if crlf != lf:
        eol = b'\r\n' if crlf > lf else b'\n'
        for h in add_incs:
            g = got_e[inc_got[h][-1]]
            if h not in kept and not g.endswith(eol) or \
                    eol == b'\n' and h not in kept and g.endswith(b'\r\n'):
                return fail('line-ending', 'new %s ends with %r' %
                            (h.decode(), g[-2:]))
    return True


def vanished_guard(f, l, remove, want):
    """A guard around nothing at all may go like any empty conditional."""
    if l['k'] != 'guard':
        return False
    return any(x['k'] == 'guard' and x['id'] == l['id'] and
               x['x'].startswith('#define') for x in lines_of(f)) is False


def conds(stack):
    return tuple(s for s in stack if s.startswith(b'#'))


def whole_file_cond(ls, old):
    """Texts of conditionals that enclose the whole file, like a guard."""
    out = set()
    for l in ls:
        if l['k'] == 'guard' and l['x'].startswith('#ifndef'):
            out.add(l['x'].encode())
    # Any conditional may become the only thing in the file once other lines
    # are removed; which are, the caller does not say.  So: outermost ones
    # with no code outside.
    depth = 0
    outside = False
    tops = []
    for n, l in enumerate(ls):
        if l['k'] == 'if':
            if depth == 0:
                tops.append(old[n].strip())
            depth += 1
        elif l['k'] == 'endif':
            depth -= 1
        elif depth == 0 and l['k'] in ('code', 'ns') and \
                not l['x'].startswith('#pragma once'):
            outside = True
    if not outside:
        out.update(tops)
    return out


def gone_lines(f, remove):
    """Line indices that may go: removed items, comments before them, and
    whatever encloses nothing any more."""
    ls = lines_of(f)
    seen = set()
    gone = set()
    for n, l in enumerate(ls):
        if l['k'] in ('inc', 'fwd') and l['id'] in remove:
            gone.add(n)
        elif l['k'] == 'inc':
            if l['h'] in seen:
                gone.add(n)            # a duplicate may go
            seen.add(l['h'])
    again = True
    while again:
        again = False
        for kind, first, last in (('if', 'if', 'endif'), ('ns', 'ns',
                                                         'nsend')):
            for n, l in enumerate(ls):
                if l['k'] != first or n in gone:
                    continue
                end = [m for m in range(n, len(ls)) if ls[m]['k'] == last and
                       ls[m]['id'] == l['id']]
                if not end:
                    continue
                inner = range(n, end[0] + 1)
                if all(m in gone or ls[m]['k'] in ('blank', 'comment') or
                       ls[m]['id'] == l['id'] for m in inner):
                    gone.update(inner)
                    again = True
    for n in sorted(gone, reverse=True):
        m = n - 1
        while m >= 0 and ls[m]['k'] in ('comment', 'blank'):
            gone.add(m)
            m -= 1
    return gone


def must_go(ls, remove):
    """Lines of the conditionals and namespaces a removal has emptied."""
    gone = {n for n, l in enumerate(ls)
            if l['k'] in ('inc', 'fwd') and l['id'] in remove}
    out = set()
    again = True
    while again:
        again = False
        for first, last in (('if', 'endif'), ('ns', 'nsend')):
            for n, l in enumerate(ls):
                if l['k'] != first or n in out or n and ls[n - 1]['k'] == \
                        first and ls[n - 1]['id'] == l['id']:
                    continue
                end = next(m for m in range(n, len(ls)) if ls[m]['k'] == last
                           and ls[m]['id'] == l['id'])
                inner = range(n, end + 1)
                if any(m in gone for m in inner) and all(
                        m in gone or m in out or ls[m]['id'] == l['id'] or
                        ls[m]['k'] in ('blank', 'comment') for m in inner):
                    out.update(m for m in inner if ls[m]['id'] == l['id'])
                    again = True
    return sorted(out)


def shrink(sc):
    for field in ('units', 'faults', 'args'):
        for i in range(len(sc[field])):
            yield dict(sc, **{field: sc[field][:i] + sc[field][i + 1:]})
    for i, u in enumerate(sc['units']):
        for j in range(len(u['records'])):
            units = list(sc['units'])
            units[i] = dict(u, records=u['records'][:j] + u['records'][j + 1:])
            yield dict(sc, units=units)
        if u['noise']:
            units = list(sc['units'])
            units[i] = dict(u, noise=[])
            yield dict(sc, units=units)
    for i in range(len(sc['flags'])):
        yield dict(sc, flags=sc['flags'][:i] + sc['flags'][i + 1:])
    used = {r['file'] for u in sc['units'] for r in u['records']}
    for i, f in enumerate(sc['files']):
        def put(g):
            files = list(sc['files'])
            files[i] = g
            return dict(sc, files=files)
        if i not in used and f['groups']:
            yield put(dict(f, groups=[]))
        for j, g in enumerate(f['groups']):
            if any(l['k'] == 'guard' for l in g):
                continue
            yield put(dict(f, groups=f['groups'][:j] + f['groups'][j + 1:]))
            for m, l in enumerate(g):
                if l['k'] in ('comment', 'blank', 'inc', 'pragma') or \
                        l['k'] == 'code' and sum(
                            x['id'] == l['id'] for x in g) == 1 or \
                        l['k'] == 'fwd' and not any(
                            x.get('cont') and x['id'] == l['id'] for x in g):
                    groups = list(f['groups'])
                    groups[j] = g[:m] + g[m + 1:]
                    yield put(dict(f, groups=groups))
        if f['link']:
            yield put(dict(f, link=False))
        if not f['final']:
            yield put(dict(f, final=True))
        if f['enc'] != 'ascii' and all(ord(c) < 128 for l in lines_of(f)
                                       for c in l['x']):
            yield put(dict(f, enc='ascii'))
        if any(l['e'] != '\n' for l in lines_of(f)):
            yield put(dict(f, groups=[[dict(l, e='\n') for l in g]
                                      for g in f['groups']]))
    for i, u in enumerate(sc['units']):
        for j, r in enumerate(u['records']):
            def putr(s):
                units = list(sc['units'])
                units[i] = dict(u, records=u['records'][:j] + [s] +
                                u['records'][j + 1:])
                return dict(sc, units=units)
            if r['correct']:
                continue
            for m in range(len(r['adds'])):
                yield putr(dict(r, adds=r['adds'][:m] + r['adds'][m + 1:]))
            for m in range(len(r['remove'])):
                yield putr(dict(r, remove=r['remove'][:m] +
                                r['remove'][m + 1:]))
            full = PROJ + '/' + sc['files'][r['file']]['name']
            if r['spell'] != full:
                yield putr(dict(r, spell=full))
            if r['numbered']:
                yield putr(dict(r, numbered=False))
    for field, simple in (('basedir', False), ('extra', False)):
        if sc[field] != simple:
            yield dict(sc, **{field: simple})
