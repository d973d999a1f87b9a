"""Programs with every construct whose treatment might depend on chance.

They come without expectations: only the same report in every environment is
expected.  Several headers offer the same symbols (through mappings, pragmas
and headers included several times), several files share a name, and filler
spreads what belongs together over the compiler's memory.
"""
import json
import re

SRC = '/sim/src'


def _filler(rng, tag):
    n = rng.choice([0, 0, 10, 40, 100])
    return ['inline int %s%d(int a, long b) { return a + (int)b + %d; }' % (
        tag, i, i) for i in range(n)]


def _leaf(rng, i, known):
    """The text of the header that defines what module i offers."""
    out = ['namespace n%d {' % i]
    out.append('struct S%d { S%d(); S%d(int); ~S%d(); int m() const; int v; };'
               % (i, i, i, i))
    out += rng.sample([
        'typedef S%d T%d;' % (i, i),
        'using W%d = S%d*;' % (i, i),
        'enum class E%d { x, y };' % i,
        'int f%d(const S%d&);' % (i, i),
        'int over(const S%d&);' % i,
        'int over(int, const S%d&);' % i,
        'inline int operator+(const S%d& s, int n) { return s.v + n; }' % i,
        'S%d make%d();' % (i, i),
        'extern S%d global%d;' % (i, i),
        'struct F%d;' % i,
        'template <class A> struct P%d { A a; int go() { return a.m(); } };' % i,
        'template <class A, class B = S%d> struct Q%d { A* a; B b; int go() '
        '{ return a->m() + b.m(); } };' % (i, i),
        'template <class A, class B> int g%d(A& a, B& b) '
        '{ return a.m() + b.m(); }' % i,
        'template <class A, class B> int h%d() { A a; B b; '
        'return a.m() + b.m(); }' % i,
        'template <class A> int call%d(A& a) { return over(a); }' % i,
        'template <class A, class B> struct Z%d { A a; B b; '
        'Z%d(); ~Z%d() {} };' % (i, i, i),
        'template <class T> struct R%d; template <class R, class A> struct '
        'R%d<R(A, A)> { A a; int go() { return a.m(); } };' % (i, i),
    ], 17)
    if known and rng.random() < 0.4:
        j = rng.choice(known)
        out.append(rng.choice([
            'typedef n%d::S%d Alias%d;' % (j, j, i),
            'struct D%d : n%d::S%d { n%d::S%d more; };' % (i, j, j, j, j),
            'using n%d::S%d;' % (j, j)]))
    out.append('}')
    if True:
        out.append('#define M%d(x) ((x) + %d)' % (i, i))
    out += _filler(rng, 'z%d_' % i)
    return out


def _use(rng, n, mods):
    i, j = rng.choice(mods), rng.choice(mods)
    d = {'n': n, 'i': i, 'j': j}
    return rng.choice([
        'n%(i)d::S%(i)d v%(n)d;',
        'int u%(n)d(n%(i)d::S%(i)d& a, n%(j)d::S%(j)d& b) '
        '{ return a.m() + b.v; }',
        'int u%(n)d(n%(i)d::S%(i)d* a) { return a->m(); }',
        'n%(i)d::S%(i)d* p%(n)d;',
        'using n%(i)d::S%(i)d;', 'using n%(i)d::f%(i)d;',
        'using n%(i)d::make%(i)d;',
        'n%(i)d::T%(i)d v%(n)d;', 'n%(i)d::P%(i)d<n%(j)d::S%(j)d> v%(n)d;',
        'int u%(n)d() { n%(i)d::P%(i)d<n%(j)d::S%(j)d> p; return p.go(); }',
        'int u%(n)d() { n%(i)d::Q%(i)d<n%(j)d::S%(j)d> p; return p.go(); }',
        'int u%(n)d() { return n%(i)d::h%(i)d<n%(i)d::S%(i)d, '
        'n%(j)d::S%(j)d>(); }',
        'int u%(n)d(n%(i)d::S%(i)d& a, n%(j)d::S%(j)d& b) '
        '{ return n%(i)d::g%(i)d(a, b); }',
        'int u%(n)d(n%(i)d::T%(i)d& a, n%(i)d::S%(i)d& b) '
        '{ return n%(j)d::g%(j)d(a, b); }',
        'int u%(n)d(n%(i)d::S%(i)d& a) { return n%(j)d::call%(j)d(a); }',
        'int u%(n)d() { return n%(i)d::f%(i)d(%(n)d); }',
        'int u%(n)d() { return n%(i)d::make%(i)d().m(); }',
        'int u%(n)d() { return n%(i)d::global%(i)d + 1; }',
        'struct V%(n)d : n%(i)d::S%(i)d { n%(j)d::S%(j)d x; };',
        'struct V%(n)d { n%(i)d::S%(i)d x; n%(j)d::S%(j)d y; };',
        'int w%(n)d = M%(i)d(%(n)d);',
        'int w%(n)d = (int)n%(i)d::E%(i)d::x + M%(j)d(1);',
        'template <class X> int u%(n)d(X& x) { return over(x) + '
        'n%(i)d::over(x); }',
        'int u%(n)d(n%(i)d::S%(i)d& s) { auto f = [&](n%(j)d::S%(j)d t) '
        '{ return t.m() + s.v; }; return f(%(n)d); }',
        'n%(i)d::R%(i)d<void(n%(j)d::S%(j)d, n%(j)d::T%(j)d)> v%(n)d;',
        'struct D%(n)d { n%(i)d::S%(i)d a; n%(j)d::T%(j)d b; '
        'inline ~D%(n)d(); }; D%(n)d::~D%(n)d() {}',
        'n%(i)d::Z%(i)d<n%(i)d::S%(i)d, n%(j)d::S%(j)d> z%(n)d;',
        'int u%(n)d() { n%(i)d::Z%(i)d<n%(i)d::S%(i)d, n%(j)d::S%(j)d> z; '
        'return z.a.v; }',
        'std::deque<n%(i)d::S%(i)d> q%(n)d;',
        'std::map<n%(i)d::S%(i)d, n%(j)d::S%(j)d> q%(n)d;',
        'int u%(n)d(std::map<n%(i)d::S%(i)d, n%(j)d::T%(j)d>& x) '
        '{ return x.size() + x.k.m(); }',
        'template <class X> void t%(n)d(X x) { over(x); n%(i)d::S%(i)d s; '
        'n%(i)d::f%(i)d(s); }',
        'namespace n%(i)d { struct S%(i)d; class X%(n)d; }',
        'n%(i)d::F%(i)d* q%(n)d;', 'n%(i)d::W%(i)d q%(n)d;',
        'namespace n%(i)d { inline int k%(n)d(S%(i)d& s) { return s.m(); } }',
        'extern template struct n%(i)d::P%(i)d<n%(j)d::S%(j)d>;',
        'template struct n%(i)d::P%(i)d<n%(j)d::S%(j)d>;',
    ]) % d


STD = {'deque': ['#pragma once', '#include "alloc"', 'namespace std {',
                 'template <class T, class A = allocator<T>> struct deque '
                 '{ T t; A a; int size() { return t.m(); } };', '}'],
       'map': ['#pragma once', '#include "less"', '#include "alloc"',
               'namespace std {', 'template <class K, class V, '
               'class C = less<K>, class A = allocator<pair<K, V>>> struct '
               'map { K k; V v; C c; A a; int size() { return k.m() + '
               'v.m(); } };', '}'],
       'less': ['#pragma once', 'namespace std { template <class T> struct '
                'less { bool go(T& t) { return t.m(); } }; }'],
       'alloc': ['#pragma once', 'namespace std { template <class T> struct '
                 'allocator { void go(T t) {} }; template <class A, class B> '
                 'struct pair { A a; B b; }; }']}


def _reachable(body, files):
    seen, todo = set(), [body]
    while todo:
        for x in re.findall(r'#include(?:_next)? "(.*?)"', '\n'.join(todo.pop())):
            for name in (x, 'a/' + x, 'b/' + x, 'c/' + x):
                if name in files and name not in seen:
                    seen.add(name)
                    todo.append(files[name])
    return seen


def _uses(rng, start, count, body, files):
    out = []
    seen = _reachable(body, files)
    mods = sorted(int(re.sub(r'\D', '', x)) for x in seen
                  if re.match(r'(in/)?t\d', x))
    if not mods:
        return out
    odds = [o for x in sorted(seen) if x.endswith('/x.h') for o in files[x]
            if 'TWICE' in o]
    defaulted = [w for x in sorted(seen) for o in files.get(x, [])
                 for w in re.findall(r'struct (H\d[abc])', o)]
    for k in range(count):
        if defaulted and rng.random() < 0.2:
            out.append(rng.choice([
                '%s<> d%d;', 'template <class X> int d%d(X& x); '
                'inline int e%d(%s<>& x) { return x.go(); }']).replace(
                    '%d', str(start + k)) % rng.choice(defaulted))
            continue
        out.append(_use(rng, start + k, mods))
        if rng.random() < 0.15:
            out += _filler(rng, 'x%d_' % (start + k))
    if odds and rng.random() < 0.6:
        out.append('int t%d = %s(1);' % (
            start, rng.choice(odds).split()[1].split('(')[0]))
    for name in ('deque', 'map'):
        if any('std::' + name in x for x in out):
            at = max([k for k, x in enumerate(body) if x.startswith('#inc')]
                     + [-1]) + 1
            body.insert(at, '#include <%s>' % name)
    if start >= 100:     # in headers: no definitions of what may be repeated
        out = [x if '(' in x and '{' in x or 'template' in x or
               x.startswith(('using', 'struct', 'namespace', '#', 'inline'))
               else 'extern ' + x.split(' = ')[0].rstrip(';') + ';'
               for x in out]
    return out


def _join(body, uses):
    return body + uses


def generate(rng):
    n = rng.choice([2, 3, 4, 6])
    mods = list(range(n))
    files = {}
    dirs = rng.choice([[''], [''], ['a/', 'b/'], ['a/', 'b/', 'c/']])
    offers, hidden = {}, {}
    # Where each module is defined.
    for i in mods:
        known = mods[:i]
        text = _leaf(rng, i, known)
        name = rng.choice(['t%d.h', 't%d.h', 'in/t%d.h', 't%d.inc']) % i
        pragma = rng.choice(['', '', '// IWYU pragma: private',
                             '// IWYU pragma: private, include "h%d.h"' % (
                                 rng.randrange(3)),
                             '// IWYU pragma: friend "h.*"',
                             '// IWYU pragma: always_keep'])
        head = ['#pragma once'] + [pragma] * bool(pragma)
        for j in known:
            if 'n%d::' % j in '\n'.join(text):
                head.append('#include "%s"' % offers[j])
        if rng.random() < 0.2:
            # It uses a macro of whoever includes it.
            text += ['#ifdef VTYPE', 'struct Val%d { VTYPE v; };' % i,
                     '#endif']
            head = head[1:]
            text = ['#ifndef SEEN%d' % i, '#define SEEN%d' % i] + text + \
                ['#endif']
        files[name] = head + text
        offers[i] = name
        # (Contradictions about this are refused by an assertion.)
        hidden[i] = 'private' if 'private' in pragma or '#ifdef VTYPE' in text \
            else rng.choice(['private', 'private', 'public'])
    publics = []
    for k in range(rng.choice([1, 2, 3, 4])):
        name = 'h%d.h' % k
        body = ['#pragma once', '#define VTYPE int']
        region = rng.random() < 0.2
        if region:
            body.append('// IWYU pragma: begin_exports')
        for i in rng.sample(mods, rng.randrange(1, n + 1)):
            body.append('#include "%s"%s' % (offers[i], rng.choice([
                '', '', '  // IWYU pragma: export', '  // IWYU pragma: keep'])
                if not region else ''))
        if region:
            body.append('// IWYU pragma: end_exports')
        if publics and rng.random() < 0.3:
            body.append('#include "%s"' % rng.choice(publics))
        body.append('#undef VTYPE')
        if rng.random() < 0.5:
            # Defaults that the header itself may or may not provide.
            body += ['template <class X = n%d::%s%d> struct H%d%s { X x; '
                     'int go() { return x.m(); } };' % (
                         i, rng.choice('ST'), i, k, c)
                     for c, i in zip('abc', sorted(
                         int(re.sub(r'\D', '', x))
                         for x in _reachable(body, files)
                         if re.match(r'(in/)?t\d', x)))]
        if rng.random() < 0.3:
            body = _join(body, _uses(rng, 900 + k, 1, body, files))
        body += _filler(rng, 'y%d_' % k)
        files[name] = body
        publics.append(name)
    # Several files of one name.
    for k, d in enumerate(dirs):
        if d:
            body = ['#pragma once']
            if k + 1 < len(dirs):
                body.append('#include_next "x.h"')
            body += ['#include "%s"' % rng.choice(publics + list(
                offers.values())) for _ in range(rng.choice([0, 1, 2]))]
            body.append(rng.choice([
                '#define TWICE%d(n) ((n) * 2)' % k,
                'struct X%d { int v; void m(); };' % k,
                'template <class T> int x%d(T& t) { return t.m(); }' % k]))
            files[d + 'x.h'] = body
            publics.append('x.h')
    publics = sorted(set(publics))

    def text(first, count, start):
        body = []
        for _ in range(rng.choice([1, 2, 3])):
            body.append('#include "%s"' % rng.choice(
                publics * 2 + list(offers.values())))
        body = sorted(set(body), key=lambda x: rng.random())
        body = first + body
        if rng.random() < 0.2:
            body.append('// IWYU pragma: no_include "%s"' % rng.choice(publics))
        if rng.random() < 0.2:
            i = rng.choice(mods)
            body.append('// IWYU pragma: no_forward_declare n%d::S%d' % (i, i))
        return _join(body, _uses(rng, start, count, body, files))
    for k in range(rng.choice([0, 1, 1, 2])):
        files['u%d.h' % k] = text(['#pragma once'], rng.choice([1, 2, 4]),
                                  100 * k + 100)
    mine = [f for f in files if f[0] == 'u']
    first = ['#include "%s"' % f for f in mine if rng.random() < 0.8]
    files['u0.cc'] = text(first, rng.choice([2, 4, 8, 12]), 1)
    args = ['-I' + (d or '.') for d in dirs if d] + ['-I.']
    if rng.random() < 0.2:
        args.append('-isystem')
        args.append('in')
    if any('std::' in x for v in files.values() for x in v):
        files.update(('std/' + k, v) for k, v in STD.items())
        args += ['-isystem', 'std']
    if rng.random() < 0.1:
        args.append('-fdelayed-template-parsing')
    if rng.random() < 0.5:
        ms = []
        for i in mods:
            for h in rng.sample(publics, rng.randrange(0, len(publics) + 1)):
                if rng.random() < 0.1:
                    # What the header is for: some other, absent one.
                    ms.append({'include': ['"none%d.h"' % i, 'private',
                                           '"%s"' % rng.choice([h, offers[i]])
                                           if hidden[i] == 'public' else
                                           '"%s"' % h, 'public']})
                elif rng.random() < 0.6:
                    ms.append({'include': [
                        rng.choice(['"%s"' % offers[i], '@"(in/)?t%d\\..*"' % i]),
                        hidden[i],
                        '"%s"' % h, 'public']})
                elif rng.random() < 0.7:
                    ms.append({'symbol': ['n%d::%s%d' % (
                        i, rng.choice(['S', 'T', 'f', 'make', 'P']), i),
                        'private', '"%s"' % h, 'public']})
        rng.shuffle(ms)
        cut = rng.randrange(len(ms) + 1) if rng.random() < 0.3 else len(ms)
        more = ms[cut:]
        ms = ms[:cut]
        if more:
            files['in/more.imp'] = [json.dumps(more)]
            ms.append({'ref': rng.choice(['more.imp', 'in/more.imp'])})
            if ms[-1]['ref'] == 'more.imp':
                files['more.imp'] = files.pop('in/more.imp')
        files['m.imp'] = [json.dumps(ms)]
        args += ['-Xiwyu', '--mapping_file=m.imp']
    if mine and rng.random() < 0.8:
        args += ['-Xiwyu', '--check_also=%s' % rng.choice(
            ['*u*.h', '*.h', '*h?.h', '*x.h'])]
    for f in ('--no_fwd_decls', '--transitive_includes_only',
              '--update_comments', '--quoted_includes_first', '--cxx17ns',
              '--no_default_mappings', '--no_comments', '--error=3',
              '--keep=*h0.h', '--max_line_length=60', '--comment_style=long',
              '--comment_style=none', '--verbose=2', '--verbose=3',
              '--pch_in_code'):
        if rng.random() < 0.08:
            args += ['-Xiwyu', f]
    return {'files': files, 'args': args + ['u0.cc']}


def small(rng):
    """Small and dense: headers in a random graph, what they offer for, and
    uses that several of them can serve."""
    n = rng.choice([3, 4, 5, 6])
    dirs = rng.choice([[], [], ['a/', 'b/'], ['a/', 'b/', 'c/']])
    names, level = [], []
    for i in range(n):
        name = rng.choice(['f%d.h', 'f%d.h', 'f%d.inc', 'in/f%d.h']) % i
        names.append(name)
        level.append(rng.choice(['', '', '', 'private', 'public', 'public']))
    twins = rng.sample(range(n), len(dirs)) if dirs else []
    for k, i in enumerate(sorted(twins, reverse=True)):
        names[i] = dirs[k] + 'x.h'
        level[i] = ''
    lead = ['x.h' if x.endswith('/x.h') else x for x in names]
    files, sees = {}, {}
    for i in range(n):
        body = ['#pragma once']
        if level[i] == 'private' and rng.random() < 0.7:
            later = [j for j in range(i + 1, n) if level[j] == 'public']
            body.append('// IWYU pragma: private' + (
                ', include "%s"' % lead[rng.choice(later)]
                if later and rng.random() < 0.5 else ''))
        elif rng.random() < 0.1:
            body.append('// IWYU pragma: friend "%s"' % rng.choice(
                [lead[j].replace('.', '\\.') for j in range(n)] + ['.*']))
        sees[i] = {i}
        word = rng.random() < 0.3
        body += ['#define WORD X%d' % i] * word
        for j in rng.sample(range(i), i):
            if i in twins and j in twins:
                if j == max([x for x in twins if x < i]):
                    body.append('#include_next "x.h"')
                    sees[i] |= sees[j]
                continue
            if rng.random() < 0.55 and (j not in twins or
                                        j == max(twins) and i not in twins):
                body.append('#include "%s"%s' % (lead[j], rng.choice(
                    ['', '', '', '  // IWYU pragma: export',
                     '  // IWYU pragma: keep'])))
                sees[i] |= sees[j]
        body += ['#undef WORD'] * word + ['#define SAW%d' % i]
        body += ['#define M%d %d' % (i, i)] * (rng.random() < 0.3)
        body += ['struct C%d { C%d(); C%d(int); ~C%d(); int m(); int v; };' % (
            i, i, i, i), 'typedef C%d T%d;' % (i, i), 'struct D%d;' % i,
            'int f%d(C%d&);' % (i, i)]
        if rng.random() < 0.7:
            body.append('template <class X = %s%d> struct Q%d { X x; int go() '
                        '{ return x.m(); } };' % (
                            rng.choice('CT'), rng.choice(sorted(sees[i])), i))
        if rng.random() < 0.5:
            body.append('template <class X, class Y> int g%d(X& x, Y& y) '
                        '{ X z; Y w; return x.m() + y.m(); }' % i)
        if rng.random() < 0.3:
            j = rng.choice(sorted(sees[i]))
            body.append('template <class X> struct B%d { C%d c; X* x; ~B%d() '
                        '{ delete x; } };' % (i, j, i))
        if rng.random() < 0.3:
            j = rng.choice(sorted(sees[i]))
            body.append('int f%d(C%d&, int);' % (j, j))
        if rng.random() < 0.3:
            # Uses what its includer may have included before.
            j = rng.choice([j for j in range(n) if j != i])
            body += ['#ifdef SAW%d' % j, 'inline int o%d(C%d& c) { return '
                     'c.m(); }' % (i, j), '#endif']
        body += _filler(rng, 'z%d_' % i)[:rng.choice([0, 0, 30])]
        if rng.random() < 0.2:
            # For each includer another thing.
            body = ['#ifdef WORD', '#ifndef NAME%d' % i,
                    '#define NAME%d WORD' % i, '#endif', '#endif',
                    '#ifndef SEEN%d' % i, '#define SEEN%d' % i
                    ] + body[1:] + ['#endif']
        files[names[i]] = body
    # (Only the first of several files of one name can be asked for.)
    first = [j for j in range(n) if j not in twins or j == max(twins)]

    def use(k, seen):
        i, j = rng.choice(seen), rng.choice(seen)
        text = '\n'.join(files[names[i]])
        d = {'k': k, 'i': i, 'j': j}
        u = ['C%(i)d* p%(k)d;', 'inline int u%(k)d(C%(i)d& a, T%(j)d& b) '
             '{ return a.m() + b.v; }', 'extern T%(i)d v%(k)d;',
             'inline int u%(k)d(C%(i)d& a) { return f%(i)d(a); }',
             'struct V%(k)d : C%(i)d { T%(j)d t; };',
             'D%(i)d* d%(k)d();', 'struct V%(k)d { C%(i)d c; ~V%(k)d() {} '
             'C%(j)d d; };', 'struct C%(i)d; extern C%(i)d* e%(k)d;',
             'namespace n%(k)d { using ::C%(i)d; using ::f%(j)d; }',
             'namespace n%(k)d { using ::T%(i)d; }']
        if 'struct Q%d' % i in text:
            u += ['inline int u%(k)d(Q%(i)d<>& q) { return q.go(); }',
                  'inline int u%(k)d() { Q%(i)d<> q; return q.go(); }',
                  'inline int u%(k)d(Q%(i)d<T%(j)d>& q) { return q.go(); }',
                  'struct V%(k)d { Q%(i)d<> q; };'] * 2
        if 'int g%d' % i in text:
            u += ['inline int u%(k)d(C%(i)d& a, T%(j)d& b, C%(j)d& c) { '
                  'return g%(i)d(a, b) + g%(i)d(c, a); }',
                  'inline int u%(k)d(T%(j)d& a, C%(j)d& b) { '
                  'return g%(i)d(a, b); }',
                  'inline int u%(k)d(T%(j)d& a, C%(i)d& b) { '
                  'return g%(i)d(a, b); }'] * 2
        if 'struct B%d' % i in text:
            u += ['inline void u%(k)d() { B%(i)d<C%(j)d> b; }'] * 2
        if '#define M%d ' % i in text:
            u.append('static int w%(k)d = M%(i)d;')
        if 'define NAME%d' % i in text:
            u += ['struct NAME%(i)d;'] * 2
        return rng.choice(u) % d

    def text(head, k, count):
        body = list(head)
        body += ['#define WORD W%d' % (k % 3)] * (rng.random() < 0.3)
        got = rng.sample(first, min(len(first), rng.choice([1, 1, 2, 3])))
        if rng.random() < 0.5 and first[-1] not in got:
            got.append(first[-1])
        seen = set()
        for i in got:
            body.append('#include "%s"' % lead[i])
            seen |= sees[i]
        out = []
        for m in range(count):
            out.append(use(k + m, sorted(seen)))
            if rng.random() < 0.1:
                out += _filler(rng, 'y%d_' % (k + m))[:rng.choice([0, 50])]
        return body, out
    head = []
    if rng.random() < 0.3:
        body, out = text(['#pragma once'], 100, rng.choice([1, 2, 4]))
        files['u0.h'] = body + out
        head = ['#include "u0.h"']
    body, out = text(head, 1, rng.choice([1, 2, 4, 8]))
    if rng.random() < 0.2:
        cs = rng.sample(range(n), min(n, 2))
        out.append('std::map<%s> m;' % ', '.join(
            '%s%d' % (rng.choice('CT'), c) for c in cs))
        if not all(any(c in sees[i] for i in range(n)
                       if '#include "%s"' % lead[i] in body) for c in cs):
            out.pop()
        else:
            body.append('#include <map>')
            files.update(('std/' + k, v) for k, v in STD.items())
    files['u0.cc'] = body + out
    args = ['-I' + d for d in dirs] + ['-I.'] + ['-isystem', 'std']
    if rng.random() < 0.8:
        ms = []
        for i in range(n):
            later = [j for j in range(i + 1, n) if level[j] == 'public']
            for j in rng.sample(later, rng.randrange(len(later) + 1)):
                if level[i]:
                    ms.append({'include': ['"%s"' % lead[i], level[i],
                                           '"%s"' % lead[j], 'public']})
                if rng.random() < 0.3:
                    ms.append({'symbol': ['%s%d' % (rng.choice('CTf'), i),
                                          'private', '"%s"' % lead[j],
                                          'public']})
            if level[i] == 'public' and rng.random() < 0.7:
                ms.append({'include': ['"none%d.h"' % i, 'private',
                                       '"%s"' % lead[i], 'public']})
        rng.shuffle(ms)
        files['m.imp'] = [json.dumps(ms)]
        args += ['-Xiwyu', '--mapping_file=m.imp']
    if rng.random() < 0.6:
        args += ['-Xiwyu', '--check_also=%s' % rng.choice(
            ['*u*.h', '*.h', '*f?.h', '*x.h'])]
    for f in ('--no_fwd_decls', '--transitive_includes_only',
              '--comment_style=long', '--verbose=3'):
        if rng.random() < 0.1:
            args += ['-Xiwyu', f]
    return {'files': files, 'args': args + ['u0.cc']}


def arguments(w):
    return w['args']


def files(w):
    return {'%s/%s' % (SRC, k): '\n'.join(v) + '\n'
            for k, v in w['files'].items()}


def shrink(w):
    for k in sorted(w['files']):
        if k != 'u0.cc':
            yield dict(w, files={x: v for x, v in w['files'].items()
                                 if x != k})
    for k in sorted(w['files']):
        v = w['files'][k]
        step = len(v)
        while step:
            for at in range(0, len(v), step):
                yield dict(w, files=dict(
                    w['files'], **{k: v[:at] + v[at + step:]}))
            step //= 2
    for k in sorted(w['files']):
        if k.endswith('.imp'):
            try:
                ms = json.loads('\n'.join(w['files'][k]))
            except ValueError:
                continue
            for i in range(len(ms)):
                yield dict(w, files=dict(
                    w['files'], **{k: [json.dumps(ms[:i] + ms[i + 1:])]}))
    for i, a in enumerate(w['args']):
        if a == '-Xiwyu':
            yield dict(w, args=w['args'][:i] + w['args'][i + 2:])
