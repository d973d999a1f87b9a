"""Generated C++ programs whose correct include-what-you-use report is known.

A program is a set of files.  Each header defines symbols; the text of every
file uses symbols in ways of which the documentation says whether they need
the definition (the header) or a declaration.  expected() derives the report.
"""
import random
import re

SRC = '/sim/src'
INC = '/sim/inc'


# --- symbols ------------------------------------------------------------------

def _wrap(ns, lines):
    return ['namespace %s {' % ns] + lines + ['}'] if ns else lines


def gen_symbol(rng, i, kinds=None):
    k = rng.choice(kinds or ['class', 'class', 'class', 'class', 'func',
                             'macro', 'enum', 'senum', 'tval', 'tptr', 'ftmpl',
                             'var', 'alias', 'const', 'fmacro'])
    ns = rng.choice(['', '', '', 'n1', 'n2', 'n1::m'])
    if k in ('macro', 'fmacro'):
        ns = ''
    return {'k': k, 'n': {'class': 'C', 'func': 'f', 'macro': 'M', 'enum': 'E',
                          'senum': 'S', 'tval': 'T', 'tptr': 'P', 'ftmpl': 'g',
                          'var': 'v', 'alias': 'A', 'const': 'k',
                          'fenum': 'E', 'fmacro': 'W', 'talias': 'A', 'ualias': 'A', 'rfunc': 'r'}[k] + str(i),
            'ns': ns, 'tag': rng.choice(['class', 'struct'])}


HEADS = {'class T': '', 'typename T': '', 'class T, int N': ', 3',
         'typename T, typename U': ', int', 'class T, bool B = true': ''}
ATTRS = ['[[nodiscard]] ', 'alignas(16) ', '__attribute__((aligned(8))) ',
         '__attribute__((visibility("default"))) ']
UNDERLYING = ['', ' : int', ' : unsigned char', ' : unsigned long']


def dress(rng, s):
    """Varies how a symbol is defined."""
    k = s['k']
    if k == 'senum' and rng.random() < 0.7 or k == 'enum' and \
            rng.random() < 0.5:
        s['under'] = rng.choice(UNDERLYING)
        s['tag'] = rng.choice(['class', 'struct']) if k == 'senum' else ''
        if k == 'enum' and s['under']:
            s['k'] = 'fenum'
        elif k == 'enum':
            del s['under']
    elif k in ('tval', 'tptr', 'class') and rng.random() < 0.6:
        if k != 'class':
            s['head'] = rng.choice(sorted(HEADS))
            s['kind'] = rng.choice(['class', 'struct', 'union'][
                :3 if k == 'tptr' else 2])
        if rng.random() < 0.4:
            s['attr'] = rng.choice(ATTRS[:1] + ATTRS[3:]
                                   if k != 'class' else ATTRS)
        if s.get('kind') != 'union' and rng.random() < 0.4:
            s['final'] = True


def define(s, syms):
    n = s['n']
    k = s['k']
    if k == 'class':
        body = ['%s %s%s%s {' % (s['tag'], s.get('attr', ''), n,
                                 ' final' if s.get('final') else ''),
                ' public:', '  %s();' % n,
                '  void m() const;', '  int x;', '  static const int s = 1;',
                '  typedef int Inner;', '  enum { a_%s };' % n, '};']
    elif k == 'func':
        body = ['int %s(int);' % n]
    elif k == 'macro':
        return ['#define %s 7' % n]
    elif k == 'fmacro':
        return ['#define %s(x) ((x) + 1)' % n]
    elif k in ('enum', 'fenum'):
        body = ['enum %s%s { %s_a, %s_b };' % (n, s.get('under', ''), n, n)]
    elif k == 'senum':
        body = [declaration(dict(s, ns=''))[:-1] + ' { a, b };']
    elif k in ('tval', 'tptr'):
        body = ['template <%s> %s %s%s%s { %s };' % (
            s.get('head', 'class T'), s.get('kind', 'struct'),
            s.get('attr', ''), n, ' final' if s.get('final') else '',
            'public: T v;' if k == 'tval' else 'public: T* p; T* get();')]
    elif k == 'ftmpl':
        body = ['template <class T> void %s(T* t) { t->m(); }' % n]
    elif k == 'var':
        body = ['extern int %s;' % n]
    elif k == 'alias':
        body = ['using %s = int;' % n]
    elif k == 'talias':
        body = ['typedef %s %s;' % (qual(syms[s['of']]), n)]
    elif k == 'ualias':
        body = ['using %s = %s;' % (n, qual(syms[s['of']]))]
    elif k == 'rfunc':
        body = ['%s %s();' % (qual(syms[s['of']]), n)]
    else:
        body = ['const int %s = 3;' % n]
    if s['ns']:
        parts = s['ns'].split('::')
        body = ['namespace %s {' % p for p in parts] + body + ['}'] * len(parts)
    return body


def home(prog, si, f=None):
    """The header to include for a symbol (in file f)."""
    s = prog['syms'][si]
    if 'home' in s and f and s['h'] < len(prog['files']) and friends(
            prog['files'][s['h']], f):
        return s['h']
    return s.get('home', s['h'])


def friends(h, f):
    """Is f a friend of header h?"""
    return any(re.fullmatch(x, f['name']) for x in h.get('friend', []))


def candidates(prog, si):
    """The headers any of which may be included for a symbol."""
    h = home(prog, si)
    f = prog['files'][h] if h < len(prog['files']) else {}
    if 'exp' not in f:
        return [h]
    if 'seen' in prog:           # else the program is not complete yet
        g = prog['files'][f['exp']]
        if g['name'] not in prog['seen'] or not any(
                i.get('h') == h for i in g['incs']):
            return [h]
    return [h, f['exp']]


def multi(prog):
    """Is there a choice of headers?"""
    return any('exp' in f for f in prog['files'])


def qual(s):
    return (s['ns'] + '::' if s['ns'] else '') + s['n']


DECLARABLE = ('class', 'tptr', 'tval', 'senum', 'fenum')


def declarable(s):
    return s['k'] in DECLARABLE


def declaration(s, nested=False):
    """How the report spells a forward declaration."""
    if s['k'] == 'class':
        text = '%s %s;' % (s['tag'], s['n'])
    elif s['k'] == 'senum':
        text = 'enum %s %s%s;' % (s.get('tag', 'class') if 'under' in s else
                                  'class', s['n'], s.get('under', ''))
    elif s['k'] == 'fenum':
        text = 'enum %s%s;' % (s['n'], s['under'])
    else:
        text = 'template <%s> %s %s;' % (
            s.get('head', 'class T').replace(' = true', ''),
            s.get('kind', 'struct'), s['n'])
    parts = s['ns'].split('::') if s['ns'] else []
    if nested and parts:
        parts = [s['ns']]
    return ''.join('namespace %s { ' % p for p in parts) + text + \
        ' }' * len(parts)


# --- uses ------------------------------------------------------------------

# kind of symbol -> {use: (text, needs of the symbol)}; % is the number of the
# use, Q the symbol.
USES = {
 'class': {
  'ptr-param': ('void u%(Q* p);', 'fwd'),
  'ref-param': ('void u%(const Q& p);', 'fwd'),
  'ptr-var': ('Q* u%;', 'fwd'),
  'ptr-return': ('Q* u%();', 'fwd'),
  'ref-return': ('Q& u%();', 'fwd'),
  'extern': ('extern Q u%;', 'fwd'),
  'ptr-member': ('struct u% { Q* p; };', 'fwd'),
  'ptr-array': ('extern Q* u%[3];', 'fwd'),
  'pass-ptr': ('inline Q* u%(Q* p) { return p; }', 'fwd'),
  'ptr-compare': ('inline bool u%(Q* p) { return p != nullptr; }', 'fwd'),
  'value': ('static Q u%;', 'full'),
  'local': ('inline void u%() { Q c; }', 'full'),
  'call': ('inline void u%(Q* p) { p->m(); }', 'full'),
  'call-ref': ('inline void u%(const Q& p) { p.m(); }', 'full'),
  'data': ('inline int u%(Q* p) { return p->x; }', 'full'),
  'sizeof': ('static const int u% = sizeof(Q);', 'full'),
  'base': ('struct u% : Q {};', 'full'),
  'member': ('struct u% { Q c; };', 'full'),
  'static': ('static const int u% = Q::s;', 'full'),
  'nested': ('extern Q::Inner u%;', 'full'),
  'new': ('inline void* u%() { return new Q; }', 'full'),
  'delete': ('inline void u%(Q* p) { delete p; }', 'full'),
  'deref': ('inline int u%(Q* p) { return (*p).x; }', 'full'),
  'index': ('inline void u%(Q* p) { p[1].m(); }', 'full'),
  'array': ('static Q u%[2];', 'full'),
  'lambda': ('inline void u%(Q* p) { [p]() { p->m(); }(); }', 'full'),
  'catch': ('inline void u%() { try { } catch (const Q& e) { } }', 'full'),
  'throw': ('inline void u%(Q* p) { throw *p; }', 'full'),
  'from-void': ('inline Q* u%(void* p) { return static_cast<Q*>(p); }', 'fwd'),
  'to-void': ('inline void* u%(Q* p) { return p; }', 'fwd'),
  'reinterpret': ('inline long u%(Q* p) { return reinterpret_cast<long>(p); }',
                  'fwd'),
  'value-param': ('void u%(Q c);', 'fwd'),
  'value-return': ('Q u%();', 'give'),
  'default-arg': ('void u%(int n = sizeof(Q));', 'full'),
  'member-ptr': ('extern int Q::*u%;', 'fwd'),
  'bind': ('inline void u%(Q& r) { Q& s = r; (void)s; }', 'fwd'),
  'fn-ptr': ('extern void (*u%)(Q*);', 'fwd'),
  'fn-ptr-ret': ('extern Q* (*u%)(int);', 'fwd'),
  'auto': ('inline void u%(Q* p) { auto q = p; q->m(); }', 'full'),
  'ternary': ('inline Q* u%(Q* p, bool b) { return b ? p : nullptr; }', 'fwd'),
  'in-class-enum': ('static const int u% = Q::a_@;', 'full'),
  'offset': ('static const int u% = __builtin_offsetof(Q, x);', 'full'),
  'alignof': ('static const int u% = alignof(Q);', 'full'),
  'temporary': ('inline void u%() { Q(); }', 'full'),
  'brace': ('inline void u%() { Q{}.m(); }', 'full'),
  'copy': ('inline void u%(const Q& a) { Q b = a; }', 'full'),
  'assign': ('inline void u%(Q& a, const Q& b) { a = b; }', 'full'),
  'template-body': ('template <class Z> void u%(Z z) { Q c; }', 'full'),
  'template-ptr': ('template <class Z> Q* u%(Z z);', 'fwd'),
  'constexpr': ('constexpr int u%() { return Q::s; }', 'full'),
  'static-assert': ('static_assert(sizeof(Q) > 0, "u%");', 'full'),
  'bitfield': ('struct u% { int b : sizeof(Q); };', 'full'),
  'array-new': ('inline void* u%() { return new Q[2]; }', 'full'),
  'ref-member': ('struct u% { Q& r; };', 'fwd'),
  'virtual': ('struct u% { virtual void w(Q*) = 0; };', 'fwd'),
  'override-base': ('struct u% : private Q { void w(); };', 'full'),
  'decltype': ('inline void u%(Q* p) { decltype(p) q = p; (void)q; }', 'fwd'),
  'sizeof-ptr': ('static const int u% = sizeof(Q*);', 'fwd'),
  'capture': ('inline auto u%(Q* p) { return [p] { return p; }; }', 'fwd'),
  'static-local': ('inline void u%() { static Q c; }', 'full'),
  'thread': ('static thread_local Q u%;', 'full'),
  'param-call': ('inline void u%(void (*f)(Q*), Q* p) { f(p); }', 'fwd'),
  'if-init': ('inline int u%(Q* p) { if (int n = p->x) return n; return 0; }',
              'full'),
  'ptr-arith': ('inline Q* u%(Q* p) { return p + 1; }', 'full'),
  'method-ptr': ('struct u% { void w() { Q* p = nullptr; (void)p; } };', 'fwd'),
  'method-ref': ('struct u% { Q& w(Q& r) { return r; } };', 'fwd'),
  'method-call': ('struct u% { void w(Q* p) { p->m(); } };', 'full'),
  'method-local': ('struct u% { void w() { Q c; } };', 'full'),
  'method-param': ('struct u% { void w(const Q* p, int); };', 'fwd'),
  'method-cast': ('struct u% { void w(void* v) { auto p = static_cast<Q*>(v); '
                  '(void)p; } };', 'fwd'),
  'method-lambda': ('struct u% { void w() { [](Q* p) { return p; }(nullptr); '
                    '} };', 'fwd'),
  'method-sizeof': ('struct u% { int w() { return sizeof(Q*); } };', 'fwd'),
  'ctor-init': ('struct u% { u%(Q* q) : p(q) {} Q* p; };', 'fwd'),
  'dtor': ('struct u% { ~u%() { delete p; } Q* p; };', 'full'),
  'inner-class': ('struct u% { struct v { Q* p; }; };', 'fwd'),
  'inner-member': ('struct u% { struct v { Q c; }; };', 'full'),
  'static-member': ('struct u% { static Q c; };', 'fwd'),
  'in-class-init': ('struct u% { int n = sizeof(Q); };', 'full'),
  'enumerator': ('enum { u% = sizeof(Q) };', 'full'),
  'alignas': ('struct alignas(Q) u% {};', 'full'),
  'noexcept': ('void u%() noexcept(sizeof(Q) > 0);', 'full'),
  'ptr-ptr': ('void u%(Q** p);', 'fwd'),
  'rvalue-ref': ('void u%(Q&& r);', 'fwd'),
  'ptr-deref': ('inline Q* u%(Q** p) { return *p; }', 'fwd'),
  'out-of-line': ('struct u% { void w(Q*); };\ninline void u%::w(Q* p) '
                  '{ p->m(); }', 'full'),
  'out-of-line-ptr': ('struct u% { void w(Q*); };\ninline void u%::w(Q*) {}',
                      'fwd'),
  'operator': ('struct u% { operator Q*() const; };', 'fwd'),
  'overload': ('struct u% { bool operator+(Q* b) const { return !b; } };',
               'fwd'),
  'template-member': ('template <class Z> struct u% { Q* p; Z z; };', 'fwd'),
  'template-method': ('template <class Z> struct u% { void w() { Q c; } };',
                      'full'),
  'lambda-param': ('static auto u% = [](Q* p) { return p; };', 'fwd'),
  'lambda-body': ('static auto u% = [](Q* p) { return p->x; };', 'full'),
  'for-loop': ('inline void u%(Q* p) { for (int i = 0; i < p->x; ++i) {} }',
               'full'),
  'switch': ('inline void u%(int n) { switch (n) { case Q::s: break; } }',
             'full'),
  'union': ('union u% { Q* p; long n; };', 'fwd'),
  'logical-not': ('inline bool u%(Q* p) { return !p; }', 'fwd'),
  'comma': ('inline Q* u%(Q* p) { return (void)0, p; }', 'fwd'),
  'const-cast': ('inline Q* u%(const Q* p) { return const_cast<Q*>(p); }',
                 'fwd'),
  'c-cast': ('inline Q* u%(char* p) { return (Q*)p; }', 'fwd'),
  'address-of': ('inline int* u%(Q& r) { return &r.x; }', 'full'),
  'ptr-to-ref': ('inline Q& u%(Q* p) { return *p; }', 'fwd'),
  'trait': ('static_assert(__is_class(Q), "u%");', 'full'),
  'trait-tc': ('static_assert(__is_trivially_copyable(Q) || true, "u%");', 'full'),
  'trait-same': ('static_assert(!__is_same(Q, int), "u%");', 'full'),
  'friend': ('class u% { friend Q; };', 'fwd'),
  'typedef': ('typedef Q u%;', 'author'),
  'using': ('using u% = Q;', 'author'),
  'typedef-ptr': ('typedef Q* u%;', 'author'),
  'binding': ('inline int u%(Q* p) { auto& [a] = *p; return a; }', 'full'),
  'pm-call': ('inline int u%(Q* p) { return p->*(&Q::x); }', 'full'),
  'mem-fn-ptr': ('static void (Q::*u%)() const = &Q::m;', 'full'),
  'mem-fn-type': ('extern void (Q::*u%)();', 'fwd'),
  'new-ptr': ('inline void* u%() { return new Q*; }', 'fwd'),
  'delete-array': ('inline void u%(Q* p) { delete[] p; }', 'full'),
  'conv-op': ('struct u% { operator Q() const; };', 'give'),
  'destroy': ('inline void u%(Q* p) { p->Q::~@(); }', 'full'),
  'static-ref': ('inline const Q& u%(Q& q) { return static_cast<const Q&>(q); }', 'fwd'),
  'cv': ('void u%(volatile Q* const p);', 'fwd'),
  'ptr-array-ptr': ('void u%(Q* (*p)[3]);', 'fwd'),
  'fn-fn': ('void u%(Q (*f)());', 'fwd'),
  'sizeof-expr': ('inline int u%(Q* p) { return sizeof *p; }', 'full'),
  'catch-ptr': ('inline void u%() { try { } catch (Q* e) { } }', 'full'),
  'catch-val': ('inline void u%() { try { } catch (Q e) { } }', 'full'),
  'cond-lvalue': ('inline Q& u%(Q& p, Q& q, bool b) { return b ? p : q; }', 'fwd'),
  'extern-c': ('extern "C" { void u%(Q*); }', 'fwd'),
  'in-ns': ('namespace w% { void u%(Q* p); }', 'fwd'),
  'in-anon': ('namespace { void u%(Q* p) {} }', 'fwd'),
  'default-arg-ptr': ('void u%(Q* p = nullptr);', 'fwd'),
  'default-arg-val': ('void u%(const Q& = Q());', 'full'),
  'template-default': ('template <class Z = Q> struct u% { Z* z; };', 'author'),
  'template-nttp': ('template <Q* P> struct u% {};', 'fwd'),
  'range-for': ('inline void u%(Q (&a)[2]) { for (Q& q : a) (void)q; }', 'full'),
  'range-for-ptr': ('inline void u%(Q* (&a)[2]) { for (Q* q : a) (void)q; }', 'fwd'),
  'if-ptr': ('inline bool u%(Q* p) { if (p) return true; while (p) {} return p ? 1 : 0; }', 'fwd'),
  'and': ('inline bool u%(Q* p, Q* q) { return p && q || !p; }', 'fwd'),
  'ptr-swap': ('inline void u%(Q*& p, Q*& q) { Q* t = p; p = q; q = t; }', 'fwd'),
  'ptr-sub': ('inline long u%(Q* p, Q* q) { return p - q; }', 'full'),
  'ptr-less': ('inline bool u%(Q* p, Q* q) { return p < q; }', 'fwd'),
  'ref-capture': ('inline void u%(Q& r) { auto f = [&r]() -> Q& { return r; }; (void)f; }', 'fwd'),
  'val-capture': ('inline void u%(Q& r) { auto f = [r] {}; (void)f; }', 'full'),
  'array-param': ('void u%(Q* p[]);', 'fwd'),
  'arr-new-ptr': ('inline void* u%() { return new Q*[3]; }', 'fwd'),
  'ctor-full': ('struct u% { u%() : c() {} Q c; };', 'full'),
  'ctor-default': ('struct u% { u%() = default; Q* c = nullptr; };', 'fwd'),
  'static-fn': ('struct u% { static Q* w(); };', 'fwd'),
  'friend-fn': ('struct u% { friend void w%(Q*); };', 'fwd'),
  'nested-tpl': ('struct u% { template <class Z> Q* w(Z); };', 'fwd'),
  'void-ref': ('inline const void* u%(const Q& r) { return &r; }', 'fwd'),
  'reinterpret-to': ('inline Q* u%(long p) { return reinterpret_cast<Q*>(p); }', 'fwd'),
  'ref-cast': ('inline Q& u%(char& c) { return reinterpret_cast<Q&>(c); }', 'fwd'),
  'explicit-call': ('inline void u%(Q* p) { (*p).Q::m(); }', 'full'),
  'conditional-noexcept': ('inline void u%(Q* p) noexcept(noexcept(p->m())) {}', 'full'),
  'decltype-full': ('inline void u%(Q* p) { decltype(p->x) y = 0; (void)y; }', 'full'),
  'auto-ret': ('inline auto u%(Q* p) { return p; }', 'fwd'),
  'auto-ret-full': ('inline auto u%(Q* p) { return p->x; }', 'full'),
  'trailing': ('auto u%(int) -> Q*;', 'fwd'),
  'const-var': ('extern const Q u%;', 'fwd'),
  'inline-static': ('struct u% { inline static Q c; };', 'full'),
  'union-full': ('union u% { u%(); ~u%(); Q p; long n; };', 'full'),
  'post-inc': ('inline void u%(Q*& p) { p++; }', 'full'),
  'pre-dec': ('inline void u%(Q*& p) { --p; }', 'full'),
  'pre-inc': ('inline void u%(Q*& p) { ++p; }', 'full'),
  'add-assign': ('inline void u%(Q*& p) { p += 2; }', 'full'),
  'ret-val': ('inline Q u%(Q& r) { return r; }', 'full'),
  'throw-ptr': ('inline void u%(Q* p) { throw p; }', 'full'),
  'typedef-arr': ('typedef Q u%[3];', 'author'),
  'extern-arr': ('extern Q u%[3];', 'fwd'),
  'extern-arr0': ('extern Q u%[];', 'fwd'),
  'param-arr': ('void u%(Q p[3]);', 'fwd'),
  'ptr-arr': ('extern Q (*u%)[3];', 'fwd'),
  'ref-arr': ('void u%(Q (&p)[3]);', 'fwd'),
  'def-val-param': ('inline void u%(Q c) {}', 'full'),
  'def-val-param-unnamed': ('inline void u%(Q) {}', 'full'),
  'call-val': ('void x%(Q); inline void u%(Q* p) { x%(*p); }', 'full'),
  'call-ret': ('Q x%(); inline void u%() { x%(); }', 'full'),
  'call-ret-ref': ('Q& x%(); inline void u%() { x%(); }', 'fwd'),
  'call-fnptr-val': ('inline void u%(void (*f)(Q), Q* p) { f(*p); }', 'full'),
  'call-fnptr-ret': ('inline void u%(Q (*f)()) { f(); }', 'full'),
  'lambda-val': ('static auto u% = [](Q c) {};', 'full'),
  'lambda-ret': ('static auto u% = []() -> Q { return {}; };', 'full'),
  'empty': ('static const bool u% = __is_empty(Q);', 'full'),
  'base-of': ('static const bool u% = __is_base_of(Q, Q);', 'full'),
  'convertible': ('static const bool u% = __is_convertible(Q*, void*);', 'full'),
  'constructible': ('static const bool u% = __is_constructible(Q, Q);', 'full'),
  'constructible-ptr': ('static const bool u% = __is_constructible(Q*, Q*);', 'full'),
  'poly': ('static const bool u% = __is_polymorphic(Q);', 'full'),
  'pm': ('inline int u%(Q* p, int Q::*m) { return p->*m; }', 'fwd'),
  'pm-dot': ('inline int u%(Q& p, int Q::*m) { return p.*m; }', 'fwd'),
  'pm-fn': ('inline void u%(Q* p, void (Q::*m)()) { (p->*m)(); }', 'fwd'),
  'eq0': ('inline bool u%(Q* p) { return p == 0; }', 'fwd'),
  'anon-union': ('struct u% { u%(); ~u%(); union { Q c; int n; }; };', 'full'),
  'static-def': ('struct u% { static Q c; };\nQ u%::c;', 'full'),
  'using-base': ('struct u% : Q { using Q::m; };', 'full'),
  'inner-typedef': ('inline void u%() { typename Q::Inner n = 3; (void)n; }', 'full'),
  'decl-member': ('extern decltype(Q::x) u%;', 'full'),
  'sizeof-member': ('static const int u% = sizeof(Q::x);', 'full'),
  'nttp-member': ('template <int Q::*M = &Q::x> struct u% {};', 'full'),
  'friend-member': ('class u% { friend void Q::m() const; };', 'full'),
  'init-capture': ('inline void u%(Q* p) { auto f = [q = *p] {}; (void)f; }', 'full'),
  'auto-copy': ('inline void u%(Q* p) { auto x = *p; (void)x; }', 'full'),
  'auto-ref': ('inline void u%(Q* p) { auto& x = *p; (void)x; }', 'fwd'),
  'auto-rref': ('inline void u%(Q* p) { auto&& x = *p; (void)x; }', 'fwd'),
  'new-arr-static': ('static Q* u% = new Q[3];', 'full'),
  'variadic': ('void x%(...); inline void u%(Q* p) { x%(*p); }', 'full'),
  'addr-index': ('inline Q* u%(Q* p) { return &p[1]; }', 'full'),
  'minus': ('inline Q* u%(Q* p) { return p - 1; }', 'full'),
  'noexcept-ctor': ('static const bool u% = noexcept(Q());', 'full'),
  'decltype-ctor': ('extern decltype(Q())* u%;', 'full'),
  'cond-val': ('inline void u%(Q* p, Q* q, bool b) { Q c = b ? *p : *q; }', 'full'),
  'cond-mixed': ('inline const Q& u%(Q* p, const Q* q, bool b) { return b ? *p : *q; }', 'fwd'),
  'discard': ('inline void u%(Q* p) { *p; }', 'fwd'),
  'void-cast': ('inline void u%(Q* p) { (void)*p; }', 'fwd'),
  'arrow-static': ('inline int u%(Q* p) { return p->s; }', 'full'),
  'init-list': ('struct x% { Q* p; }; inline x% u%(Q* p) { return {p}; }', 'fwd'),
  'aggregate': ('struct x% { Q c; }; inline void u%() { x% y{}; }', 'full'),
  'cast-derived-base': ('struct x% : Q {}; inline x%* u%(Q* p) { return static_cast<x%*>(p); }', 'full'),
  'cast-to-base': ('struct x% : Q {}; inline Q* u%(x%* p) { return p; }', 'full'),
  'indirect-base': ('struct x% : Q {}; struct u% : x% {};', 'full'),
  'member-init-brace': ('struct u% { Q* p{nullptr}; };', 'fwd'),
  'if-constexpr': ('inline int u%() { if constexpr (sizeof(Q) > 1) return 1; return 0; }', 'full'),
  'template-call': ('template <class Z> void x%(Z* z) { z->m(); }\ninline void u%(Q* p) { x%(p); }', 'full'),
  'template-call-ptr': ('template <class Z> void x%(Z* z) {}\ninline void u%(Q* p) { x%(p); }', 'fwd'),
  'template-val': ('template <class Z> void x%(Z z) {}\ninline void u%(Q* p) { x%(*p); }', 'full'),
  'template-ref': ('template <class Z> void x%(Z& z) {}\ninline void u%(Q* p) { x%(*p); }', 'fwd'),
  'template-class': ('template <class Z> struct x% { Z z; };\nstatic x%<Q> u%;', 'full'),
  'template-class-ptr': ('template <class Z> struct x% { Z* z; };\nstatic x%<Q> u%;', 'fwd'),
  'template-class-ptr2': ('template <class Z> struct x% { Z z; };\nstatic x%<Q*> u%;', 'fwd'),
  'template-class-method': ('template <class Z> struct x% { void w(Z* z) { z->m(); } };\ninline void u%(Q* p) { x%<Q>().w(p); }', 'full'),
  'template-class-method-unused': ('template <class Z> struct x% { void w(Z* z) { z->m(); } };\nstatic x%<Q> u%;', 'fwd'),
  'template-class-static': ('template <class Z> struct x% { static int w() { return sizeof(Z); } };\ninline int u%() { return x%<Q>::w(); }', 'full'),
  'template-ctor': ('template <class Z> struct x% { x%() { delete z; } Z* z; };\nstatic x%<Q> u%;', 'full'),
  'template-dtor': ('template <class Z> struct x% { ~x%() { delete z; } Z* z; };\ninline void u%() { x%<Q> y; }', 'full'),
  'template-dtor-ptr': ('template <class Z> struct x% { ~x%() { delete z; } Z* z; };\nextern x%<Q>* u%;', 'fwd'),
  'template-dtor-member': ('template <class Z> struct x% { ~x%() { delete z; } Z* z; };\nstruct u% { x%<Q> y; };', 'full'),
  'template-dtor-member-decl': ('template <class Z> struct x% { ~x%() { delete z; } Z* z; };\nstruct u% { u%(); ~u%(); x%<Q> y; };', 'fwd'),
  'template-enum': ('template <class Z> struct x% { enum { n = sizeof(Z) }; };\nstatic const int u% = x%<Q>::n;', 'full'),
  'template-typedef': ('template <class Z> struct x% { typedef typename Z::Inner I; };\nextern x%<Q>::I u%;', 'full'),
  'template-conv': ('template <class Z> struct x% { operator Z*() const { return nullptr; } };\ninline Q* u%(x%<Q>& y) { return y; }', 'fwd'),
  'template-arrow': ('template <class Z> struct x% { Z* operator->() const { return nullptr; } };\ninline void u%(x%<Q>& y) { y->m(); }', 'full'),
  'template-deref': ('template <class Z> struct x% { Z& operator*() const { return *z; } Z* z; };\ninline Q& u%(x%<Q>& y) { return *y; }', 'fwd'),
  'template-alias-full': ('template <class Z> using x% = Z;\nstatic x%<Q> u%;', 'full'),
  'template-spec': ('template <class Z> struct x% {};\ntemplate <> struct x%<Q> {};', 'fwd'),
  'template-partial': ('template <class Z> struct x% {};\ntemplate <> struct x%<Q*> { int a; };\nstatic x%<Q*> u%;', 'fwd'),
  'template-explicit': ('template <class Z> struct x% { Z* z; };\ntemplate struct x%<Q>;', 'fwd'),
  'template-explicit-full': ('template <class Z> struct x% { Z z; };\ntemplate struct x%<Q>;', 'full'),
  'template-explicit-method': ('template <class Z> struct x% { void w() { Z z; } };\ntemplate struct x%<Q>;', 'full'),
  'template-variadic': ('template <class... Z> struct x% {};\nstatic x%<Q, int> u%;', 'fwd'),
  'template-crtp': ('template <class Z> struct x% { void w() { static_cast<Z*>(this); } };\nstruct u% : x%<u%> { Q* p; };', 'fwd'),
  'template-nested': ('template <class Z> struct x% { struct y { Z z; }; };\nstatic x%<Q>::y u%;', 'full'),
  'template-nested-unused': ('template <class Z> struct x% { struct y { Z z; }; };\nstatic x%<Q> u%;', 'fwd'),
  'template-local': ('template <class Z> struct x% { void w() { Z z; } };\ninline void u%(x%<Q>* p) { p->w(); }', 'full'),
  'template-base': ('template <class Z> struct x% : Z {};\nstatic x%<Q> u%;', 'full'),
  'template-ptr-base': ('template <class Z> struct x% : Z {};\nextern x%<Q>* u%;', 'fwd'),
  'overload-call': ('void x%(Q*); void x%(int); inline void u%(Q* p) { x%(p); }', 'fwd'),
  'overload-ref': ('void x%(const Q&); void x%(int); inline void u%(Q& p) { x%(p); }', 'fwd'),
  'operator-call': ('struct x% { void operator()(Q*); }; inline void u%(x%& y, Q* p) { y(p); }', 'fwd'),
  'ostream-like': ('struct x% {}; x%& operator<<(x%& y, const Q* p); inline void u%(x%& y, Q* p) { y << p; }', 'fwd'),
  'binop-class': ('struct x% {}; inline bool operator==(const x%&, const Q&) { return true; } inline bool u%(x% y, Q& q) { return y == q; }', 'fwd'),
  'noexcept-expr': ('inline void u%(Q* p) { static_assert(noexcept(p == nullptr), ""); }', 'fwd'),
  'memset': ('inline unsigned long u%(Q* p) { return __builtin_object_size(p, 0); }', 'fwd'),
  'ptr-mem-cmp': ('inline bool u%(int Q::*a, int Q::*b) { return a == b; }', 'fwd'),
  'alignof-ptr': ('static const int u% = alignof(Q*);', 'fwd'),
  'volatile': ('inline void u%(volatile Q* p) { const_cast<Q*>(p); }', 'fwd'),
  'fn-style': ('typedef Q* y%; inline Q* u%(void* p) { return y%(p); }', 'author'),
  'extern-const-ref': ('extern const Q& u%;', 'fwd'),
  'bind-temp': ('inline void u%() { const Q& r = Q(); (void)r; }', 'full'),
  'member-ref-fn': ('struct u% { Q& (*f)(const Q&); };', 'fwd'),
  'this-capture': ('struct u% { Q* p; void w() { [this] { return p; }(); } };', 'fwd'),
  'default-delete': ('struct u% { u%(const Q&) = delete; };', 'fwd'),
  'conv-ctor': ('struct u% { u%(const Q&); };', 'fwd'),
  'conv-ctor-call': ('struct x% { x%(const Q&); }; inline x% u%(Q& q) { return q; }', 'fwd'),
  'conv-ctor-val': ('struct x% { x%(Q); }; inline x% u%(Q& q) { return q; }', 'full'),
  'range-member': ('struct x% { Q** begin(); Q** end(); }; inline void u%(x%& y) { for (Q* q : y) (void)q; }', 'fwd'),
  'initializer-arr': ('inline void u%(Q* p) { Q* a[] = {p, p}; (void)a; }', 'fwd'),
  'initializer-arr-full': ('inline void u%(Q& p) { Q a[] = {p, p}; (void)a; }', 'full'),
  'stmt-expr': ('inline Q* u%(Q* p) { return ({ p; }); }', 'fwd'),
  'static-fn-call': ('inline void u%(void (*f)(const Q&), Q* p) { f(*p); }', 'fwd'),
  'const-init': ('static const Q* const u% = nullptr;', 'fwd'),
  'ptr-to-fn-member': ('extern Q* (Q::*u%)(Q&);', 'fwd'),
  'asm': ('inline void u%(Q* p) { asm("" : : "r"(p)); }', 'fwd'),
  'label': ('inline void* u%(Q* p) { void* v = (void*)p; return v; }', 'fwd'),
  'atomic-add': ('inline void u%(Q* volatile* p) { __atomic_load_n(p, 0); }', 'fwd'),
 },
 'func': {
  'call': ('inline int u%() { return Q(1); }', 'full'),
  'address': ('static int (*u%)(int) = &Q;', 'full'),
  'init': ('static int u% = Q(2);', 'full'),
  'sizeof': ('static const int u% = sizeof(Q(1));', 'full'),
  'default-arg': ('void u%(int n = Q(1));', 'full'),
  'decltype': ('extern decltype(Q(1)) u%;', 'full'),
  'ref': ('static int (&u%)(int) = Q;', 'full'),
  'in-class': ('struct u% { int n = Q(1); };', 'full'),
  'method': ('struct u% { int w() { return Q(3); } };', 'full'),
  'tpl': ('template <class Z> int u%(Z z) { return Q(3); }', 'full'),
  'tpl-dep': ('template <class Z> int u%(Z z) { return Q(z); }', 'full'),
  'nested': ('inline int u%() { return Q(Q(1)); }', 'full'),
  'lambda': ('static auto u% = [] { return Q(1); };', 'full'),
  'noexcept': ('inline void u%() noexcept(noexcept(Q(1))) {}', 'full'),
  'nttp': ('template <int (*F)(int) = Q> struct u% {};', 'full'),
  'ctor': ('struct u% { u%() : n(Q(1)) {} int n; };', 'full'),
 },
 'macro': {
  'value': ('static const int u% = Q;', 'full'),
  'if': ('#if Q > 3\nstatic int u%;\n#endif', 'full'),
  'ifdef': ('#ifdef Q\nstatic int u%;\n#endif', 'full'),
  'ifndef': ('#ifndef Q\nstatic int u%;\n#endif', 'full'),
  'defined': ('#if defined(Q) && 1\nstatic int u%;\n#endif', 'full'),
  'not-defined': ('#if !defined Q\nstatic int u%;\n#endif', 'full'),
  'elif': ('#if 0\n#elif Q == 7\nstatic int u%;\n#endif', 'full'),
  'arr': ('extern int u%[Q];', 'full'),
  'method': ('struct u% { int w() { return Q; } };', 'full'),
  'tpl': ('template <class Z> int u%(Z z) { return Q; }', 'full'),
  'case': ('inline void u%(int n) { switch (n) { case Q: break; } }', 'full'),
  'default-arg': ('void u%(int n = Q);', 'full'),
  'bits': ('struct u% { int b : Q; };', 'full'),
  'enumerator': ('enum { u% = Q };', 'full'),
  'in-macro': ('#define u% Q', 'full'),
  'in-macro-used': ('#define u% Q\nstatic int x% = u%;', 'full'),
  'stringize': ('#define X%(x) #x\n#define Y%(x) X%(x)\nstatic const char* u% = Y%(Q);', 'full'),
 },
 'fmacro': {
  'call': ('static const int u% = Q(3);', 'full'),
  'nested-call': ('inline int u%() { return Q(Q(1)); }', 'full'),
  'if': ('#if Q(1) > 1\nstatic int u%;\n#endif', 'full'),
  'ifdef': ('#ifdef Q\nstatic int u%;\n#endif', 'full'),
  'arr': ('extern int u%[Q(3)];', 'full'),
  'method': ('struct u% { int w() { return Q(1); } };', 'full'),
  'tpl': ('template <class Z> int u%(Z z) { return Q(z); }', 'full'),
 },
 'enum': {
  'value': ('inline int u%() { return Q_a; }', 'full'),
  'var': ('extern Q u%;', 'full'),
  'param': ('void u%(Q e);', 'full'),
  'qualified': ('static int u% = Q::@_b;', 'full'),
  'arr': ('extern int u%[Q_b + 1];', 'full'),
  'case': ('inline void u%(int n) { switch (n) { case Q_b: break; } }', 'full'),
  'default-arg': ('void u%(int n = Q_a);', 'full'),
  'ptr': ('extern Q* u%;', 'full'),
  'cast': ('inline Q u%(int n) { return (Q)n; }', 'full'),
  'return': ('Q u%();', 'full'),
  'bits': ('struct u% { Q e : 4; };', 'full'),
  'sizeof': ('static const int u% = sizeof(Q);', 'full'),
  'nttp': ('template <Q E> struct u% {};', 'full'),
  'local': ('inline void u%() { Q e = Q_a; (void)e; }', 'full'),
 },
 'senum': {
  'value': ('inline int u%() { return static_cast<int>(Q::a); }', 'full'),
  'param': ('void u%(Q e);', 'fwd'),
  'return': ('Q u%();', 'give'),
  'member': ('struct u% { Q e; };', 'fwd'),
  'local': ('inline void u%() { Q e{}; (void)e; }', 'fwd'),
  'sizeof': ('static const int u% = sizeof(Q);', 'fwd'),
  'compare': ('inline bool u%(Q a, Q b) { return a == b; }', 'fwd'),
  'from-int': ('inline Q u%(int a) { return static_cast<Q>(a); }',
               'fwd'),
  'to-int': ('inline int u%(Q a) { return static_cast<int>(a); }', 'fwd'),
  'ptr': ('extern Q* u%;', 'fwd'),
  'switch': ('inline void u%(Q a) { switch (a) { case Q::b: break; '
             'default: break; } }', 'full'),
  'array': ('struct u% { Q e[3]; };', 'fwd'),
  'nttp': ('template <Q E> struct u% {};', 'fwd'),
  'bits': ('struct u% { Q e : 4; };', 'fwd'),
  'default-arg': ('void u%(Q e = Q::b);', 'full'),
  'brace': ('inline void u%() { Q e{1}; (void)e; }', 'fwd'),
  'case': ('inline void u%(Q a) { switch (a) { default: break; } }', 'fwd'),
  'ref': ('void u%(const Q& e);', 'fwd'),
  'under': ('extern __underlying_type(Q) u%;', 'fwd'),
  'less': ('inline bool u%(Q a, Q b) { return a < b; }', 'fwd'),
  'ccast': ('inline int u%(Q a) { return (int)a; }', 'fwd'),
  'new': ('inline void* u%() { return new Q; }', 'fwd'),
  'lambda': ('static auto u% = [](Q a) { return a; };', 'fwd'),
  'tmpl-method': ('struct u% { template <class Z> void w(Z, Q); };', 'fwd'),
  'method': ('struct u% { Q w() { return e; } Q e; };', 'fwd'),
 },
 'tval': {
  'int': ('static Q<int> u%;', 'full'),
 },
 'tptr': {
  'int': ('static Q<int> u%;', 'full'),
  'ptr': ('extern Q<int>* u%;', 'fwd'),
  'member': ('struct u% { Q<int> p; };', 'full'),
  'base': ('struct u% : Q<int> {};', 'full'),
  'sizeof': ('static const int u% = sizeof(Q<int>);', 'full'),
  'method': ('inline int* u%(Q<int>* p) { return p->get(); }', 'full'),
  'ref': ('void u%(const Q<int>& r);', 'fwd'),
  'data': ('inline int* u%(Q<int>& r) { return r.p; }', 'full'),
  'value-param': ('void u%(Q<int> p);', 'fwd'),
  'return': ('Q<int>* u%();', 'fwd'),
  'new': ('inline void* u%() { return new Q<int>; }', 'full'),
  'typedef': ('typedef Q<int> u%;', 'author'),
  'dep': ('template <class Z> struct u% { Q<Z> z; };', 'full'),
  'dep-ptr': ('template <class Z> struct u% { Q<Z>* z; };', 'fwd'),
  'alias-tpl': ('template <class Z> using u% = Q<Z>;', 'author'),
  'delete': ('inline void u%(Q<int>* p) { delete p; }', 'full'),
  'cast': ('inline Q<int>* u%(void* p) { return static_cast<Q<int>*>(p); }', 'fwd'),
  'static': ('struct u% { static Q<int> p; };', 'fwd'),
  'extern': ('extern Q<int> u%;', 'fwd'),
 },
 'var': {
  'read': ('inline int u%() { return Q; }', 'full'),
  'write': ('inline void u%() { Q = 2; }', 'full'),
  'address': ('static int* u% = &Q;', 'full'),
  'sizeof': ('static const int u% = sizeof(Q);', 'full'),
  'ref': ('static int& u% = Q;', 'full'),
  'default-arg': ('void u%(int n = Q);', 'full'),
  'decltype': ('extern decltype(Q) u%;', 'full'),
  'inc': ('inline void u%() { ++Q; }', 'full'),
  'nttp': ('template <int* N = &Q> struct u% {};', 'full'),
  'method': ('struct u% { int w() { return Q; } };', 'full'),
  'lambda': ('static auto u% = [] { return Q; };', 'full'),
  'tpl': ('template <class Z> void u%(Z z) { Q = z; }', 'full'),
  'init': ('struct u% { int n = Q; };', 'full'),
 },
 'alias': {
  'var': ('extern Q u%;', 'full'),
  'param': ('void u%(Q a);', 'full'),
  'ptr': ('extern Q* u%;', 'full'),
  'cast': ('inline long u%(char c) { return static_cast<Q>(c); }', 'full'),
  'ccast': ('inline long u%(char c) { return (Q)c; }', 'full'),
  'sizeof': ('static const int u% = sizeof(Q);', 'full'),
  'local': ('inline void u%() { Q a = 3; (void)a; }', 'full'),
  'return': ('Q u%();', 'full'),
  'member': ('struct u% { Q a; };', 'full'),
  'nttp': ('template <Q N> struct u% {};', 'full'),
  'typedef': ('typedef Q u%;', 'full'),
  'fn': ('inline int u%() { return Q(3); }', 'full'),
  'new': ('inline void* u%() { return new Q(3); }', 'full'),
  'tpl-arg': ('template <class Z> struct y% {};\nextern y%<Q>* u%;', 'full'),
  'enum': ('enum u% : Q {};', 'full'),
  'operator': ('struct u% { operator Q() const; };', 'full'),
  'method': ('struct u% { Q w(Q q) { return q; } };', 'full'),
 },
 'talias': {
  'ptr': ('extern Q* u%;', 'full', None),
  'ref-param': ('void u%(Q& r);', 'full', None),
  'value': ('static Q u%;', 'full', 'full'),
  'call': ('inline void u%(Q* p) { p->m(); }', 'full', 'full'),
  'data': ('inline int u%(Q& p) { return p.x; }', 'full', 'full'),
  'base': ('struct u% : Q {};', 'full', 'full'),
  'sizeof': ('static const int u% = sizeof(Q);', 'full', 'full'),
 },
 'rfunc': {
  'call': ('inline void u%() { Q(); }', 'full', 'full'),
  'method': ('inline void u%() { Q().m(); }', 'full', 'always'),
  'init': ('inline void u%() { auto x = Q(); }', 'full', 'full'),
 },
 'const': {
  'read': ('static const int u% = Q;', 'full'),
  'arr': ('extern int u%[Q];', 'full'),
  'case': ('inline void u%(int n) { switch (n) { case Q: break; } }', 'full'),
  'bits': ('struct u% { int b : Q; };', 'full'),
  'nttp': ('template <int N = Q> struct u% {};', 'full'),
  'enumerator': ('enum { u% = Q };', 'full'),
  'assert': ('static_assert(Q == 3, "u%");', 'full'),
  'default-arg': ('void u%(int n = Q);', 'full'),
  'ref': ('static const int& u% = Q;', 'full'),
  'constexpr': ('constexpr int u% = Q + 1;', 'full'),
  'if-constexpr': ('inline int u%() { if constexpr (Q == 3) return 1; return 0; }', 'full'),
  'method': ('struct u% { int w() { return Q; } };', 'full'),
  'alignas': ('struct alignas(Q + 1) u% {};', 'full'),
 },
}
USES['ualias'] = USES['talias']
USES['fenum'] = {u: (x[0].replace('Q::', 'Q_'),) + x[1:]
                 for u, x in USES['senum'].items()}
# (template kind, use) -> text and needs of template R and class Q
PAIRS = {
 ('tval', 'inst'): ('static R<Q> u%;', 'full', 'full'),
 ('tptr', 'inst'): ('static R<Q> u%;', 'full', 'fwd'),
 ('tptr', 'ptr'): ('extern R<Q>* u%;', 'fwd', 'fwd'),
 ('tval', 'ptr'): ('extern R<Q>* u%;', 'fwd', 'fwd'),
 ('ftmpl', 'call'): ('inline void u%(Q* p) { R(p); }', 'full', 'full'),
 ('ftmpl', 'explicit'): ('inline void u%(Q* p) { R<Q>(p); }', 'full', 'full'),
 ('tptr', 'inst-ptr'): ('static R<Q*> u%;', 'full', 'fwd'),
 ('tval', 'inst-ptr'): ('static R<Q*> u%;', 'full', 'fwd'),
 ('tval', 'base'): ('struct u% : R<Q> {};', 'full', 'full'),
 ('tptr', 'base'): ('struct u% : R<Q> {};', 'full', 'fwd'),
 ('tval', 'ref'): ('void u%(const R<Q>& r);', 'fwd', 'fwd'),
 ('tptr', 'ref'): ('void u%(const R<Q>& r);', 'fwd', 'fwd'),
 ('tval', 'member'): ('struct u% { R<Q> r; };', 'full', 'full'),
 ('tptr', 'member'): ('struct u% { R<Q> r; };', 'full', 'fwd'),
 ('tval', 'sizeof'): ('static const int u% = sizeof(R<Q>);', 'full', 'full'),
 ('tptr', 'sizeof'): ('static const int u% = sizeof(R<Q>);', 'full', 'fwd'),
 ('tptr', 'call'): ('inline Q* u%(R<Q>* p) { return p->get(); }', 'full', 'fwd'),
 ('tptr', 'data'): ('inline Q* u%(R<Q>& p) { return p.p; }', 'full', 'fwd'),
 ('tptr', 'data-call'): ('inline void u%(R<Q>& p) { p.p->m(); }', 'full', 'full'),
 ('tval', 'data'): ('inline void u%(R<Q>& p) { p.v.m(); }', 'full', 'full'),
 ('tptr', 'typedef'): ('typedef R<Q> u%;', 'author', 'author'),
 ('tval', 'typedef'): ('typedef R<Q> u%;', 'author', 'author'),
 ('tptr', 'typedef-ptr'): ('typedef R<Q>* u%;', 'author', 'author'),
 ('tptr', 'new'): ('inline void* u%() { return new R<Q>; }', 'full', 'fwd'),
 ('tval', 'new'): ('inline void* u%() { return new R<Q>; }', 'full', 'full'),
 ('tptr', 'value-param'): ('void u%(R<Q> r);', 'fwd', 'fwd'),
 ('tval', 'value-param'): ('void u%(R<Q> r);', 'fwd', 'fwd'),
 ('tval', 'delete'): ('inline void u%(R<Q>* p) { delete p; }', 'full', 'full'),
 ('tptr', 'delete'): ('inline void u%(R<Q>* p) { delete p; }', 'full', 'fwd'),
 ('ftmpl', 'address'): ('static void (*u%)(Q*) = &R<Q>;', 'full', 'full'),
 ('ftmpl', 'method'): ('struct u% { void w(Q* p) { R(p); } };', 'full', 'full'),
}


def use_text(u, syms):
    s = syms[u['s']]
    if 't' in u:
        text = PAIRS[(syms[u['t']]['k'], u['u'])][0]
        t = syms[u['t']]
        head = HEADS[t.get('head', 'class T')]
        text = text.replace('R<Q>', 'R<Q%s>' % head).replace(
            'R<Q*>', 'R<Q*%s>' % head).replace('R', qual(t))
    else:
        text = USES[s['k']][u['u']][0]
        head = HEADS[s.get('head', 'class T')]
        text = text.replace('Q<int>', 'Q<int%s>' % head).replace(
            'Q<Z>', 'Q<Z%s>' % head)
    text = text.replace('Q', qual(s)).replace('@', s['n'])
    return text.replace('%', str(u['i'])).split('\n')


def is_main(f):
    return f['name'].endswith(('.cc', '.cpp', '.cxx', '.C', '.c++', '.CC'))


def use_needs(u, syms, f):
    return [(si, 'full' if n == 'fwd' and no_fwd(si, syms, f) else n)
            for si, n in written_needs(u, syms, f)]


def own_needs(f, syms):
    """What the definitions of the symbols of f need."""
    return [(syms[si]['of'], 'full' if no_fwd(syms[si]['of'], syms, f) or given(
        f, syms, syms[si]['of']) else 'fwd')
            for si in f['own'] if 'of' in syms[si]]


def no_fwd(si, syms, f):
    """Is a declaration never enough?"""
    return '=' in syms[si].get('head', '') or f.get('nofwd') == 'all' or \
        si in f.get('nofwd', []) and not (
            syms[si].get('hidden') and si in f['fwds'])


def choose(need, si, f, syms):
    """What is needed where the author has a say."""
    # A header provides what its functions return.
    if need == 'author' or need == 'give' and not is_main(f):
        return 'full' if given(f, syms, si) else 'fwd'
    return 'fwd' if need == 'give' else need


def authors(u, syms):
    """Does what the use needs depend on the author?"""
    x = PAIRS[(syms[u['t']]['k'], u['u'])] if 't' in u else \
        USES[syms[u['s']]['k']][u['u']]
    return 'give' in x or 'author' in x


def written_needs(u, syms, f):
    if 't' in u:
        _, t, q = PAIRS[(syms[u['t']]['k'], u['u'])]
        return [(si, choose(n, si, f, syms)) for si, n in (
            (u['t'], t), (u['s'], q))]
    s = syms[u['s']]
    out = [(u['s'], choose(USES[s['k']][u['u']][1], u['s'], f, syms))]
    if 'of' in s:
        of = USES[s['k']][u['u']][2]
        if of == 'always' or of and not s['given']:
            out.append((s['of'], 'full'))
    return out


# --- programs -------------------------------------------------------------------

class Counter(object):
    def __init__(self):
        self.n = 0

    def next(self):
        self.n += 1
        return self.n


def gen_use(rng, ids, prog, allowed, cfg):
    """A random use of one of the allowed symbols (indices), or of a pair."""
    syms = prog['syms']
    si = rng.choice(allowed)
    k = syms[si]['k']
    if k in ('tval', 'tptr', 'ftmpl'):
        classes = [x for x in allowed if syms[x]['k'] == 'class']
        pairs = sorted(u for kk, u in PAIRS if kk == k and (
            u != 'base' or not (syms[si].get('final') or
                                syms[si].get('kind') == 'union')))
        if classes and (k == 'ftmpl' or rng.random() < 0.7):
            return {'s': rng.choice(classes), 't': si, 'u': rng.choice(pairs),
                    'i': ids.next()}
        if k == 'ftmpl':
            return None
    of = syms[syms[si].get('of', si)]
    may = [x for x in sorted(USES[k]) if not x.endswith('base') or not (
        of.get('final') or of.get('kind') == 'union')]
    return {'s': si, 'u': rng.choice(may), 'i': ids.next()}


def gen_file(rng, ids, prog, name, own, deps, nuses, cfg, extra={}):
    """deps: indices of headers it may use; own: symbols it defines."""
    syms = prog['syms']
    allowed = [i for i, s in enumerate(syms) if set(
        candidates(prog, i)) | {s['h']} <= set(deps)]
    uses = []
    if allowed:
        hot = [rng.choice(allowed) for _ in range(max(1, nuses))]
        for _ in range(nuses):
            u = gen_use(rng, ids, prog, rng.choice([allowed, hot]), cfg)
            if u:
                uses.append(u)
    f = {'name': name, 'own': own, 'uses': uses, 'fwds': [], 'incs': [],
         'order': rng.randrange(1 << 30)}
    f.update(extra)
    if prog.get('nofwd'):
        f['nofwd'] = 'all'
    # What it includes now: enough to compile, otherwise anything.
    style = rng.choice(['umbrella', 'umbrella', 'exact', 'all', 'mixed'])
    need = set()
    opaque = set()
    if cfg.get('rich') and rng.random() < 0.15 and allowed and \
            not prog.get('nofwd') and \
            '--transitive_includes_only' not in prog['opts']:
        opaque = {si for si in allowed if declarable(syms[si]) and
                  not no_fwd(si, syms, f) and rng.random() < 0.6}
        f['fwds'] += sorted(opaque - set(f['fwds']))
    for si in own:
        if 'of' in syms[si]:
            if rng.random() < (0 if prog.get('nofwd') else 0.4):
                if syms[si]['of'] not in f['fwds']:
                    f['fwds'].append(syms[si]['of'])
            else:
                need.add(syms[syms[si]['of']]['h'])
    for u in uses:
        for si, n in use_needs(u, syms, f):
            if n == 'full' or si not in opaque:
                need.add(syms[si]['h'])
    rich = cfg.get('rich')
    incs = []
    if deps and style in ('umbrella', 'mixed') and need:
        incs.append({'umb': max(deps)})
    if style in ('exact', 'all'):
        incs += [{'h': h} for h in sorted(need)]
    for h in deps:
        if {'h': h} not in incs and rng.random() < {
                'umbrella': 0.2, 'exact': 0.1, 'all': 1.0, 'mixed': 0.5}[style]:
            incs.append({'h': h})
    if rich:
        enrich_incs(rng, prog, f, incs, deps, cfg)
    rng.shuffle(incs)
    f['incs'] = incs
    for si in allowed:
        if declarable(syms[si]) and not (
                prog.get('nofwd') and 'template' in declaration(syms[si]) and
                not is_main(f)) and si not in f['fwds'] and rng.random() < cfg.get('fwds', 0.15):
            f['fwds'].append(si)
    if rich:
        f['lay'] = rng.randrange(1, 1 << 30)
        if rng.random() < 0.3:
            f['kept'] = [si for si in f['fwds'] if rng.random() < 0.4]
        if not prog.get('nofwd') and allowed and rng.random() < 0.15:
            f['nofwd'] = sorted(set(rng.choice(allowed) for _ in range(
                rng.choice([1, 2, 4]))) - set(f.get('kept', [])) - {
                    syms[si].get('of') for si in own} - {
                        syms[u['s']].get('of') for u in uses})
        if not cfg.get('multi') and deps and rng.random() < 0.1:
            f['noinc'] = sorted({
                h for h in deps if not kept(prog, {'h': h}) and not any(
                    i.get('h') == h and 'keep' in i for i in f['incs'])
                and rng.random() < 0.3})
    if rich:
        for s in syms:            # friends of the headers that define them
            g = ([prog['files'][s['h']]] if s['h'] < len(prog['files']) else
                 [extra])[0]
            if 'home' in s and friends(g, f):
                s.setdefault('friends', []).append(name)
    for si in own:
        if 'of' in syms[si]:      # who provides the definition?
            syms[si]['given'] = given(f, syms, syms[si]['of'])
    return f


def given(f, syms, of):
    where = [syms[of].get('home', syms[of]['h']), syms[of].get('exp', -1)]
    if syms[of].get('friends') and f['name'] in syms[of]['friends']:
        where = [syms[of]['h']]
    direct = any(i.get('h') in where for i in f['incs'])
    return direct or of not in f['fwds']


def enrich_incs(rng, prog, f, incs, deps, cfg):
    if 'sys' in f:
        incs[:] = [{'h': h} for h in deps if {'h': h} in incs or
                   {'umb': max(deps)} in incs]
    for inc in incs:
        if rng.random() < 0.1 and not ('h' in inc and 'priv' in
                                       prog['files'][inc['h']]):
            inc['keep'] = rng.choice(['line', 'region'])
    for h in f.get('exports', []):
        incs[:] = [i for i in incs if i.get('h') != h]
        incs.append({'h': h, 'keep': rng.choice(['export', 'exports'])})


# Headers of the C and C++ libraries that are known to be private.
BUILTIN = [('bits/sched.h', 'sched.h'), ('bits/stat.h', 'sys/stat.h'),
           ('bits/fcntl2.h', 'fcntl.h'), ('bits/types.h', 'sys/types.h'),
           ('bits/atomic_futex.h', 'future'),
           ('bits/exception.h', 'exception'),
           ('bits/waitflags.h', 'sys/wait.h'),
           ('bits/termios.h', 'termios.h'),
           ('bits/socket_type.h', 'sys/socket.h')]
FRIENDS = ['main[.]cc', 'main[.]h', 'main[.].*', '.*[.]cc', 'lib/.*', '.*[.]hpp',
           '(lib|a-b)/.*', 'h[345][.]h', 'nobody', '.*h[24][.]h(pp)?', '.*']


def enrich(rng, cfg, nh):
    """What is special about the program and its headers."""
    rich = {'opts': [], 'attrs': [{} for _ in range(nh)]}
    at = rich['attrs']
    if rng.random() < 0.2:
        rich['dir'] = True
    elif nh > 1 and rng.random() < 0.4:
        for h in range(nh - 1):
            if rng.random() < 0.35:
                at[h]['priv'] = [rng.randrange(h + 1, nh), rng.choice(
                    ['pragma', 'map', 'map', 'regex', 'ref'])]
        for h in range(nh - 1):       # public headers are not private
            if 'priv' in at[h] and 'priv' in at[at[h]['priv'][0]]:
                del at[h]['priv']
    elif nh > 1 and rng.random() < 0.3:
        for h in range(nh - 1):
            if rng.random() < 0.5:
                at[h]['exp'] = rng.randrange(h + 1, nh)
        for h in range(nh - 1):       # no exports of exports
            if 'exp' in at[h] and 'exp' in at[at[h]['exp']]:
                del at[h]['exp']
    if rng.random() < 0.3:
        for h in range(rng.randrange(1, nh + 1)):
            at[h]['sys'] = rng.choice(['sys/s%d.h', 's%d', 's%d.h'])
        pair = rng.choice(BUILTIN)
        if nh > 1 and 'sys' in at[1] and rng.random() < 0.4 and not any(
                'priv' in a for a in at[:2]) and not any('exp' in a or
                    0 in a.get('priv', [])[:1] for a in at):
            at[0]['sys'], at[1]['sys'] = pair
            at[0]['priv'] = [1, 'builtin']
    for a in at:
        if 'priv' in a and 'dir' not in rich and rng.random() < 0.3:
            a['friend'] = [rng.choice(FRIENDS) for _ in range(
                rng.choice([1, 1, 2]))]
    for a in at:
        if rng.random() < 0.07 and 'priv' not in a:
            a['ak'] = True
    opts = rich['opts']
    for o, p in (('--transitive_includes_only', 0.1),
                 ('--quoted_includes_first', 0.15), ('--cxx17ns', 0.15),
                 ('--comment_style=long', 0.15), ('--no_comments', 0.07),
                 ('--update_comments', 0.1), ('--no_default_mappings', 0.1)):
        if rng.random() < p:
            opts.append(o)
    if '--no_default_mappings' in opts and at[0].get('priv', [0, 0])[1] == \
            'builtin':
        del at[0]['priv']
        at[0].pop('friend', None)
    if rng.random() < 0.2:
        opts.append('--error' + rng.choice(['', '=3', '=0']))
    if rng.random() < 0.07:
        opts.append('--error_always' + rng.choice(['', '=5']))
    if rng.random() < 0.1:
        h = rng.randrange(nh)
        if 'priv' not in at[h] and '%d' in at[h].get('sys', '%d'):
            rich['keepglob'] = h
    if rng.random() < 0.15:
        rich['width'] = rng.choice([1, 20, 40, 60, 80, 100])
    return rich


def generate(rng, cfg):
    ids = Counter()
    nh = rng.choice(cfg.get('headers', [1, 2, 3, 4, 6, 8]))
    prog = {'syms': [], 'files': [], 'opts': []}
    dirs = ['', '', 'lib/', 'lib/core/', 'a-b/']
    cfg = dict(cfg, rich=rng.random() < cfg.get('rich', 0))
    rich = {}
    if cfg['rich']:
        rich = enrich(rng, cfg, nh)
        prog['opts'] = rich['opts']
        cfg['multi'] = any('exp' in a for a in rich['attrs'])
        if rich.get('dir'):
            dirs = ['']
            prog['dir'] = 'proj/'
        for k in ('keepglob', 'width'):
            if k in rich:
                prog[k] = rich[k]
    if cfg['rich'] and rng.random() < 0.1:
        prog['nofwd'] = True
    for h in range(nh):
        own = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            s = gen_symbol(rng, ids.next())
            s['h'] = h
            classes = [i for i, x in enumerate(prog['syms'])
                       if x['k'] == 'class' and set(candidates(
                           prog, i)) | {x['h']} <= set(range(h))]
            if classes and rng.random() < cfg.get('alias', 0.2):
                s = gen_symbol(rng, ids.next(), ['talias', 'ualias', 'rfunc'])
                s.update(h=h, of=rng.choice(classes), given=True)
            if rich or cfg.get('dress'):
                dress(rng, s)
            own.append(len(prog['syms']))
            prog['syms'].append(s)
            if rich and 'priv' in rich['attrs'][h]:
                s['home'] = rich['attrs'][h]['priv'][0]
            elif rich and not rich.get('dir') and h + 1 < nh and s['k'] in (
                    'func', 'macro', 'fmacro', 'var', 'const', 'ftmpl',
                    'alias') and not any('exp' in a for a in rich['attrs']) \
                    and rng.random() < 0.07:
                x = rng.randrange(h + 1, nh)
                if 'priv' not in rich['attrs'][x]:
                    s.update(home=x, smap=True)
            if rich and 'exp' in rich['attrs'][h]:
                s['exp'] = rich['attrs'][h]['exp']
        deps = list(range(h))
        n = rng.choice([0, 0, 1, 2, 4]) if h else 0
        name = '%sh%d.%s' % (rng.choice(dirs), h, rng.choice(
            ['h', 'h', 'hpp']))
        extra = {}
        if rich:
            extra = rich['attrs'][h]
            if 'sys' in extra:
                name = extra['sys'].replace('%d', str(h))
            extra['exports'] = [g for g in range(h) if rich['attrs'][g].get(
                'priv', [rich['attrs'][g].get('exp')])[0] == h]
        prog['files'].append(gen_file(rng, ids, prog, name, own, deps, n, cfg,
                                      extra))
    gen_tu(rng, ids, prog, 'main', cfg)
    if cfg['rich'] and not multi(prog) and \
            '--no_comments' not in prog['opts']:
        for f in prog['files'] + [prog['main']]:
            if f['uses'] and rng.random() < 0.3:
                add_late(rng, prog, f)
    prog['also'] = rng.random() < 0.4
    if cfg['rich'] and not multi(prog) and not prog.get('dir') and \
            not prog.get('nofwd') and rng.random() < 0.3 and \
            '--transitive_includes_only' not in prog['opts']:
        add_prefix(rng, prog)
    if cfg['rich'] and not multi(prog) and rng.random() < 0.15 and \
            not {'--no_comments', '--pch_in_code'} & set(prog['opts']):
        for f in prog['files'] + [prog['assoc'], prog['main']]:
            if f:
                repeat(rng, prog, f)
    return prog


def repeat(rng, prog, f):
    """Say some things more than once."""
    for key, ok in (('incs', lambda i: not kept(prog, i)),
                    ('fwds', lambda si: si not in f.get('kept', []) and
                     si not in [x for x, _ in f.get('late', [])])):
        for x in list(f[key]):
            if ok(x) and rng.random() < 0.3:
                for _ in range(rng.choice([1, 1, 2])):
                    f[key].insert(rng.randrange(len(f[key]) + 1), x)


def add_prefix(rng, prog):
    """Prefix headers, on the command line or in the code."""
    if any('priv' in f for f in prog['files']) or any(
            'home' in x for x in prog['syms']):
        return          # a header goes by where the definition is
    may = [h for h, f in enumerate(prog['files']) if 'sys' not in f]
    if rng.random() < 0.3 and not prog['assoc'] and not any(
            f.get('noinc') for f in prog['files'] + [prog['main']]):
        prog['opts'].append('--pch_in_code')
    elif may:
        prog['prefix'] = rng.sample(may, min(len(may), rng.choice([1, 1, 2])))
    how = rng.choice(['', 'add', 'keep', 'remove', 'remove'])
    if how:
        prog['opts'].append('--prefix_header_includes=' + how)
    if how == 'remove' and conflicts(prog):
        prog['opts'][-1] = '--prefix_header_includes=keep'


def conflicts(prog):
    """Is a line to be both kept and removed?"""
    gone = superseded(prog)[0]
    for f in prog['files'] + [prog['assoc'], prog['main']]:
        for inc in f['incs'] if f else []:
            if kept(prog, inc) and not marks(prog, inc) and inc_name(
                    prog, inc) in gone:
                return True
        for si in f.get('kept', []) if f else []:
            if prog['files'][prog['syms'][si]['h']]['name'] in gone:
                return True
    return False


def add_late(rng, prog, f):
    """Forward declarations between the uses: only those below see them."""
    syms = prog['syms']
    may = []
    for si in sorted({x[0] for u in f['uses'] for x in use_needs(u, syms, f)}):
        if declarable(syms[si]) and not no_fwd(si, syms, f) and \
                si not in f['fwds'] and si not in f['own'] and not any(
                    syms[x].get('of') == si for x in
                    f['own'] + [u['s'] for u in f['uses']]) and not any(
                        si in (u['s'], u.get('t')) and authors(u, syms)
                        for u in f['uses']):
            may.append(si)
    for si in may:
        mine = [u for u in f['uses'] if u['s'] == si and 't' not in u]
        if mine and syms[si]['k'] == 'class' and rng.random() < 0.4:
            # In the bodies of methods, which are compiled at the end.
            for u in mine:
                u['u'] = rng.choice(['method-ptr', 'method-cast',
                                     'method-lambda', 'method-sizeof'])
        if rng.random() < 0.5:
            f.setdefault('late', []).append([si, rng.choice(
                [rng.randrange(len(f['uses']) + 1), len(f['uses'])])])


def late(f, syms):
    """{symbol: (is it used above, is it used below)}"""
    out = {}
    for si, k in f.get('late', []):
        out[si] = [any(si == x[0] for u in us for x in use_needs(u, syms, f))
                   for us in (f['uses'][:k], f['uses'][k:])]
    return out


def gen_tu(rng, ids, prog, name, cfg):
    deps = list(range(len(prog['files'])))
    prog['assoc'] = None
    pair = ('%s.cc', '%s.h')
    if cfg.get('rich') and rng.random() < 0.3 and not cfg.get('tus'):
        pair = rng.choice([x for x in ASSOCIATED if '/' not in x[0] + x[1] or
                           not prog.get('dir')])
    if rng.random() < cfg.get('assoc', 0.4):
        prog['assoc'] = gen_file(rng, ids, prog, pair[1] % name, [], deps,
                                 rng.choice([0, 1, 2, 5]), cfg)
        prog['assoc']['mark'] = pair[2:] == (True,)
    prog['main'] = gen_file(rng, ids, prog, pair[0] % name, [], deps,
                            rng.choice(cfg.get('uses', [0, 1, 2, 4, 8, 16])),
                            cfg)


# Names of source files and their associated headers, and whether that must be
# said with a pragma.
ASSOCIATED = [('%s_test.cc', '%s.h'), ('%s_unittest.cc', '%s.h'),
              ('%s_regtest.cc', '%s.hpp'), ('%s.cc', '%s-inl.h'),
              ('%s.cpp', '%s.hh'), ('%s.cxx', '%s.hxx'), ('%s.C', '%s.H'),
              ('%s.c++', '%s.h'), ('%s.CC', '%s.inl'),
              ('p/internal/%s.cc', 'p/public/%s.h'),
              ('p/src/%s.cc', 'p/include/%s.h'),
              ('lib/%s.cc', 'lib/%s.h'), ('%s.cc', 'api_%s.h', True),
              ('%s.cc', 'p/public.h%.0s', True)]


def generate_project(rng, cfg):
    """Several translation units over common headers."""
    prog = generate(rng, cfg)
    ids = Counter()
    ids.n = 1000
    prog['tus'] = []
    for k in range(rng.choice(cfg.get('tus', [1, 2, 2, 3]))):
        gen_tu(rng, ids, prog, 'tu%d' % k, cfg)
        prog['tus'].append({'main': prog.pop('main'),
                            'assoc': prog.pop('assoc')})
    return prog


def view(prog, k):
    """The program that translation unit k of a project is."""
    return dict(prog, **prog['tus'][k])


def project_texts(prog):
    out = {}
    for k in range(len(prog['tus'])):
        out.update(texts(view(prog, k)))
    return out


NOT_CODE = re.compile(r'#\s*include\b|namespace \w+ \{( namespace \w+ \{)*$|'
                      r'\}  // namespace')
FORWARD = re.compile(
    r'((?:namespace [\w:]+ \{ ?)*)(?:template <[^<>]*> )?(?:class|struct|union|'
    r'enum(?: class| struct)?) (\w+)(?: : [\w ]+)?;(?: ?\})*(?:\s*//.*)?$')


def adopt(prog, current):
    """The project whose files have the includes and forward declarations
    that the texts {name: text} have now."""
    import copy
    from . import fixer
    out = copy.deepcopy(prog)
    by_name = {f['name']: {'h': h} for h, f in enumerate(prog['files'])}
    by_name.update({'umb%d.h' % h: {'umb': h}
                    for h in range(len(prog['files']))})
    decls = {}
    for si, s in enumerate(prog['syms']):
        decls[(tuple(s['ns'].split('::')) if s['ns'] else (), s['n'])] = si
    every = [f for t in out['tus'] for f in (t['main'], t['assoc']) if f]
    for f in every + out['files']:
        lines = current[f['name']].split('\n')
        at = {'inc': [], 'fwd': []}
        f['incs'], f['fwds'], f['odd'] = [], [], []
        raw = [l.encode() for l in lines]
        for n, (line, stack) in enumerate(zip(lines, fixer.scan(raw)), 1):
            m = re.match(r'#\s*include\s*"([^"]*)"', line)
            if m:
                if m.group(1) in by_name:
                    f['incs'].append(by_name[m.group(1)])
                    at['inc'].append((n, n))
                elif m.group(1) != f['name'].replace('.cc', '.h'):
                    f['odd'].append(line)
                continue
            ns = [x[10:].decode() for x in stack if x.startswith(b'namespace')]
            m = FORWARD.match(line)
            if m:
                ns = [x for x in re.split('::', '::'.join(
                    ns + re.findall(r'namespace ([\w:]+)', m.group(1)))) if x]
                si = decls.get((tuple(ns), m.group(2)))
                if si is not None:
                    f['fwds'].append(si)
                    at['fwd'].append((n, n))
                else:
                    f['odd'].append(line)
        f['at'] = at
    regive(out)
    return out


def code_lines(prog, name, text):
    """What of a text is neither include nor forward declaration."""
    out = []
    for line in text.split('\n'):
        if not line.strip() or NOT_CODE.match(line) or line == '}' or \
                FORWARD.match(line):
            continue
        out.append(line)
    return out


def inc_name(prog, inc):
    if 'umb' in inc:
        return 'umb%d.h' % inc['umb']
    return prog['files'][inc['h']]['name']


def inc_line(prog, inc):
    name = inc_name(prog, inc)
    if 'h' in inc and 'sys' in prog['files'][inc['h']]:
        return '#include <%s>' % name
    return '#include "%s"' % name


def head_line(prog, h):
    return inc_line(prog, {'h': h})


def render(prog, f, main=False):
    """Returns the lines of a file and the line numbers of interest: (first,
    last) for each include and forward declaration."""
    syms = prog['syms']
    lay = random.Random(f['lay']) if f.get('lay') else None
    lines = []

    def pad():
        if lay and lay.random() < 0.25:
            lines.extend(lay.choice([
                [''], ['// a comment'], ['/* a comment', ' * of two lines */'],
                ['', ''], ['extern int pad%s;' % re.sub(r'\W', '_', f['name'])],
                ['#ifdef NOT_DEFINED', '#include "nothing.h"', 'class None;',
                 '#endif']]))

    guard = None
    if not main:
        if lay and lay.random() < 0.4:
            guard = 'GUARD_' + re.sub(r'\W', '_', f['name']).upper()
            lines += ['#ifndef ' + guard, '#define ' + guard]
        else:
            lines.append('#pragma once')
    if f.get('priv') and f['priv'][1] == 'pragma':
        lines.append('// IWYU pragma: private, include %s' % head_line(
            prog, f['priv'][0])[9:])
    for n, x in enumerate(f.get('friend', [])):
        lines.append('// IWYU pragma: friend ' + (
            '"%s"' % x if (n + len(f['own'])) % 2 else x))
    if f.get('ak'):
        lines.append('// IWYU pragma: always_keep')
    for h in f.get('noinc', []):
        lines.append('// IWYU pragma: no_include ' + head_line(prog, h)[9:])
    if f.get('nofwd') and f['nofwd'] != 'all':
        for si in f['nofwd']:
            lines.append('// IWYU pragma: no_forward_declare ' + qual(syms[si]))
    at = {'inc': [], 'fwd': []}
    if main and prog['assoc']:
        pad()
        lines.append('#include "%s"%s' % (
            prog['assoc']['name'], '  // IWYU pragma: associated'
            if prog['assoc'].get('mark') else ''))
    region = None
    for inc in f['incs']:
        keep = inc.get('keep')
        wants = {'region': 'keep', 'exports': 'exports'}.get(keep)
        if region and wants != region:
            lines.append('// IWYU pragma: end_' + region)
            region = None
        if wants and not region:
            lines.append('// IWYU pragma: begin_' + wants)
            region = wants
        pad()
        line = inc_line(prog, inc)
        if lay and lay.random() < 0.2:
            line = line.replace('#include', lay.choice(
                ['#  include', '# include', ' #include', '#include ']))
        if keep == 'line':
            line += '  // IWYU pragma: keep'
        elif keep == 'export':
            line += '  // IWYU pragma: export'
        elif lay and lay.random() < 0.2:
            line += lay.choice(['  // for something', '  /* why */', ' '])
        lines.append(line)
        at['inc'].append((len(lines), len(lines)))
    if region:
        lines.append('// IWYU pragma: end_' + region)
    for si in f['fwds']:
        pad()
        text = [declaration(syms[si])]
        kept = si in f.get('kept', [])
        if lay and syms[si]['ns'] and lay.random() < 0.3:
            parts = syms[si]['ns'].split('::')
            text = ['namespace %s {' % x for x in parts] + [
                declaration(dict(syms[si], ns=''))] + ['}'] * len(parts)
        d = [i for i, x in enumerate(text) if x.endswith(';') or
             x.endswith('; }') or x.endswith('} }')][0]
        if kept:
            text[d] += '  // IWYU pragma: keep'
        elif lay and lay.random() < 0.15 and 'template' not in text[d] and \
                len(text) == 1 and not syms[si]['ns']:
            text = [text[0][:-1], '  ;']     # a declaration ends before its ;
        n = len(lines) + d + 1
        lines += text
        at['fwd'].append((n, n))
    for si in f['own']:
        lines += define(syms[si], syms)
    for k, u in enumerate(f['uses'] + [None]):
        for si, n in f.get('late', []):
            if min(n, len(f['uses'])) == k:
                lines.append(declaration(syms[si]))
                at.setdefault('late', []).append((len(lines), len(lines)))
        if u is None:
            break
        lines += use_text(u, syms)
        if lay and lay.random() < 0.1:
            lines.append('')
    if guard:
        lines.append('#endif  // ' + guard)
    return lines, at


def texts(prog):
    out = {}
    for h, f in enumerate(prog['files']):
        out[f['name']] = render(prog, f)[0]
        out['umb%d.h' % h] = ['#pragma once'] + [
            head_line(prog, g) for g in range(h + 1)]
    if prog['assoc']:
        out[prog['assoc']['name']] = render(prog, prog['assoc'])[0]
    out[prog['main']['name']] = render(prog, prog['main'], True)[0]
    return {k: '\n'.join(v) + '\n' for k, v in out.items()}


def needs(prog, f):
    """(headers needed, symbols needed at least declared) by its own text."""
    syms = prog['syms']
    full, decl = set(), set()
    for u in f['uses']:
        for si, n in use_needs(u, syms, f):
            if n == 'full':
                full.add(home(prog, si, f))
            else:
                decl.add(si)
    for si, n in own_needs(f, syms):
        if n == 'full':
            full.add(home(prog, si, f))
        else:
            decl.add(si)
    me = [h for h, g in enumerate(prog['files']) if g['name'] == f['name']]
    return full - set(me), {si for si in decl if home(prog, si, f) not in me
                            or syms[si].get('hidden')}


def pch(prog):
    """The #include that stands for a precompiled header."""
    if '--pch_in_code' in prog['opts'] and not prog['assoc'] and \
            prog['main']['incs']:
        return prog['main']['incs'][0]


def marks(prog, inc):
    first = pch(prog)
    return first and all(first.get(x) == inc.get(x) for x in ('h', 'umb'))


def superseded(prog):
    """(the files that the command line makes superfluous, are lines that
    are there removed?)"""
    how = [o[25:] for o in prog['opts'] if o.startswith('--prefix_header_inc')]
    if how in ([], ['add']):
        return set(), False
    t = texts(prog)
    first = pch(prog)
    start = [prog['files'][h]['name'] for h in prog.get('prefix', [])]
    if first:
        first = inc_name(prog, first)
        start += [x for x in includes(t, first)]
    return reachable(prog, t, start) - {first}, how == ['remove']


def kept(prog, inc):
    """Is the line kept whether needed or not?"""
    if inc.get('keep') or marks(prog, inc):
        return True
    if 'h' not in inc:
        return False
    return prog['files'][inc['h']].get('ak') or \
        prog.get('keepglob') == inc['h']


def keeps(prog, f):
    """The headers that f includes whether it needs them or not."""
    return {i['h'] for i in f['incs'] if 'h' in i and kept(prog, i)}


def expected(prog, f, main=False):
    """{'adds': set of lines, 'removes': set of (line, first, last),
    'full': set of lines} or None when nothing is to be changed."""
    syms = prog['syms']
    nested = '--cxx17ns' in prog['opts']
    full, decl = needs(prog, f)
    full |= keeps(prog, f)
    have = set()
    given = set()
    if main and prog['assoc']:
        afull, adecl = needs(prog, prog['assoc'])
        have |= afull | keeps(prog, prog['assoc'])
        given = {si for si in adecl if syms[si].get('hidden') or
                 home(prog, si, prog['assoc']) not in have}
        given = (given | set(prog['assoc'].get('kept', []))) & set(
            prog['assoc']['fwds'])
    direct = {i['h'] for i in f['incs'] if 'h' in i}
    desired = set(h for h in full if h not in have or h in direct)
    plain = {si for si in decl if home(prog, si, f) not in full | have or
             syms[si].get('hidden')}       # only declarations will do
    decls = plain - given
    at = f.get('at') or render(prog, f, main)[1]
    lates = late(f, syms)
    decls -= {si for si, (above, _) in lates.items() if not above}
    desired -= set(f.get('noinc', []))
    gone, remove = superseded(prog)
    if gone:            # lines that the command line makes superfluous
        gone = {h for h in range(len(prog['files']))
                if prog['files'][h]['name'] in gone}
        desired -= {h for h in gone if remove or h not in direct}
        gone = {si for si, s in enumerate(syms)
                if s['h'] in gone and not s.get('hidden')}
        decls -= {si for si in gone if remove or si not in f['fwds']}
        plain -= gone if remove else set()
    adds = {head_line(prog, h) for h in desired - direct}
    adds |= {declaration(syms[si], nested) for si in decls - set(f['fwds'])}
    removes = set()
    keep = set()
    if main and prog['assoc']:
        keep.add('#include "%s"' % prog['assoc']['name'])
    for k, (inc, (n, m)) in enumerate(zip(f['incs'], at['inc'])):
        if inc.get('h') not in desired or inc in f['incs'][:k]:
            if kept(prog, inc):
                keep.add(inc_line(prog, inc))
            else:
                removes.add((inc_line(prog, inc), n, m))
    for k, (si, (n, m)) in enumerate(zip(f['fwds'], at['fwd'])):
        if si in f.get('kept', []) or si in plain and si not in f['fwds'][:k]:
            keep.add('%s  // lines %d-%d' % (declaration(syms[si], nested),
                                             n, m))
        else:
            removes.add((declaration(syms[si], nested), n, m))
    for (si, _), (n, m) in zip(sorted(f.get('late', []), key=lambda x: min(
            x[1], len(f['uses']))), at.get('late', [])):
        if lates[si][1] and si in plain:
            keep.add('%s  // lines %d-%d' % (declaration(syms[si], nested),
                                             n, m))
        else:
            removes.add((declaration(syms[si], nested), n, m))
    keep |= {head_line(prog, h) for h in desired}
    keep |= {declaration(syms[si], nested) for si in decls - set(f['fwds'])}
    if not adds and not removes and '--update_comments' not in prog['opts']:
        return None
    if '--no_comments' in prog['opts']:
        keep = {re.sub(r'  // lines.*', '', x) for x in keep}
        removes = {x[:1] for x in removes}
    return {'adds': adds, 'removes': removes, 'full': keep}


def choice(prog, f, main, got, assoc_got):
    """Complaints about the report `got` on f where the headers to include for
    a symbol can be chosen; assoc_got: the report on the associated header."""
    syms = prog['syms']
    bad = []
    names = {head_line(prog, h): h for h in range(len(prog['files']))}
    me = [h for h, g in enumerate(prog['files']) if g['name'] == f['name']]

    def chosen(file, report):
        if report is None:
            return {i['h'] for i in file['incs'] if 'h' in i}
        return {names[x] for x in report['full'] if x in names}

    def fulls(file):
        out = set()
        for u in file['uses']:
            out |= {si for si, n in use_needs(u, syms, file) if n == 'full'}
        return out | {si for si, n in own_needs(file, syms) if n == 'full'}

    direct = {i['h'] for i in f['incs'] if 'h' in i}
    have = set()
    known = set()
    if main and prog['assoc']:
        have = chosen(prog['assoc'], assoc_got)
        known = (needs(prog, prog['assoc'])[1] | set(
            prog['assoc'].get('kept', []))) & set(prog['assoc']['fwds'])
    will = chosen(f, got)
    uses = {si: candidates(prog, si) for si in fulls(f)}
    uses = {si: c for si, c in uses.items() if not set(c) & set(me)}
    for si, c in sorted(uses.items()):
        if not set(c) & (will | have):
            bad.append('nothing provides %s' % qual(syms[si]))
    only = {c[0] for c in uses.values() if len(c) == 1}
    for h in sorted(will - keeps(prog, f)):
        if not any(h in c and (not set(c) & (will - {h}) or
                               h in direct and not set(c) & (only - {h}) or
                               h in direct & have) for c in uses.values()):
            bad.append('%s is not necessary' % head_line(prog, h))
    for h in sorted(will - direct):
        if not any(h in c and not set(c) & ((direct | have) - {h})
                   for c in uses.values()):
            bad.append('%s need not be added' % head_line(prog, h))
    nested = '--cxx17ns' in prog['opts']
    lines = {declaration(s, nested): si for si, s in enumerate(syms)
             if declarable(s)}
    decl = needs(prog, f)[1]
    provided = {si for si in decl if set(candidates(prog, si)) & (
        will | have | set(me)) and not syms[si].get('hidden')}
    if got is None:
        after = set(f['fwds'])
    else:
        after = {lines[re.sub(r'  // lines.*', '', x)] for x in got['full']
                 if not x.startswith('#')}
    for si in sorted(decl - provided - known - after):
        bad.append('nothing declares %s' % qual(syms[si]))
    for si in sorted(after - set(f.get('kept', []))):
        if si not in decl or si in provided:
            bad.append('the declaration of %s is not necessary' %
                       qual(syms[si]))
        elif si in known and si not in f['fwds']:
            bad.append('the declaration of %s is there already' %
                       qual(syms[si]))
    # Do the sections agree?
    if got is not None:
        at = render(prog, f, main)[1]
        adds = {head_line(prog, h) for h in will - direct} | {
            declaration(syms[si], nested) for si in after - set(f['fwds'])}
        removes = set()
        for inc, (n, m) in zip(f['incs'], at['inc']):
            if inc.get('h') not in will and not kept(prog, inc):
                removes.add((inc_line(prog, inc), n, m))
        for si, (n, m) in zip(f['fwds'], at['fwd']):
            if si not in after:
                removes.add((declaration(syms[si], nested), n, m))
        if '--no_comments' in prog['opts']:
            removes = {x[:1] for x in removes}
        if adds != got['adds'] or removes != got['removes']:
            bad.append('the sections do not agree with each other')
        if not adds and not removes and '--update_comments' not in prog['opts']:
            bad.append('nothing to do, but not said to be correct')
    elif any(i.get('h') not in will and not kept(prog, i) for i in f['incs']):
        bad.append('not correct, but said to be')
    return bad


def reasons(prog, f):
    """{'#include "h"': (symbols that must, that may be given as reasons)}"""
    syms = prog['syms']
    long = '--comment_style=long' in prog['opts']
    out = {}
    every = [x for u in f['uses'] for x in use_needs(u, syms, f)]
    every += own_needs(f, syms)
    for si, n in every:
            line = head_line(prog, home(prog, si, f))
            c = candidates(prog, si)
            if len(c) > 1:
                for h in c:
                    must, may = out.setdefault(head_line(prog, h),
                                               (set(), set()))
                    name = qual(syms[si]) if long else syms[si]['n']
                    may.add(name + ' (ptr only)')
                    if n == 'full':
                        may.add(name)
                continue
            if prog['files'][home(prog, si, f)]['name'] == f['name']:
                line = head_line(prog, syms[si]['h'])    # exported
                n = 'may'
            must, may = out.setdefault(line, (set(), set()))
            name = syms[si]['n']
            if long:
                name = qual(syms[si])
            if n == 'full':
                must.add(name)
            elif n == 'may':
                may.add(name)
            else:
                may.add(name + ' (ptr only)')
    for u in f['uses']:
        if u['u'] == 'in-class-enum':
            s = syms[u['s']]
            for h in candidates(prog, u['s']) + [home(prog, u['s'], f)]:
                out.setdefault(head_line(prog, h), (set(), set()))[1].add(
                    '%s::a_%s' % (qual(s) if long else s['n'], s['n']))
    return out


ADD = re.compile(r'^(.*) should add these lines:$')
REMOVE = re.compile(r'^(.*) should remove these lines:$')
FULL = re.compile(r'^The full include-list for (.*):$')
CORRECT = re.compile(r'^\((.*) has correct #includes/fwd-decls\)$')


def parse(text):
    """Report text -> {file: record or None}, {file: {line: symbols}}."""
    out = {}
    why = {}
    where = None
    for line in text.replace(' = true', '').split('\n'):
        m = ADD.match(line)
        if m:
            if m.group(1) in out:
                raise ValueError('two reports for ' + m.group(1))
            rec = out[m.group(1)] = {'adds': set(), 'removes': set(),
                                     'full': set()}
            where = 'adds'
            continue
        m = REMOVE.match(line)
        if m:
            rec = out[m.group(1)]
            where = 'removes'
            continue
        m = FULL.match(line)
        if m:
            rec = out[m.group(1)]
            why[m.group(1)] = {}
            name = m.group(1)
            where = 'full'
            continue
        m = CORRECT.match(line)
        if m:
            if m.group(1) in out:
                raise ValueError('two reports for ' + m.group(1))
            out[m.group(1)] = None
            where = None
            continue
        if line == '---':
            where = None
        if not line or where is None:
            continue
        if where == 'removes':
            m = re.match(r'^- (.*)  // lines (\d+)-(\d+)$', line)
            item = (m.group(1), int(m.group(2)), int(m.group(3))) if m else \
                (re.match(r'^- (.*)$', line).group(1),)
        else:
            parts = re.split(r'  // for ', line, maxsplit=1)
            item = parts[0].rstrip() if len(parts) > 1 else line
            if where == 'full' and len(parts) > 1:
                why[name][item] = [x for x in parts[1].split(', ')
                                   if not x.endswith('...')]
        if item in rec[where]:
            raise ValueError('%s listed twice for %s' % (item, where))
        rec[where].add(item)
    return out, why


def rank(line, quoted_first, associated):
    """Where a line of a report belongs."""
    m = re.match(r'#include ("(.*)"|<(.*)>)', line)
    if not m:
        return 9
    if m.group(2) is not None:
        return 0 if m.group(2) == associated else 1 if quoted_first else 4
    return 2 if m.group(3).endswith('.h') else 3


def form(prog, text):
    """What is wrong with the form of a report: the order of its sections and
    lines, its comments and its width."""
    quoted_first = '--quoted_includes_first' in prog['opts']
    at = prog.get('dir', '')
    wide = prog.get('width', 1000) - 1
    first = pch(prog)
    first = first and inc_line(prog, first)
    out = []
    lines = text.split('\n')
    state = None
    for n, line in enumerate(lines):
        for k, r in enumerate((ADD, REMOVE, FULL)):
            m = r.match(line)
            if not m:
                continue
            if (state or (None, 'end')) != ((None, 'end') if k == 0 else
                                            (m.group(1), k - 1)):
                out.append('%r is out of place' % line)
            if k == 0:
                columns = set()
            if n and lines[n - 1]:
                out.append('no blank line before %r' % line)
            state, before = (m.group(1), k), (-1, '')
            associated = prog['assoc']['name'] if (
                prog['assoc'] and state[0] == at + prog['main']['name']) \
                else None
            break
        else:
            if line == '---':
                if state is None or state[1] != 2:
                    out.append('stray ---')
                elif len(columns) > 1:
                    out.append('comments of %s are not aligned' % state[0])
                state = None
            elif state and line:
                m = re.match(r'(?:- )?(.*?)\s*(  // (for|lines) .*)?$', line)
                here = (rank(m.group(1), quoted_first, associated), m.group(1))
                if m.group(1) == first:
                    here = (0, m.group(1))
                if here < before:
                    out.append('%r is listed after %r' % (here[1], before[1]))
                before = here
                if m.group(3) == 'for':
                    columns.add(m.start(2))
                    if len(line) > wide:
                        out.append('too wide: %r' % line)
    return out


def mapping_files(prog):
    """{name: text} of the mapping files."""
    own, ref = [], []
    for h, f in enumerate(prog['files']):
        if f.get('priv', ['', 'pragma'])[1] not in ('pragma', 'builtin'):
            private, public = (head_line(prog, x)[9:].replace('"', '\\"')
                               for x in (h, f['priv'][0]))
            if f['priv'][1] == 'regex':
                private = '@' + private.replace('.', '[.]')
            line = '  { "include": ["%s", "private", "%s", "public"] },' % (
                private, public)
            (ref if f['priv'][1] == 'ref' else own).append(line)
    for s in prog['syms']:
        if s.get('smap') and s['home'] < len(prog['files']):
            own.append('  { "symbol": ["%s", "private", "%s", "public"] },' % (
                qual(s), head_line(prog, s['home'])[9:].replace('"', '\\"')))
    if not own and not ref:
        return {}
    out = {}
    if ref:
        own.append('  { "ref": "more.imp" },')
        out['more.imp'] = '[\n# referred to\n%s\n]\n' % '\n'.join(ref)
    out['main.imp'] = '[\n%s\n]\n' % '\n'.join(own)
    return out


def arguments(prog):
    out = ['-Xiwyu', '--max_line_length=%d' % prog.get('width', 1000)]
    for o in prog['opts']:
        out += ['-Xiwyu', o]
    if prog['also']:
        out += ['-Xiwyu', '--check_also=*h[0-9]*']
    if prog.get('nofwd'):
        out += ['-Xiwyu', '--no_fwd_decls']
    if 'keepglob' in prog and prog['keepglob'] < len(prog['files']):
        out += ['-Xiwyu', '--keep=*' + prog['files'][prog['keepglob']]['name']]
    if mapping_files(prog):
        out += ['-Xiwyu', '--mapping_file=main.imp']
    if any('sys' in f for f in prog['files']):
        out += ['-isystem', INC]
    if not prog.get('dir'):
        out.append('-I.')
    for h in prog.get('prefix', []):
        out += ['-include', prog['files'][h]['name']]
    return out + [prog.get('dir', '') + prog['main']['name']]


def files(prog):
    system = {f['name'] for f in prog['files'] if 'sys' in f}
    out = {(INC + '/' + k if k in system else '%s/%s%s' % (
        SRC, prog.get('dir', ''), k)): v for k, v in texts(prog).items()}
    for k, v in mapping_files(prog).items():
        out['%s/%s' % (SRC, k)] = v
    return out


def reachable(prog, t=None, start=None):
    t = t or texts(prog)
    seen = set()
    todo = list(start) if start is not None else [prog['main']['name']] + [
        prog['files'][h]['name'] for h in prog.get('prefix', [])]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += includes(t, x)
    return seen


def includes(t, x):
    return [y for y in re.findall(r'#\s*include\s*["<](.*?)[">]', t[x])
            if y in t]


def look(prog, t=None):
    """The program with what the compiler does not see."""
    seen = reachable(prog, t)
    return dict(prog, seen=seen, syms=[
        dict(s, hidden=prog['files'][s['h']]['name'] not in seen)
        for s in prog['syms']])


def expectations(prog):
    """{file: (expected report, file description)}"""
    at = prog.get('dir', '')
    want = {at + prog['main']['name']: (expected(prog, prog['main'], True),
                                        prog['main'])}
    if prog['assoc']:
        want[at + prog['assoc']['name']] = (expected(prog, prog['assoc']),
                                            prog['assoc'])
    if prog['also']:
        for f in prog['files']:
            if f['name'] in prog['seen'] and 'sys' not in f:
                want[at + f['name']] = (expected(prog, f), f)
    return want


def exit_status(prog, reports):
    """The documented exit status, with these reports on the files."""
    for o in prog['opts']:
        if o.startswith('--error_always'):
            return int((o.split('=') + [1])[1])
    for o in prog['opts']:
        if o.startswith('--error') and any(
                w and (w['adds'] or w['removes']) for w in reports):
            return int((o.split('=') + [1])[1])
    return 0


def kinds(prog, f):
    """What the report on f had to decide."""
    syms = prog['syms']
    direct = {i['h'] for i in f['incs'] if 'h' in i}
    out = set()
    for u in f['uses']:
        s = syms[u['s']]
        t = syms[u['t']]['k'] if 't' in u else ''
        out.add('%s%s/%s direct=%d fwd=%d own=%d' % (
            t, s['k'], u['u'], s['h'] in direct, u['s'] in f['fwds'],
            is_main(f)))
    return out


def shrink(prog):
    """Smaller programs (they need not compile: the caller looks)."""
    import copy
    every = ['main', 'assoc'] + list(range(len(prog['files'])))

    def get(p, k):
        return p[k] if isinstance(k, str) else p['files'][k]
    if prog['assoc']:
        p = copy.deepcopy(prog)
        p['assoc'] = None
        yield p
    if 'width' in prog:
        yield {k: v for k, v in prog.items() if k != 'width'}
    for i in range(len(prog.get('prefix', []))):
        yield dict(prog, prefix=prog['prefix'][:i] + prog['prefix'][i + 1:])
    for i in range(len(prog['opts'])):
        yield dict(prog, opts=prog['opts'][:i] + prog['opts'][i + 1:])
    if 'keepglob' in prog:
        yield {k: v for k, v in prog.items() if k != 'keepglob'}
    if prog.get('also'):
        yield dict(prog, also=False)
    if prog.get('nofwd'):
        p = copy.deepcopy(prog)
        del p['nofwd']
        for k in every:
            if get(p, k):
                del get(p, k)['nofwd']
        yield p
    for i, s in enumerate(prog['syms']):
        for attr in ('head', 'kind', 'attr', 'final', 'smap'):
            if attr in s:
                p = copy.deepcopy(prog)
                del p['syms'][i][attr]
                if attr == 'smap':
                    del p['syms'][i]['home']
                yield p
    for k in every:
        f = get(prog, k)
        if not f:
            continue
        for attr in ('lay', 'ak', 'kept', 'sys', 'priv', 'exp', 'noinc', 'friend',
                     'nofwd'):
            if f.get(attr) and f[attr] != 'all' and not (
                    attr in ('sys', 'priv') and
                    'builtin' in prog['files'][0].get('priv', [])):
                p = copy.deepcopy(prog)
                if attr == 'lay':
                    get(p, k)[attr] = 0
                else:
                    del get(p, k)[attr]
                if attr in ('priv', 'exp'):
                    for si in f['own']:
                        p['syms'][si].pop('home' if attr == 'priv' else attr,
                                          None)
                        p['syms'][si].pop('friends', None)
                    for g in p['files']:
                        for inc in g['incs']:
                            if inc.get('h') == k and inc.get(
                                    'keep', '').startswith('export'):
                                del inc['keep']
                regive(p)
                yield p
        for i in range(len(f.get('late', []))):
            p = copy.deepcopy(prog)
            del get(p, k)['late'][i]
            yield p
        for i, inc in enumerate(f['incs']):
            if inc.get('keep') in ('line', 'region'):
                p = copy.deepcopy(prog)
                del get(p, k)['incs'][i]['keep']
                yield p
        for field in ('uses', 'fwds', 'incs'):
            n = len(f[field])
            step = n
            while step:
                for at in range(0, n, step):
                    if field == 'incs' and any(
                            i.get('keep', '').startswith('export')
                            for i in f[field][at:at + step]):
                        continue
                    p = copy.deepcopy(prog)
                    del get(p, k)[field][at:at + step]
                    regive(p)
                    yield p
                step //= 2
        for si in f['own']:
            used = any(u['s'] == si or u.get('t') == si
                       for j in every if get(prog, j)
                       for u in get(prog, j)['uses']) or any(
                si in get(prog, j)['fwds'] for j in every if get(prog, j)) \
                or any(s.get('of') == si for s in prog['syms'])
            if not used and f['own']:
                p = copy.deepcopy(prog)
                get(p, k)['own'].remove(si)
                yield p


def shrink_project(prog):
    import copy
    if len(prog['tus']) > 1:
        for k in range(len(prog['tus'])):
            p = copy.deepcopy(prog)
            del p['tus'][k]
            p['gone'] = k
            yield p
    for k in range(len(prog['tus'])):
        for q in shrink(view(prog, k)):
            tu = {'main': q.pop('main'), 'assoc': q.pop('assoc')}
            q['tus'] = copy.deepcopy(prog['tus'])
            q['tus'][k] = tu
            yield q


def regive(prog):
    for f in prog['files']:
        for si in f['own']:
            s = prog['syms'][si]
            if 'of' in s:
                s['given'] = given(f, prog['syms'], s['of'])
