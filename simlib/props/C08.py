"""fix_includes: the edits do not depend on how the reports were gathered."""
import re

from simlib import fixer, frame, popen, tool, vos

ID = 'C08'
LEVEL = 'exploration'
COUNTS = {'quick': 9000, 'thorough': 50000}
RULE = ('A scenario is a set of files and the reports of 2 to 6 analyses about '
        'them, applied three times to fresh copies: as given; permuted and '
        'partly repeated; and as printed by iwyu_tool, which ran the analyses '
        'as simulated processes under a seeded schedule. Non-trivial: at '
        'least two reports name the same file and something was edited.')
STATES = 'distinct pairs of (order in which reports arrived, result)'
REAL = ['fix_includes.py and iwyu_tool.py, whole programs, the second\'s '
        'output being the first\'s input']
STUB = ['file system', 'process table and clock', 'the analyses (reports '
        'generated in the analyser\'s format)']
ASSUMPTIONS = ['a list of additions printed by several analyses in different '
               'order may be inserted in different order, unless --reorder is '
               'given; reasons in comments may differ',
               'where reports spell the name of one file differently, only '
               'the meaning of the result is compared (the first spelling '
               'decides which #include is the associated one)']
PROBES = ['byte-identical', 'equivalent', 'several-reports', 'repeated',
          'via-tool', 'out-of-order']

IWYU = '/sim/bin/include-what-you-use'


def generate(rng, index, tier):
    sc = fixer.gen_common(rng, {'units': [2, 2, 3, 4, 6], 'n': [1, 1, 2, 3]})
    # Analyses agree on things: some of them repeat what others ask for.
    for u in sc['units'][1:]:
        for r in u['records']:
            for v in sc['units']:
                for s in v['records']:
                    if v is u or s['file'] != r['file'] or r['correct'] or \
                            s['correct']:
                        continue
                    for a in s['adds']:
                        if rng.random() < 0.4 and not any(
                                same(a, b) for b in r['adds']):
                            r['adds'].append(dict(a))
                    if rng.random() < 0.4:
                        r['remove'] = sorted(set(r['remove']) |
                                             set(s['remove']))
    if rng.random() < 0.7:
        spell = {}
        for u in sc['units']:
            for r in u['records']:
                if not r['correct']:
                    r['spell'] = spell.setdefault(r['file'], r['spell'])
    # One of them may have compiled a file with a declaration left out.
    for u in sc['units']:
        for r in u['records']:
            if not r['correct'] and rng.random() < 0.3:
                r['unseen'] = sorted({
                    l['id'] for l in fixer.lines_of(sc['files'][r['file']])
                    if l['k'] == 'fwd' and l['id'] not in r['remove'] and
                    rng.random() < 0.5})
    n = len(sc['units'])
    order = list(range(n))
    rng.shuffle(order)
    for _ in range(rng.choice([0, 1, 1, 3])):
        order.insert(rng.randrange(len(order) + 1), rng.randrange(n))
    sc['order'] = order
    sc['tool'] = {'jobs': rng.choice([1, 2, 3, 8]), 'kids': [
        {'start': round(rng.random() * 0.3, 3),
         'end': round(0.3 + rng.random() * 3, 3),
         'cut': round(rng.random(), 3), 'code': rng.choice([0, 2, 2, 3])}
        for _ in range(n)]}
    return sc


def same(a, b):
    return a.get('h') == b.get('h') and a.get('fwd') == b.get('fwd')


def through_tool(sc, out):
    """What iwyu_tool prints when the analyses print these reports."""
    fs = vos.FileSystem()
    fs.makedirs(fixer.PROJ)
    fs.put(IWYU, b'\x7fELF', 0o755)
    import json
    db = []
    rules = {}
    for i, u in enumerate(sc['units']):
        kid = sc['tool']['kids'][i]
        name = '%s/unit%d.cc' % (fixer.PROJ, i)
        fs.put(name, b'int x;\n')
        db.append({'file': name, 'directory': fixer.PROJ,
                   'arguments': ['c++', '-DU=%d' % i, '-c', name]})
        data = fixer.unit_text(sc, u).encode()
        c = int(kid['cut'] * len(data))
        rules['-DU=%d' % i] = {
            'index': i, 'chunks': [[kid['start'], data[:c]],
                                   [kid['end'], data[c:]]],
            'end': kid['end'], 'code': kid['code']}
    path = fixer.PROJ + '/compile_commands.json'
    fs.put(path, json.dumps(db).encode())
    k = vos.Kernel(fs, [])
    k.max_steps = 60000
    c = popen.Children(k, lambda argv, cwd: next(
        (rules[a] for a in argv if a in rules), None))
    k.load = lambda now: 0.5
    k.next_event = lambda: None if any(
        x.done and not x.reaped for x in c.started) else (
            c.events[0][0] if c.events else None)
    with vos.Session(k, {'IWYU_BINARY': IWYU}, popen.make_popen(k, c)):
        p = k.run(tool.program('iwyu_tool.py'),
                  ['iwyu_tool.py', '-p', path, '-j', str(sc['tool']['jobs'])],
                  cwd=fixer.PROJ, filename='/sim/bin/iwyu_tool.py')
    out.steps += k.steps
    out.sim_time += k.now - 1000.0
    out.hash = frame.key(out.hash + k.trace.hexdigest())
    if p.error or p.status in ('hung', 'escaped'):
        raise RuntimeError('iwyu_tool: %s %s' % (p.status, p.error))
    ends = [h[1].index for h in c.history if h[0] == 'exit']
    if ends != sorted(ends):
        out.probes['out-of-order'] += 1
    return bytes(p.out['stdout'])


def meaning(data):
    """Includes by conditional, declarations by namespace, other lines."""
    if data.startswith(b'\xef\xbb\xbf'):
        data = data[3:]
    lines = data.split(b'\n')
    incs, decls, rest, notes = [], [], [], []
    for line, stack in zip(lines, fixer.scan(lines)):
        s = line.strip()
        m = fixer.INC.match(line)
        if m:
            incs.append((m.group(1), fixer.conds(stack)))
            continue
        d = re.search(rb'\b(class|struct|union) ([AF]\d+);', s)
        if d:
            inline = [b'namespace ' + x
                      for x in re.findall(rb'namespace (\w+) \{', s)]
            decls.append((d.group(2), [x for x in stack if x.startswith(
                b'namespace')] + inline))
            continue
        if not s or re.match(rb'namespace \w+ ?\{?$|\{$|\}  // namespace', s) \
                or s == b'template <typename T>':
            continue
        (notes if re.match(rb'//|/\*', s) else rest).append(line.rstrip())
    # A comment line moves with the #include after it.
    return sorted(incs), sorted(decls), rest, sorted(notes)


def execute(sc):
    out = frame.Outcome()
    base = fixer.Run(sc)
    base.add_to(out)
    if not fixer.sane(base, out):
        return out
    named = [r['file'] for u in sc['units'] for r in u['records']]
    if len(named) > len(set(named)):
        out.probes['several-reports'] += 1
        out.nontrivial = base.after != base.before
    else:
        out.nontrivial = False
    order = [i for i in sc['order'] if i < len(sc['units'])]
    order += [i for i in range(len(sc['units'])) if i not in order]
    if len(order) > len(sc['units']):
        out.probes['repeated'] += 1
    other = fixer.Run(sc, [fixer.stream(sc, [sc['units'][i] for i in order])])
    other.add_to(out)
    out.states.add(repr(order))
    if not fixer.sane(other, out) or not alike(sc, base, other, out,
                                               'reports in order %s' % order):
        return out
    printed = through_tool(sc, out)
    out.probes['via-tool'] += 1
    third = fixer.Run(sc, [printed])
    third.add_to(out)
    out.states.add(frame.key(repr(printed)))
    if fixer.sane(third, out):
        alike(sc, base, third, out, 'reports as printed by iwyu_tool -j %d' %
              sc['tool']['jobs'])
    return out


def alike(sc, a, b, out, what):
    exact = '--reorder' in sc['flags'] and not any(
        'comments' in f and f != '--nocomments' for f in sc['flags'])
    spelt = {(r['file'], r['spell'] if not r['correct'] else fixer.PROJ + '/' +
              sc['files'][r['file']]['name'])
             for u in sc['units'] for r in u['records']}
    exact = exact and len(spelt) == len({i for i, _ in spelt})
    for path in sorted(a.after):
        x, y = a.after[path], b.after.get(path)
        if x == y:
            continue
        name = path[len(fixer.PROJ) + 1:]
        if y is None or exact:
            out.fail('order', '%s: different contents with %s (--reorder)' %
                     (name, what))
            return False
        p, q = meaning(x), meaning(y)
        for kind, u, v in zip(('includes', 'declarations', 'lines',
                               'comments'), p, q):
            if u != v:
                diff = [z for z in u if z not in v] + \
                    [z for z in v if z not in u] or \
                    ['%d and %d' % (len(u), len(v))]
                out.fail('order-' + kind, '%s: different %s with %s: %s' % (
                    name, kind, what, diff[:2]))
                return False
    if a.status != b.status:
        out.fail('order-status', 'exit status %s, but %s with %s' % (
            a.status, b.status, what))
        return False
    out.probes['byte-identical' if exact else 'equivalent'] += 1
    return True


def shrink(sc):
    for s in fixer.shrink(sc):
        if len(s['units']) != len(sc['units']):
            gone = next((i for i, u in enumerate(sc['units'])
                         if i >= len(s['units']) or u is not s['units'][i]), 0)
            s = dict(s, order=[i - (i > gone) for i in sc['order']
                               if i != gone],
                     tool=dict(sc['tool'], kids=[
                         k for i, k in enumerate(sc['tool']['kids'])
                         if i != gone]))
        yield s
    for i in range(len(sc['order'])):
        if sc['order'].count(sc['order'][i]) > 1:
            yield dict(sc, order=sc['order'][:i] + sc['order'][i + 1:])
    if sc['order'] != sorted(sc['order']):
        yield dict(sc, order=sorted(sc['order']))
    if sc['tool']['jobs'] > 1:
        yield dict(sc, tool=dict(sc['tool'], jobs=1))
