"""C11: product runs execute every case once, each under exactly its own configuration."""
import itertools

from symex.driver import H
from harness.common import World, fn_src, class_src, FEW, attrs_of

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
ALL = ['s.f', 's.g', 't.K', 'sc.grp.one']
NAME = {'s.f': 'f', 's.g': 'g', 't.K': 'K', 'sc.grp.one': 'S:one'}
VALS = ('int', 'obj')


def build(c, managers=('p',)):
    w = World(c, UM)
    pre = {}
    for m in managers:
        conf = {}
        for path in ALL:
            k = m + '_' + path.replace('.', '_')
            conf[path.replace('.', '/')] = d = {x: f'symvals.{k}_{x}' for x in 'ab'}
            if path.startswith('sc.'):
                d['name'] = "'one'"
            pre[m, path] = {x: w.put(f'{k}_{x}', f'file {k} {x}') for x in 'ab'}
        w.project(m, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one']}"}, 'f, g, K')
        w.manager(m, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    pre['p', 's.f']['a'] = w.val('p_s_f_a', VALS)
    return w, pre


def cases_of(updates):
    by = {}
    for u in updates:
        by.setdefault(u['section_path_str'], []).append(u)
    return list(itertools.product(*by.values()))


def expected(pre, cases, items, key):
    out = []
    for case in cases:
        st = {k: dict(v) for k, v in pre.items()}
        for u in case:
            st[key(u['section_path_str'])].update({x: v for x, v in u.items() if x != 'section_path_str'})
        out.append([st[key(i)] for i in items])
    return out


def check_run(c, w, what, results, calls, cases, want, items, names):
    """results: (case, result) pairs or None; calls: recorded calls in order"""
    n = len(items)
    c.check(len(calls) == len(cases) * n, 'every case runs every item once', f'{what}: {len(calls)} calls, {len(cases)} cases')
    for k, (case, exp) in enumerate(zip(cases, want)):
        for j in range(n):
            nm, args = calls[k * n + j]
            c.check(nm == names[j], 'items run in the requested order', f'{what} case {k}: {nm}')
            c.eq(args, exp[j], 'each run sees exactly its case', f'{what} case {k} item {items[j]}')
    if results is not None:
        c.check(len(results) == len(cases), 'one result per case', f'{what}: {len(results)}')
        for k, (got, case) in enumerate(zip(results, cases)):
            c.check(type(got) is tuple and len(got) == 2, 'results are pairs of case and result')
            c.eq([dict(u) for u in got[0]], [dict(u) for u in case], 'each result is paired with its case', what)
            exp = [('ret', k * n + j) for j in range(n)]
            c.check(got[1] == (exp[0] if n == 1 else exp), 'each result is that of its own run', f'{what} case {k}: {got[1]}')


def number_results(w):
    count = itertools.count()
    for n in NAME.values():
        w.rec.on[n] = lambda a=None, b=None: ('ret', next(count))


def draw(c, templates, n, val):
    ups = []
    for i in range(n):
        path, args = c.choose(f'u{i}', templates)
        ups.append(dict({x: val(f'{x}{i}') for x in args}, section_path_str=path))
    return ups


TEMPLATES = [('s.f', 'a'), ('s.f', 'ab'), ('t.K', 'a'), ('sc.grp.one', 'b')]


def h_product(c, state):
    w, pre = state
    w.c = c
    pm = w.pms['p']
    n = c.choose('n', [0, 1, 2, 3] if c.tier == 'quick' else [0, 1, 2, 3, 4])
    small = n < 3 or c.tier != 'quick'
    how = c.choose('how', ['run_product', 'gen', 'no collect'] if small else ['run_product', 'gen'])
    # the values of two updates may be equal or not
    ups = draw(c, TEMPLATES if n < 4 else TEMPLATES[:2], n, lambda x: c.val(x, ('int', 'none')) if n < 3 else c.val(x, ('int',)))
    items = c.choose('items', [['t.K', 's.g', 's.f', 'sc.grp.one'], ['s.f']][:2 if small else 1])
    if c.choose('updated', [False, True] if small else [True]):
        v = c.val('before', VALS)
        pm.update(section_path_str='s.f', b=v)
        pre['p', 's.f']['b'] = v
    originals = [dict(u) for u in ups]
    number_results(w)
    w.rec.take()
    res = None
    arg = items[0] if len(items) == 1 else list(items)
    if how == 'run_product':
        res = pm.run_product(arg, ups)
    elif how == 'gen':
        res = list(pm.run_product_gen(arg, ups))
    else:
        c.check(pm.run_product(arg, ups, collect_results=False) == [], 'results are not collected when asked not to')
    calls = w.rec.take()
    c.check(all(set(u) == set(o) and all(u[k] is o[k] for k in u) for u, o in zip(ups, originals)),
            'the passed updates are not modified')
    cases = cases_of(originals)
    want = expected(pre, cases, items, lambda p: ('p', p))
    check_run(c, w, how, res, calls, cases, want, items, [NAME[i] for i in items])


def h_skip(c, state):
    """any subset of the cases rejected by should_run; runs repeated, with changes between"""
    w, pre = state
    w.c = c
    pm = w.pms['p']
    from pyfileconf.iterate import IterativeRunner
    skip = set()

    class Runner(IterativeRunner):
        def should_run(self, case):
            return case not in [self.cases[i] for i in skip]
    k = ('int',)
    layout = c.choose('layout', ['2x2', '3', '1x3'] if c.tier == 'quick' else ['2x2', '3', '1x3', '2x3'])
    f = [dict(section_path_str='p.s.f', a=i) for i in range(3)]
    one = [dict(section_path_str='p.sc.grp.one', b=i) for i in range(3)]
    ups = {'2x2': f[:2] + one[:2], '3': f, '1x3': [f[0]] + one, '2x3': f[:2] + one}[layout]
    total = len(cases_of(ups))
    ups[0]['a'] = c.val('a0', k)
    ups[-1]['b' if layout != '3' else 'a'] = c.val('last', k)
    cases = cases_of(ups)
    # rejected cases are told apart by their index: all cases must differ
    for i in range(len(cases)):
        for j in range(i):
            c.assume(not all(bool(x[q] == y[q]) for x, y in zip(cases[i], cases[j]) for q in x))
    items = ['p.s.f', 'p.sc.grp.one']
    r = Runner(list(items), ups)
    rounds = 2
    for rd in range(rounds):
        skip.clear()
        skip.update(i for i in range(total) if c.choose(f'skip{rd}.{i}', [False, True] if rd == 0 or i < 2 else [False]))
        if rd:
            x = c.choose('between', ['', 'a', 'b'])
            if x:
                v = c.val('between_' + x, k)
                pm.update(section_path_str='s.f', **{x: v})
                if x == 'b':
                    # no case sets this
                    pre['p', 's.f']['b'] = v
        number_results(w)
        w.rec.take()
        res = list(r.run_gen()) if c.choose(f'gen{rd}', [False, True]) else r.run()
        kept = [x for i, x in enumerate(cases) if i not in skip]
        want = expected(pre, kept, items, lambda p: ('p', p[2:]))
        check_run(c, w, f'round {rd}', res, w.rec.take(), kept, want, items, ['f', 'S:one'])


def h_cross(c, state):
    """items and updates of two managers"""
    w, pre = state
    w.c = c
    from pyfileconf.iterate import IterativeRunner
    tm = [('p.s.f', 'a'), ('q.s.f', 'a'), ('q.sc.grp.one', 'ab'), ('p.t.K', 'b')]
    n = 2 if c.tier == 'quick' else 3
    ups = draw(c, tm, n, lambda x: c.val(x, VALS))
    items = c.choose('items', [['p.s.f', 'q.s.f', 'q.sc.grp.one', 'p.t.K'], ['q.t.K', 'p.s.f', 'q.sc.grp.one']])
    for m in 'pq':
        if c.choose('loaded ' + m, [False, True]):
            w.pms[m].get('s.f')
    r = IterativeRunner(list(items), ups)
    number_results(w)
    w.rec.take()
    res = r.run()
    cases = cases_of(ups)
    want = expected(pre, cases, items, lambda p: (p[0], p[2:]))
    check_run(c, w, 'cross', res, w.rec.take(), cases, want, items, [NAME[i[2:]] for i in items])


def h_between(c, state):
    """configs changed by the caller of the generator between two cases, or by the items as they run"""
    w, pre = state
    w.c = c
    pm = w.pms['p']
    k = ('int',)
    lists = [['s.g', 's.f', 's.f'], ['s.g', 't.K', 't.K', 's.f'], ['sc.grp.one', 's.f', 's.f']]
    layout = c.choose('layout', lists[:2] if c.tier == 'quick' else lists)
    ups = [dict(section_path_str=p, a=c.val(f'v{i}', k) if i in (0, len(layout) - 1) else i) for i, p in enumerate(layout)]
    form = c.choose('form', ['kwargs', 'dict'])
    if form == 'dict':
        ups[0]['d_'] = {'a': ups[0].pop('a')}
    items = ['s.f', 's.g', 't.K', 'sc.grp.one']
    cur = {p: dict(pre['p', p]) for p in ALL}
    who = c.choose('who', ['caller', 's.f', 't.K'])
    op, target = c.choose('op', [(o, t) for o in ('a', 'b', 'reset', 'refresh') for t in ('s.g', 's.f', 't.K', 'sc.grp.one')
                                 if o != 'refresh' or t == 's.g'])
    v = c.val('between', k) if op in 'ab' else None

    def change():
        if op in 'ab':
            pm.update(section_path_str=target, **{op: v})
        elif op == 'reset':
            pm.reset(target)
        else:
            pm.refresh(target)

    def model_change():
        if op in 'ab':
            cur[target][op] = v
        elif op == 'reset':
            cur[target] = dict(pre['p', target])
    number_results(w)
    if who != 'caller':
        count = w.rec.on[NAME[who]]

        def run(a=None, b=None):
            change()
            return count()
        w.rec.on[NAME[who]] = run
    w.rec.take()
    mentioned = list(dict.fromkeys(layout))
    res = []
    if who == 'caller' or c.choose('gen', [False, True]):
        for pair in pm.run_product_gen(list(items), ups):
            res.append(pair)
            if who == 'caller':
                change()
    else:
        res = pm.run_product(list(items), ups)
    calls = w.rec.take()
    cases = cases_of(ups)
    want = []
    for case in cases:
        for p in mentioned:
            cur[p]['a'] = pre['p', p]['a']
        for u in case:
            cur[u['section_path_str']]['a'] = u['a'] if 'a' in u else u['d_']['a']
        row = []
        for p in items:
            row.append(dict(cur[p]))
            if p == who:
                model_change()
        want.append(row)
        if who == 'caller':
            model_change()
    check_run(c, w, f'changed by {who}', res, calls, cases, want, items, [NAME[i] for i in items])


def h_views(c, state):
    """the value of a case is a view of an item which other cases configure, alone or in a container"""
    w, pre = state
    w.c = c
    from pyfileconf import Selector
    pm = w.pms['p']
    view = {'t.K': lambda: Selector().p.t.K, 'sc.grp.one': lambda: Selector().p.sc.grp.one, 's.g': lambda: Selector().p.s.g}
    target = c.choose('target', sorted(view))
    form = c.choose('form', ['view', 'list', 'dict', 'nested', 'twice'])
    put, take = {
        'view': (lambda v: v, lambda x: [x]), 'list': (lambda v: [1, v], lambda x: x[1:]), 'dict': (lambda v: {'k': v}, lambda x: [x['k']]),
        'nested': (lambda v: [{'k': (v,)}], lambda x: [x[0]['k'][0]]), 'twice': (lambda v: [v, v], lambda x: x)}[form]
    if c.choose('loaded', [False, True]):
        pm.get(target)
    v = view[target]()
    own = dict(section_path_str='s.f', a=put(v))
    ups = [dict({'a': c.val(f'v{i}', ('int',))}, section_path_str=target) for i in range(c.choose('n', [1, 2]))]
    if c.choose('also b', [False, True]):
        ups.append(dict(section_path_str='t.K' if target != 't.K' else 's.g', b='other'))
    cases = cases_of([own] + ups)
    seen = []

    def f(a=None, b=None):
        for x in take(a):
            if target == 's.g':
                x()
            else:
                seen.append((x.a, x.b))
    w.rec.on['f'] = f
    if target == 's.g':
        w.rec.on['g'] = lambda a=None, b=None: seen.append((a, b))
    pm.run_product('s.f', [own] + ups if c.choose('order', [0, 1]) else ups + [own])
    each = 2 if form == 'twice' else 1
    c.check(len(seen) == len(cases) * each, 'every case runs every item once', len(seen))
    if form == 'twice':
        seen = seen[::2] if c.choose('which', [0, 1]) else seen[1::2]
    # either order of the updates makes the same cases in the same order, as only one item has more than one
    for (a, b), case in zip(seen, cases):
        want = dict(pre['p', target])
        for u in case:
            if u['section_path_str'] == target:
                want.update({x: y for x, y in u.items() if x in 'ab'})
        c.eq([a, b], [want['a'], want['b']], 'an item passed by a case is seen as the case configures it', (target, form))


def build_dependent(c):
    w = World(c, fn_src('f') + class_src('A') + class_src('B'))
    head = 'import symvals\nfrom pyfileconf import Selector\n\ns = Selector()\n'
    conf = {'t/A': 'import symvals\n\na = symvals.Aa\nb = symvals.Ab\n',
            't/B': head + 'a = s.p.t.A.a\nb = symvals.Bb\n', 's/f': head + 'a = s.p.t.B.a\nb = s.p.t.A.b\n'}
    vals = {k: w.val(k, FEW) if k == 'Aa' else w.put(k, f'file {k}') for k in ('Aa', 'Ab', 'Bb')}
    w.project('p', "{'s': [f], 't': [A, B]}", conf, None, 'f, A, B')
    w.manager('p')
    return w, vals


def h_dependent(c, state):
    """items which no case mentions, but whose configs read those of items in the cases"""
    w, vals = state
    w.c = c
    pm = w.pms['p']
    if c.choose('loaded', [False, True]):
        for p in ('s.f', 't.B', 't.A'):
            pm.get(p)
    names = ['Aa', 'Ab']
    arg = c.choose('arg', ['a', 'b'])
    ups = [dict({arg: c.val(f'v{i}', VALS if i == 0 else ('int',))}, section_path_str='t.A') for i in range(2 if c.tier == 'quick' else 3)]
    mention = c.choose('mention', ['', 't.B b', 's.f', 'both'])
    more = []
    if mention in ('t.B b', 'both'):
        vals['Bb'] = c.val('Bb case', ('int',))
        more.append(dict(section_path_str='t.B', b=vals['Bb']))
    if mention in ('s.f', 'both'):
        more.append(dict(section_path_str='s.f'))
    twice = c.choose('twice', [False, True] if c.tier != 'quick' or mention in ('', 'both') else [False])
    if twice:
        pm.run_product('t.A', [dict(section_path_str='t.A', a='x', b='y')])
        for x in 'ab':
            vals['A' + x] = 'xy'['ab'.index(x)]
    items = c.choose('items', [['s.f', 't.B', 't.A'], ['t.A', 't.B', 's.f']])
    w.rec.take()
    pm.run_product(list(items), more + ups if more and c.choose('order', [0, 1]) else ups + more)
    calls = w.rec.take()
    want = []
    for u in ups:
        a, b = u.get('a', vals['Aa']), u.get('b', vals['Ab'])
        want.append({'t.A': {'a': a, 'b': b}, 't.B': {'a': a, 'b': vals['Bb']}, 's.f': {'a': a, 'b': b}})
    n = len(items)
    c.check(len(calls) == len(ups) * n, 'every case runs every item once', len(calls))
    for k in range(len(ups)):
        for j, p in enumerate(items):
            c.eq(calls[k * n + j][1], want[k][p], 'items which read the config of an item in the case see the case', (k, p))
    # what no case sets still comes from the files
    if c.choose('file', [False, True] if c.tier != 'quick' or items[0] == 's.f' else [True]):
        w.put('Aa', 'new'), w.put('Ab', 'new'), w.put('Bb', 'new')
        new = {'a': 'new', 'b': 'new', arg: ups[-1][arg]}
        if twice:
            new['ab'.replace(arg, '')] = vals['A' + 'ab'.replace(arg, '')]
        pm.refresh('t.A')
        c.eq(attrs_of(pm.get('t.A'), 'ab'), new, 'after a product run the arguments no case set still follow their files')
        pm.refresh('t.B')
        c.eq(attrs_of(pm.get('t.B'), 'ab'), {'a': new['a'], 'b': vals['Bb'] if mention in ('t.B b', 'both') else 'new'},
             'after a product run the arguments no case set still follow their files', 't.B')


HARNESSES = [
    H('product', h_product, 'up to 3 (thorough 4) updates out of 4 templates over 3 items, values any ints (equal or not) or None;'
      ' run one or four items; run_product, the generator form, or without collecting; an earlier update or not',
      setup=build),
    H('skip', h_skip, 'products of 3 or 4 (6) cases, any subset of them rejected, run twice in list or generator form, with or without '
      'an update between', setup=build),
    H('between', h_between, '3 layouts of 2-4 updates, passed as kwargs or as a dictionary; any of 4 items updated, reset or refreshed after '
      'every case by the caller of the generator, or by one of 2 items as it runs', setup=build),
    H('views', h_views, 'a view of one of 3 items as the value of a case, alone or in 4 containers, with 1-2 cases of that item, loaded '
      'before or not', setup=build),
    H('dependent', h_dependent, '2 (3) cases of a class from which two other items read their arguments, loaded before or not, mentioned in '
      'the cases or not; two orders of running; then the files change', setup=build_dependent, set_perm=True),
    H('cross', h_cross, '2 (3) updates of items of two managers', setup=lambda c: build(c, ('p', 'q'))),
]
ASSUMPTIONS = ['values other than views are deep-copied by the runner: equality, not identity, is compared']
