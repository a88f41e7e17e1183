"""C09: results of run and get mirror the request and the section structure."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, view, KINDS

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('L') + class_src('S', key='name', execute='go')
DICT = "{'s': [f, g], 't': {'u': [K, f], 'v': {'w': [g], 'x': [L, K], 'e': []}}, 'm': [g, {'n': [L, f]}, K], 'o': []}"
# path -> name under which the call is recorded, or list of the section's children in order
TREE = {
    's': ['s.f', 's.g'], 's.f': 'f', 's.g': 'g',
    't': ['t.u', 't.v'], 't.u': ['t.u.K', 't.u.f'], 't.u.K': 'K', 't.u.f': 'f',
    't.v': ['t.v.w', 't.v.x', 't.v.e'], 't.v.e': [], 't.v.w': ['t.v.w.g'], 't.v.w.g': 'g', 't.v.x': ['t.v.x.L', 't.v.x.K'], 't.v.x.L': 'L',
    't.v.x.K': 'K',
    'm': ['m.g', 'm.n', 'm.K'], 'm.g': 'g', 'm.n': ['m.n.L', 'm.n.f'], 'm.n.L': 'L', 'm.n.f': 'f', 'm.K': 'K', 'o': [],
    'sc': ['sc.grp', 'sc.deep'], 'sc.grp': ['sc.grp.one', 'sc.grp.two'], 'sc.grp.one': 'S:one', 'sc.grp.two': 'S:two',
    'sc.deep': ['sc.deep.y'], 'sc.deep.y': ['sc.deep.y.one'], 'sc.deep.y.one': 'S:one',
}
PLAIN = [p for p in TREE if p != 'm']   # sections that hold only items or only sections


def build(c, **kw):
    w = World(c, UM)
    conf = {}
    for p, v in TREE.items():
        if isinstance(v, str):
            conf[p.replace('.', '/')] = {'a': repr(p), 'b': 'None'}
            if p.startswith('sc.'):
                conf[p.replace('.', '/')]['name'] = repr(p.rsplit('.', 1)[1])
    w.project('p', DICT, conf, {'sc': "{'grp': ['one', 'two'], 'deep': {'y': ['one']}}"}, 'f, g, K, L')
    w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc', 'execute_attr': 'go'}], **kw)
    return w


class Runs:
    """gives every call of user code a result of its own and knows what to expect"""

    def __init__(self, c, w, fail=None, kinds=KINDS):
        self.c, self.w, self.fail, self.kinds = c, w, fail, kinds
        self.done = []
        for name in ('f', 'g', 'K', 'L', 'S:one', 'S:two'):
            w.rec.on[name] = self.handler(name)

    def handler(self, name):
        def h(a=None, b=None):
            k = len(self.done)
            self.done.append([a, name, None])
            if self.fail:
                self.fail(k, a)
            v = self.c.val(f'result{k}', self.kinds)
            self.done[k][2] = v
            return v
        return h


def leaves(path):
    t = TREE[path]
    return [path] if isinstance(t, str) else [x for p in t for x in leaves(p)]


def shape(path, vals):
    t = TREE[path]
    return next(vals) if isinstance(t, str) else [shape(p, vals) for p in t]


def same(a, b):
    """same structure with the very same result objects in it"""
    if isinstance(b, Leaf):
        return a is b.v
    return type(a) is list and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


class Leaf:
    def __init__(self, v):
        self.v = v


def check_calls(c, runs, paths):
    want = [(x, TREE[x]) for p in paths for x in leaves(p)]
    got = [(d[0], d[1]) for d in runs.done]
    c.check(got == want, 'every requested item is run once per mention, in order, with its own configuration',
            f'expected {want}, got {got}')


def h_run(c, w):
    w.c = c
    runs = Runs(c, w)
    pm = w.pms['p']
    n = c.choose('n', ['single', 0, 1, 2] + ([3] if c.tier != 'quick' else []))
    if n == 'single':
        paths = [c.choose('path', list(TREE))]
        arg = paths[0]
        if c.choose('as', ['str', 'view']) == 'view':
            arg = view(c, w, 'p', arg)
        res = pm.run(arg)
    else:
        paths = [c.choose(f'path{i}', list(TREE) if n < 3 else ['s.f', 't.u', 'm', 'sc.grp', 'sc.grp.two', 't.v.x.K'])
                 for i in range(n)]
        arg = list(paths)
        if n and c.choose('as', ['str', 'view']) == 'view':
            arg[0] = view(c, w, 'p', arg[0])
        res = pm.run(arg)
    check_calls(c, runs, paths)
    vals = iter([Leaf(d[2]) for d in runs.done])
    want = [shape(p, vals) for p in paths]
    c.check(same(res, want[0] if n == 'single' else want), 'results are nested as requested and returned unchanged',
            lambda: f'request {arg}: got {res}')


def h_twice(c, w):
    """running again, and running after get, gives the new results"""
    w.c = c
    pm = w.pms['p']
    path = c.choose('path', list(TREE))
    if path in PLAIN and c.choose('get', [False, True]):
        pm.get(path)
    for i in range(2):
        runs = Runs(c, w)
        p = path if i == 0 else c.choose('second', [path, leaves(path)[-1] if leaves(path) else path])
        res = pm.run(p)
        check_calls(c, runs, [p])
        vals = iter([Leaf(d[2]) for d in runs.done])
        c.check(same(res, shape(p, vals)), 'results are nested as requested and returned unchanged', p)


def h_get(c, w):
    w.c = c
    pm = w.pms['p']
    path = c.choose('path', PLAIN)
    first = c.choose('first', [None, 'run'])
    runs = Runs(c, w)
    if first:
        pm.run(path)
    n = len(runs.done)
    arg = view(c, w, 'p', path) if c.choose('as', ['str', 'view']) == 'view' else path
    got = pm.get(arg)
    c.check(len(runs.done) == n, 'get runs nothing', str(runs.done))

    def compare(got, path, top=True):
        t = TREE[path]
        if isinstance(t, str):
            c.eq(attrs_of(got, 'ab'), {'a': path, 'b': None}, 'get returns the item configured for its own path', path)
            kind = {'f': 'partial', 'g': 'partial'}.get(t, 'S' if t.startswith('S:') else t)
            if not top and kind in 'KL':
                kind = 'partial'    # in a section, a class stands ready to be constructed
            c.check(type(got).__name__ == kind, 'get returns the item itself', f'{path} {got}')
            if kind == 'partial':
                c.check(got.func.__name__ == t, 'get returns the item itself', f'{path} {got}')
        elif any(not isinstance(TREE[p], str) for p in t):
            c.check(type(got) is dict and list(got) == [p.rsplit('.', 1)[1] for p in t],
                    'a section of sections gives a dict of them', f'{path} {got}')
            for p in t:
                compare(got[p.rsplit('.', 1)[1]], p, False)
        else:
            c.check(type(got) is list and len(got) == len(t), 'a section of items gives a list of them', f'{path} {got}')
            for x, p in zip(got, t):
                compare(x, p, False)
    compare(got, path)


SPECIAL = {
    'plain': '',
    'equal': '    def __eq__(self, other):\n        return True\n    __hash__ = None\n',
    'equal by value': '    def __eq__(self, other):\n        return self.b == other.b\n    __hash__ = None\n',
    'equal raises': '    def __eq__(self, other):\n        raise ValueError\n    def __ne__(self, other):\n        raise ValueError\n',
    'no truth value': '    def __eq__(self, other):\n        return self\n    def __bool__(self):\n        raise ValueError\n',
    'false': '    def __bool__(self):\n        return False\n',
    'empty': '    def __len__(self):\n        return 0\n    def __iter__(self):\n        return iter(())\n',
    'any attribute': '    def __getattr__(self, name):\n        if name.startswith("_"):\n            raise AttributeError(name)\n        return [name]\n',
    'items': '    def __getitem__(self, i):\n        return i\n    def __contains__(self, i):\n        return True\n',
    'dict': 'dict', 'list': 'list', 'str': 'str',
}


def special_src(name, kind, key):
    own = SPECIAL[kind]
    base = f'({own})' if own.isalpha() else ''
    new = '    def __new__(cls, *args, **kw):\n        return super().__new__(cls)\n' if base == '(str)' else ''
    return (class_src(name, key='name' if key else None).replace(f'class {name}:', f'class {name}{base}:').rstrip('\n') + '\n'
            + new + (own if not base else '') + '\n')


def h_special(c):
    """items whose classes define comparison, truth, containers, attributes of their own"""
    kind = c.choose('kind', list(SPECIAL))
    w = World(c, special_src('K', kind, False) + special_src('L', 'plain', False) + special_src('S', kind, True))
    q = c.tier == 'quick'
    order = c.choose('order', ['one two', 'two one'] if not q or 'equal' in kind else ['two one'])
    paths = {'t.K': 'K', 't.L': 'L', 'sc.grp.one': 'S:one', 'sc.grp.two': 'S:two', 'sc.other.one': 'S:one'}
    conf = {p.replace('.', '/'): {'a': repr(p), 'b': "'b'", **({'name': repr(p.rsplit('.', 1)[1])} if 'sc' in p else {})}
            for p in paths}
    x, y = order.split()
    w.project('p', "{'t': [K, L]}", conf, {'sc': f"{{'grp': ['{x}', '{y}'], 'other': ['one']}}"}, 'K, L')
    pm = w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    tree = {'t': ['t.K', 't.L'], 'sc.grp': ['sc.grp.' + x, 'sc.grp.' + y], 'sc.other': ['sc.other.one'],
            'sc': ['sc.grp.' + x, 'sc.grp.' + y, 'sc.other.one']}
    cur = {p: p for p in paths}
    first = c.choose('first', [None, 'get section'] if q else [None, 'get', 'get section', 'run'])
    if first == 'get':
        objs = {p: pm.get(p) for p in paths}
        c.check(all(pm.get(p) is o for p, o in objs.items()), 'the objects in use stay')
    elif first == 'get section':
        got = pm.get('sc.grp')
        c.check(type(got) is list and [type(g).__name__ for g in got] == ['S', 'S'] and [g.a for g in got] == tree['sc.grp'],
                'a section of items gives a list of them')
    elif first == 'run':
        w.run(pm, 'sc')
    on = c.choose('update', [None, 'sc.grp.two', 't.K', 'sc.other.one'] if not q else [None, 'sc.grp.two'])
    if on:
        cur[on] = c.val('v', ('int', 'none'))
        pm.update(section_path_str=on, a=cur[on])
    what = c.choose('run', list(tree) + list(paths) if not q else ['t', 'sc.grp', 'sc', 't.K', 'sc.grp.one'])
    res, calls = w.run(pm, what)
    want = tree.get(what, [what])
    c.check([n for n, _ in calls] == [paths[p] for p in want],
            'every requested item is run once per mention, in order, with its own configuration', f'{what}: {calls}')
    for (_, args), p in zip(calls, want):
        c.eq(args, {'a': cur[p], 'b': 'b'}, 'every requested item is run once per mention, in order, with its own configuration', p)
    ret = [['ret', paths[p]] for p in want]
    c.eq(res, ret[0] if what in paths else [[ret[0], ret[1]], [ret[2]]] if what == 'sc' else ret,
         'results are nested as requested and returned unchanged')


HARNESSES = [
    H('run', h_run, f'run of any of the {len(TREE)} items and sections of a project (nesting 3, mixed section, empty section, functions, '
      'classes, specific classes), alone or as lists of up to 2 (thorough 3), as path or item view; results of every kind', setup=build),
    H('twice', h_twice, 'running twice, also after get', setup=build),
    H('get', h_get, 'get of every item and section, before or after a run, by path or item view', setup=build),
    H('special', h_special, f'{len(SPECIAL)} kinds of classes with comparison, truth value, containers or attributes of their own (also '
      'subclasses of dict, list and str), as class and specific class; used before or not, one update', share=2),
]
ASSUMPTIONS = ['get is not used on a section that holds both items and sections (the library rejects it)']
