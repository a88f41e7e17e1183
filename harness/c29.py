"""C29: objects in use are kept and updated in place, once per change."""
from symex.driver import H
from harness.common import World, fn_src, view, KINDS, FEW

# M: own update method, B: derived from the base class with its own method, P: derived without, D: inherits M's,
# K: __init__ only; V, S: the same for specific classes
UM = '''from pyfileconf.userbase import PyfileconfBase

class K:
    def __init__(self, a=None, b=None):
        hit('K', how='init', a=a, b=b)
        self.a, self.b = a, b
    def __call__(self):
        return hit('run', me=self, a=self.a, b=self.b)

class M(K):
    def __init__(self, a=None, b=None):
        hit('M', how='init', a=a, b=b)
        self.a, self.b = a, b
    def _pyfileconf_update_(self, **kwargs):
        hit('M', how='update', **kwargs)
        for k, v in kwargs.items():
            setattr(self, k, v)

class D(M):
    def __init__(self, a=None, b=None):
        super().__init__(a, b)

class B(PyfileconfBase):
    def __init__(self, a=None, b=None):
        hit('B', how='init', a=a, b=b)
        self.a, self.b = a, b
    def _pyfileconf_update_(self, **kwargs):
        hit('B', how='update', **kwargs)
        for k, v in kwargs.items():
            setattr(self, k, v)
    def __call__(self):
        return hit('run', me=self, a=self.a, b=self.b)

class P(PyfileconfBase):
    def __init__(self, a=None, *, b=None):
        hit('P', how='init', a=a, b=b)
        self._first, self._second = a, b
    def __call__(self):
        return hit('run', me=self, a=self._first, b=self._second)

class S:
    def __init__(self, name=None, a=None, b=None):
        hit('S', how='init', name=name, a=a, b=b)
        self.name, self.a, self.b = name, a, b
    def __call__(self):
        return hit('run', me=self, a=self.a, b=self.b)

class V:
    def __init__(self, name=None, a=None, b=None):
        hit('V', how='init', name=name, a=a, b=b)
        self.name, self.a, self.b = name, a, b
    def _pyfileconf_update_(self, **kwargs):
        hit('V', how='update', **kwargs)
        for k, v in kwargs.items():
            setattr(self, k, v)
    def __call__(self):
        return hit('run', me=self, a=self.a, b=self.b)

''' + fn_src('f') + fn_src('g')
PATHS = {'f': 's.f', 'g': 's.g', 'K': 't.K', 'M': 't.M', 'D': 't.D', 'B': 't.B', 'P': 't.P',
         'S': 'sc.grp.S1', 'S2': 'sc.grp.S2', 'V': 'sv.gv.V1'}
UPDATE = {'M', 'D', 'B', 'V'}


def build(c):
    w = World(c, UM)
    conf, cur = {}, {}
    for name, path in PATHS.items():
        k = path.replace('.', '_')
        conf[path.replace('.', '/')] = d = {x: f'symvals.{k}_{x}' for x in 'ab'}
        cur[name] = {'a': w.val(k + '_a', FEW), 'b': w.put(k + '_b', f'file {k} b')}
        if path.startswith(('sc.', 'sv.')):
            d['name'] = repr(path.rsplit('.', 1)[1])
    w.project('p', "{'s': [f, g], 't': [K, M, D, B, P]}", conf,
              {'sc': "{'grp': ['S1', 'S2']}", 'sv': "{'gv': ['V1']}"}, 'f, g, K, M, D, B, P')
    w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}, {'class': w.um.V, 'name': 'sv'}])
    return w, {n: {'file': dict(d), 'cur': None, 'kept': {}} for n, d in cur.items()}


def kw(name, conf):
    d = dict(conf)
    if name in ('S', 'S2', 'V'):
        d['name'] = PATHS[name].rsplit('.', 1)[1]
    return d


def src_name(name):
    return {'D': 'M', 'S2': 'S'}.get(name, name)


def events(w):
    return [e for e in w.rec.take() if e[0] not in ('run', 'f', 'g')]


def is_of(event, name):
    return event[0] == src_name(name) and event[1].get('name') == kw(name, {}).get('name')


def attrs(obj):
    if hasattr(obj, 'keywords'):
        return {k: obj.keywords[k] for k in 'ab'}
    if hasattr(obj, '_first'):
        return {'a': obj._first, 'b': obj._second}
    return {k: getattr(obj, k) for k in 'ab'}


def first(c, w, model, name, how):
    """first use: configured once, with its whole configuration"""
    pm, path = w.pms['p'], PATHS[name]
    w.rec.take()
    obj = reach(w, name, how)
    ev = [e for e in events(w) if is_of(e, name)]
    m = model[name]
    if m['cur'] is None:
        m['cur'] = dict(m['file'])
        if name not in ('f', 'g'):
            want = 'update' if name == 'V' else 'init'
            c.check(len(ev) == 1 and ev[0][1]['how'] == want,
                    'an object is configured once when first used', lambda: f'{name} {how}: {ev}')
            c.eq({k: v for k, v in ev[0][1].items() if k != 'how'}, kw(name, m['cur']),
                 'an object is configured with exactly the entries which are its arguments', name)
    else:
        c.check(not ev, 'using an object again does not configure it again', lambda: f'{name} {how}: {ev}')
    c.eq(attrs(obj), m['cur'], 'the object has the configuration', name)
    return obj


def reach(w, name, how):
    pm, path = w.pms['p'], PATHS[name]
    if how == 'get':
        return pm.get(path)
    if how == 'run':
        pm.run(path)
        return pm.get(path)
    if how == 'view':
        return view(w.c, w, 'p', path).item
    if how == 'attribute':
        o = pm
        for part in path.split('.'):
            o = getattr(o, part)
        return o
    if how == 'section':
        sec, last = path.rsplit('.', 1)
        order = [p for p in PATHS.values() if p.rsplit('.', 1)[0] == sec]
        return pm.get(sec)[order.index(path)]
    raise KeyError(how)


OPS = ['update_a', 'update_both', 'drop', 'view', 'batch', 'foreign', 'refresh', 'file', 'reset', 'section']


def operate(c, w, model, i, name, op, live, kinds=FEW):
    """performs op on a used item and checks what was called"""
    pm, path, m = w.pms['p'], PATHS[name], model[name]
    w.rec.take()
    affected = [name]
    extra = False
    old = {n: dict(model[n]['cur']) if model[n]['cur'] is not None else None for n in PATHS}
    if op in ('update_a', 'update_both', 'drop', 'view', 'batch'):
        d = {'a': c.val(f'n{i}', kinds)}
        if op == 'update_both':
            d['b'] = c.val(f'u{i}', FEW)
            pm.update(d, section_path_str=path)
        elif op == 'update_a':
            pm.update(section_path_str=path, a=d['a'])
        elif op == 'drop':
            pm.update(section_path_str=path, pyfileconf_persist=False, **d)
        elif op == 'view':
            view(c, w, 'p', path).a = d['a']
        else:
            pm.update_batch([dict(d, section_path_str=path)])
        m['cur'].update(d)
        if op != 'drop':
            m['kept'].update(d)
    elif op == 'foreign':
        # an entry that is no argument: a change of the configuration, not of the arguments
        pm.update(section_path_str=path, zz=i)
        extra = True
    elif op in ('refresh', 'file'):
        if op == 'file':
            v = w.val(f'n{i}', kinds)
            w.put(path.replace('.', '_') + '_a', v)
            m['file']['a'] = v
        pm.refresh(path)
        m['cur'] = {**m['file'], **m['kept']}
    elif op == 'reset':
        pm.reset(path)
        m['cur'], m['kept'] = dict(m['file']), {}
    elif op == 'section':
        sec = path.rsplit('.', 1)[0]
        pm.reset(sec)
        affected = [n for n, p in PATHS.items() if p.rsplit('.', 1)[0] == sec]
        for n in affected:
            if model[n]['cur'] is not None:
                model[n]['cur'], model[n]['kept'] = dict(model[n]['file']), {}
    ev = events(w)
    for n, obj in live.items():
        cur = model[n]['cur']
        mine = [e[1] for e in ev if is_of(e, n)]
        what = lambda: f'{op} of {path}, {n}: {ev}'
        if n not in ('f', 'g'):
            same = all(bool(old[n][k] == cur[k]) for k in 'ab')
            if extra and n == name:
                c.check(len(mine) <= 1, 'an object is configured at most once per change', what)
            else:
                c.check(len(mine) == (0 if same else 1), 'an object in use is configured once exactly when its configuration changes', what)
            for e in mine:
                c.check(e['how'] == ('update' if n in UPDATE else 'init'), 'the update method is used if there is one, else __init__', what)
                c.eq({k: v for k, v in e.items() if k != 'how'}, kw(n, cur),
                     'an object is configured with exactly the entries which are its arguments', what)
        c.eq(attrs(obj), cur, 'an object in use has the current configuration', what)
        c.check(pm.get(PATHS[n]) is obj, 'an item stays the same object', what)
        c.check(n in ('f', 'g') or obj.mine is live[n], 'attributes of the user stay on the object', what)
    c.check(all(any(is_of(e, n) for n in live) for e in ev), 'objects which are not used are not configured', lambda: f'{op} of {path}: {ev}')


def use(c, w, model, name, how):
    obj = first(c, w, model, name, how)
    if name not in ('f', 'g'):
        obj.mine = obj
    return obj


def finish(c, w, model, live):
    pm = w.pms['p']
    for n, obj in live.items():
        w.rec.take()
        pm.run(PATHS[n])
        calls = w.rec.take()
        c.check(len(calls) == 1, 'running an object in use only executes it', lambda: f'{n}: {calls}')
        got = dict(calls[0][1])
        if n not in ('f', 'g'):
            c.check(got.pop('me') is obj, 'the object which was got is the one that runs', n)
        c.eq(got, model[n]['cur'], 'a run sees the configuration', n)


def h_history(c, state):
    w, model = state
    w.c = c
    name = c.choose('item', list(PATHS))
    live = {name: use(c, w, model, name, c.choose('use', ['get', 'run'] if c.tier == 'quick' else ['get', 'run', 'view', 'attribute']))}
    for i in range(2 if c.tier == 'quick' else 3):
        operate(c, w, model, i, name, c.choose(f'op{i}', OPS), live)
    finish(c, w, model, live)


def h_kinds(c, state):
    w, model = state
    w.c = c
    name = c.choose('item', ['f', 'K', 'M', 'S', 'V'])
    live = {name: use(c, w, model, name, 'get')}
    for i in range(2):
        operate(c, w, model, i, name, c.choose(f'op{i}', ['update_a', 'drop', 'file']), live, KINDS)
    finish(c, w, model, live)


def h_others(c, state):
    """two objects in use"""
    w, model = state
    w.c = c
    x, y = {'KM': ('K', 'M'), 'MB': ('M', 'B'), 'SV': ('S', 'V'), 'fK': ('f', 'K'), 'PD': ('P', 'D')}[
        c.choose('items', ['KM', 'MB', 'SV', 'fK', 'PD'])]
    live = {x: use(c, w, model, x, 'get'), y: use(c, w, model, y, c.choose('use', ['get', 'run']))}
    operate(c, w, model, 0, y, c.choose('op0', ['update_a', 'drop', 'file']), live)
    operate(c, w, model, 1, x, c.choose('op1', OPS), live)
    finish(c, w, model, live)


def build_deps(c):
    w = World(c, UM)
    head = 'import symvals\nfrom pyfileconf import Selector\n\ns = Selector()\n'
    w.val('ka', FEW)
    w.put('kb', 'file b')
    w.project('p', "{'s': [f], 't': [K, M, B]}", {
        't/K': 'import symvals\n\na = symvals.ka\nb = symvals.kb\n',
        't/M': head + 'a = s.p.t.K.a\nb = s.p.t.K.b\n',
        't/B': head + 'a = s.p.t.M.a\nb = symvals.kb\n',
        's/f': head + 'a = s.p.t.M.b\nb = symvals.kb\n',
        'sv/gv/V1': head + "name = 'V1'\na = s.p.t.K.a\nb = symvals.kb\n"},
        {'sv': "{'gv': ['V1']}"}, 'f, K, M, B')
    w.manager('p', specific_class_config_dicts=[{'class': w.um.V, 'name': 'sv'}])
    return w


def h_dependents(c, w):
    """objects whose config files read another item's configuration"""
    w.c = c
    pm = w.pms['p']
    objs = {n: pm.get(PATHS[n]) for n in ('f', 'K', 'M', 'B', 'V')}
    k = {'a': w.sv.ka, 'b': w.sv.kb}
    fb = w.sv.kb
    own = {}

    def conf():
        m = {**k, **own}
        return {'K': k, 'M': m, 'B': {'a': m['a'], 'b': fb}, 'f': {'a': m['b'], 'b': fb}, 'V': {'a': k['a'], 'b': fb}}
    for i in range(2 if c.tier == 'quick' else 3):
        old = {n: dict(d) for n, d in conf().items()}
        op = c.choose(f'op{i}', ['K.a', 'K.b', 'M.a', 'K.a drop', 'reset K'])
        w.rec.take()
        if op == 'reset K':
            pm.reset('t.K')
            k = {'a': w.sv.ka, 'b': w.sv.kb}
        else:
            v = c.val(f'n{i}', FEW)
            if op == 'M.a':
                pm.update(section_path_str='t.M', a=v)
                own['a'] = v
            else:
                pm.update(section_path_str='t.K', pyfileconf_persist='drop' not in op, **{op[2]: v})
                k = {**k, op[2]: v}
        ev = events(w)
        for n, obj in objs.items():
            new = conf()[n]
            same = all(bool(old[n][x] == new[x]) for x in 'ab')
            mine = [e[1] for e in ev if is_of(e, n)]
            what = lambda: f'{op}, {n}: {ev}'
            if n != 'f':
                c.check(len(mine) == (0 if same else 1), 'an object in use is configured once exactly when its configuration changes', what)
                for e in mine:
                    c.check(e['how'] == ('update' if n in UPDATE else 'init'), 'the update method is used if there is one, else __init__', what)
                    c.eq({x: v for x, v in e.items() if x != 'how'}, kw(n, new),
                         'an object is configured with exactly the entries which are its arguments', what)
            c.eq(attrs(obj), new, 'an object in use has the current configuration', what)
            c.check(pm.get(PATHS[n]) is obj, 'an item stays the same object', what)


def h_product(c, state):
    """objects in use during a product run: configured for each case, and back afterwards"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    name = c.choose('item', ['K', 'M', 'B', 'P', 'S', 'V', 'f'])
    live = {name: use(c, w, model, name, c.choose('use', ['get', 'run']))}
    if c.choose('before', [False, True]):
        operate(c, w, model, 9, name, 'update_a', live)
    before = dict(model[name]['cur'])
    vals = [c.val(f'v{i}', FEW) for i in range(2)]
    w.rec.take()
    pm.run_product(PATHS[name], [dict(section_path_str=PATHS[name], a=v) for v in vals])
    calls = w.rec.take()
    obj = live[name]
    runs = [e[1] for e in calls if e[0] in ('run', 'f')]
    c.check(len(runs) == 2, 'one run per case', lambda: str(calls))
    for r, v in zip(runs, vals):
        r = dict(r)
        if name != 'f':
            c.check(r.pop('me') is obj, 'the object which was got is the one that runs', name)
        c.eq(r, {**before, 'a': v}, 'a run sees its case', name)
    for e in calls:
        if is_of(e, name) and name != 'f':
            c.check(e[1]['how'] == ('update' if name in UPDATE else 'init'), 'the update method is used if there is one, else __init__', lambda: str(calls))
            c.eq({x: v for x, v in e[1].items() if x not in ('a', 'how')}, {x: v for x, v in kw(name, before).items() if x != 'a'},
                 'an object is configured with exactly the entries which are its arguments', name)
    # the last case stays
    model[name]['cur'] = {**before, 'a': vals[1]}
    c.eq(attrs(obj), model[name]['cur'], 'an object in use has the current configuration', name)
    c.check(name == 'f' or obj.mine is obj, 'attributes of the user stay on the object', name)
    finish(c, w, model, live)


def h_routes(c, state):
    """every way of reaching an item gives the one object"""
    w, model = state
    w.c = c
    name = c.choose('item', list(PATHS))
    ways = ['get', 'run', 'view', 'attribute']
    if name in ('f', 'g', 'S', 'S2', 'V'):
        ways.append('section')
    a = c.choose('first', ways)
    obj = use(c, w, model, name, a)
    live = {name: obj}
    for b in ways:
        c.check(first(c, w, model, name, b) is obj, 'every way of getting an item gives the same object', f'{name}: {a} {b}')
    operate(c, w, model, 0, name, 'update_a', live)
    for b in ways:
        c.check(first(c, w, model, name, b) is obj, 'every way of getting an item gives the same object', f'{name}: {a} {b}')
    finish(c, w, model, live)


HARNESSES = [
    H('history', h_history, 'one item (functions, classes and specific classes with and without an update method, inherited '
      'or of the base class), used in 2 (4) ways, then 2 (thorough 3) of 10 operations', setup=build, share=2),
    H('kinds', h_kinds, '2 operations with values of every kind', setup=build),
    H('others', h_others, 'two objects in use, an operation on each', setup=build),
    H('routes', h_routes, 'every pair of ways to reach an item, before and after an update', setup=build),
]
HARNESSES += [
    H('dependents', h_dependents, 'five objects and functions whose config files read each other, 2 (3) of 5 operations', setup=build_deps),
    H('product', h_product, 'a product run of 2 symbolic cases over an object in use', setup=build),
]
ASSUMPTIONS = ['an update of an entry which is not an argument may configure the object again with the same arguments',
               'getting a section of classes of the main dictionary gives new functions that make objects (not the objects in use)',
               'update methods accept every argument and do not raise']
