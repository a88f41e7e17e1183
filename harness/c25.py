"""C25: no value makes update, refresh or reset fail."""
from symex.driver import H
from harness.common import World, fn_src, class_src, KINDS

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
ITEMS = {'f': 's.f', 'K': 't.K', 'one': 'sc.grp.one'}
ANSWERS = ['True', 'False', 'NotImplemented', 'raises', 'array', 'empty list', 'text', 'no truth value']
ORD = {'None': None, 'False': False, '0': 0, 'text': 'x', 'list': [1], 'dict': {'k': 1}}


class NoBool:
    def __bool__(self):
        raise TypeError('no truth value')


class BaseWeird:
    """comparisons give what the solver chooses, the same every time"""
    c = None
    asked = 0

    def __init__(self, name):
        self.name = name
        self.answer = None

    def __hash__(self):
        return 1

    def _cmp(self):
        import numpy as np
        if self.answer is None:
            self.answer = self.c.choose('compares ' + self.name, ANSWERS)
        BaseWeird.asked += 1
        a = self.answer
        if a == 'raises':
            raise ValueError('cannot compare')
        return {'True': True, 'False': False, 'NotImplemented': NotImplemented, 'array': np.array([True, False]),
                'empty list': [], 'text': 'yes', 'no truth value': NoBool()}[a]

    def __eq__(self, other):
        return self._cmp()

    def __ne__(self, other):
        return self._cmp()

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return '<weird>'


def frames(name):
    import numpy as np
    import pandas as pd
    return {'frame': lambda: pd.DataFrame({'x': [1, 2]}), 'frame other': lambda: pd.DataFrame({'x': [1, 3]}),
            'frame shape': lambda: pd.DataFrame({'y': [1], 'z': [2]}), 'series': lambda: pd.Series([1, 2]),
            'array': lambda: np.array([1, 2]), 'array other': lambda: np.array([1, 3]), 'array shape': lambda: np.array([1, 2, 3]),
            'array 1': lambda: np.array([1]), 'array 0': lambda: np.array([]), 'list of array': lambda: [np.array([1, 2])],
            'dict of frame': lambda: {'k': pd.DataFrame({'x': [1, 2]})}, 'nan': lambda: float('nan')}[name]()


def value(c, name, kinds):
    k = c.choose(name, list(kinds))
    if k == 'weird':
        w = BaseWeird(name)
        w.c = c
        return k, w
    if k == 'weird in list':
        w = BaseWeird(name)
        w.c = c
        return k, [w]
    if k in ORD:
        return k, ORD[k]
    return k, frames(k)


def build(c):
    w = World(c, UM)
    conf = {}
    for path in list(ITEMS.values()) + ['s.g', 'sc.grp.two']:
        name = f"name = {path.rsplit('.', 1)[1]!r}\n" if path.startswith('sc.') else ''
        conf[path.replace('.', '/')] = f'import symvals\n\n{name}a = symvals.{path.replace(".", "_")}_a\nb = 7\n'
        w.put(path.replace('.', '_') + '_a', 'file ' + path)
    w.project('p', "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
    w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w


class Hooks:
    def __init__(self):
        from pyfileconf.plugin.impl import hookimpl
        log = self.log = []

        class P:
            @hookimpl
            def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
                log.append('pre')
        from pyfileconf.plugin import manager
        manager.plm.register(P())

    def take(self):
        out = self.log[:]
        self.log.clear()
        return out


def has(c, w, path, v, b, when):
    got = w.received(w.pms['p'], path)
    c.check(got['a'] is v, 'the item has the new value', f'{when}: {type(got["a"])} {got["a"]!r} instead of {v!r}')
    c.check(got['b'] == b, 'other arguments are unchanged', when)


SAME = {('frame', 'frame'), ('series', 'series'), ('array 1', 'array 1')}


def equal(old, new, ov, nv):
    """whether the values compare equal as a whole; None: no whole answer"""
    if ov is nv and old != 'weird' and not old.startswith('array') and old != 'nan':
        return True
    if 'weird' in (old, new):
        a = [v.answer for v in (ov, nv) if isinstance(v, BaseWeird)]
        frame = [k for k in (old, new) if k.startswith(('frame', 'series'))]
        if len(a) == 1 and not frame and a[0] in ('True', 'False'):
            if any(k.startswith(('array', 'list of', 'dict of')) for k in (old, new)):
                return None
            return a[0] == 'True'
        return None
    if old in ORD and new in ORD:
        return ov == nv
    if old.startswith(('frame', 'series')) or new.startswith(('frame', 'series')):
        return (old, new) in SAME
    if old in ORD and not new.startswith('array') or new in ORD and not old.startswith('array'):
        return False if 'weird in list' not in (old, new) else None
    return None


def may(old, new, ov, nv):
    """whether the values may have been taken as equal"""
    arr = ('array', 'array other', 'array shape', 'array 1', 'array 0', 'list')
    answers = [getattr(x, 'answer', None) for v in (ov, nv) for x in (v if isinstance(v, list) else [v])]
    eq = equal(old, new, ov, nv)
    return (eq is not False and
            (eq or 'True' in answers or 'text' in answers or ov is nv or old == new or old in arr and new in arr))


FIRST = ['None', '0', 'list', 'weird', 'frame', 'series', 'array', 'nan', 'list of array', 'weird in list']
THEN = ['None', 'False', 'dict', 'weird', 'frame', 'frame other', 'frame shape', 'array', 'array shape', 'array 1', 'array 0',
        'dict of frame']


def h_pairs(c, w):
    """an update from one value to another, of a file value, then refresh and reset"""
    w.c = c
    pm = w.pms['p']
    path = ITEMS[c.choose('item', list(ITEMS))] if c.tier != 'quick' else c.choose('item', ['s.f', 'sc.grp.one'])
    key = path.replace('.', '_') + '_a'
    hooks = Hooks()
    old, ov = value(c, 'old', FIRST)
    new, nv = value(c, 'new', THEN)
    w.put(key, ov)
    if c.choose('loaded', [False, True]):
        has(c, w, path, ov, 7, 'loaded')
    hooks.take()
    pm.update(section_path_str=path, a=nv)
    eq = equal(old, new, ov, nv)
    if eq is not None:
        c.check(bool(hooks.take()) == (not eq), 'equal values are no change, others are', f'{old} -> {new}')
    maybe = may(old, new, ov, nv)
    now = w.received(pm, path)
    c.check(now['a'] is nv or maybe and now['a'] is ov, 'the item has the new value', f'{old} -> {new}: {now["a"]!r}')
    c.check(now['b'] == 7, 'other arguments are unchanged')
    op = c.choose('op', ['refresh', 'reset'])
    getattr(pm, op)(path)
    want = nv if op == 'refresh' else ov
    maybe = maybe or may(new, old, nv, ov)
    got = w.received(pm, path)
    c.check(got['a'] is want or maybe and (got['a'] is ov or got['a'] is nv), f'{op} gives the value it should',
            f'{old} -> {new}: {got["a"]!r}')
    c.check(got['b'] == 7, 'other arguments are unchanged')


def h_file(c, w):
    """the file's value changes between refreshes"""
    w.c = c
    pm = w.pms['p']
    path = c.choose('item', ['s.f', 't.K', 'sc.grp.one'])
    key = path.replace('.', '_') + '_a'
    k0, v0 = value(c, 'v0', FIRST if c.tier != 'quick' else ['0', 'weird', 'frame', 'array', 'list of array'])
    w.put(key, v0)
    has(c, w, path, v0, 7, 'loaded')
    k1, v1 = value(c, 'v1', THEN if c.tier != 'quick' else ['None', 'weird', 'frame other', 'array', 'array shape'])
    w.put(key, v1)
    pm.refresh(path)
    got = w.received(pm, path)['a']
    c.check(got is v1 or got is v0 and may(k0, k1, v0, v1), 'the item has the new value unless it equalled the old one', f'{k0} -> {k1}: {got!r}')
    pm.update({'b': v0}, section_path_str=path)
    pm.refresh(path)
    got = w.received(pm, path)
    maybe = may(k0, '0', v0, 7)
    c.check(got['b'] is v0 or maybe and got['b'] == 7, 'the item has the new value', repr(got['b']))
    pm.reset(path)
    got = w.received(pm, path)['b']
    c.check(type(got) is int and got == 7 or maybe and got is v0, 'reset returns to the file')


def h_ordinary(c, w):
    """every pair of ordinary values"""
    w.c = c
    pm = w.pms['p']
    path = c.choose('item', list(ITEMS.values()))
    v = w.val(path.replace('.', '_') + '_a', KINDS)
    u = c.val('u', KINDS)
    hooks = Hooks()
    loaded = c.choose('loaded', [False, True])
    if loaded:
        c.eq(w.received(pm, path), {'a': v, 'b': 7}, 'run sees the file')
    pm.update(section_path_str=path, a=u)
    same = bool(v == u)
    c.check(bool(hooks.take()) == (not same), 'equal values are no change, others are')
    if same:
        c.check(w.received(pm, path)['a'] == u, 'the item has the new value')
    else:
        c.eq(w.received(pm, path), {'a': u, 'b': 7}, 'the item has the new value')
    c.choose('op', [pm.refresh, pm.reset])(path)
    w.received(pm, path)


def h_product(c, w):
    """product runs over values of all kinds"""
    w.c = c
    pm = w.pms['p']
    kinds = ['None', 'weird', 'frame', 'array', 'array shape']
    vs = [value(c, f'v{i}', kinds if i < 2 else ['0', 'array'])[1] for i in range(3)]
    key = lambda x: (type(x), repr(x), getattr(x, 'name', None))
    same = c.choose('same object', [False, True])
    ups = [dict(section_path_str='s.f', a=vs[0]), dict(section_path_str='s.f', a=vs[0] if same else vs[1]),
           dict(section_path_str='t.K', a=vs[2])]
    seen = []
    w.rec.on['f'] = lambda a=None, b=None: seen.append(a)
    w.rec.on['K'] = lambda a=None, b=None: seen.append(a)
    pm.run_product(['s.f', 't.K'], ups)
    want = [vs[0], vs[2], vs[0] if same else vs[1], vs[2]]
    c.check(len(seen) == 4, 'every case runs', str(len(seen)))
    for g, x in zip(seen, want):
        ok = key(g) == key(x) or any(getattr(o, 'answer', None) in ('True', 'text') for o in vs)
        c.check(ok, 'every run sees its case', f'{g!r} {x!r}')


class Mute:
    """cannot be printed"""
    how = 'raises'

    def __init__(self, how):
        self.how = how

    def __repr__(self):
        if self.how == 'raises':
            raise ValueError('cannot be printed')
        if self.how == 'odd':
            raise LookupError(object())
        if self.how == 'deep':
            raise RecursionError()
        return None

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self


class MuteStr(Mute):
    def __repr__(self):
        return '<mute>'


def h_print(c, w):
    """values and results which cannot be printed"""
    w.c = c
    pm = w.pms['p']
    how = c.choose('how', ['raises', 'odd', 'deep', 'none'])
    v = c.choose('class', [Mute, MuteStr])(how)
    v = c.choose('in', [lambda x: x, lambda x: [x], lambda x: {'k': x}])(v)
    path = c.choose('item', list(ITEMS.values()))
    key = path.replace('.', '_') + '_a'
    u = c.val('u', ('int', 'none'))
    w.put(key, u)
    pm.force_continue = c.choose('force_continue', [False, True])
    at = c.choose('at', ['update', 'file', 'result', 'product', 'section', 'view'])
    want = {'a': u, 'b': 7}
    name = {'s.f': 'f', 't.K': 'K', 'sc.grp.one': 'S:one'}[path]
    if at == 'update':
        if c.choose('loaded', [False, True]):
            pm.get(path)
        pm.update({'a': v}, section_path_str=path, b=v)
        want = {'a': v, 'b': v}
    elif at == 'file':
        w.put(key, v)
        want['a'] = v
    elif at == 'result':
        w.rec.on[name] = lambda a=None, b=None: v
        c.check(pm.run(path) is v, 'a run returns a result which cannot be printed')
        c.check(pm.run([path])[0] is v, 'a run returns a result which cannot be printed')
        del w.rec.on[name]
    elif at == 'product':
        w.rec.take()
        res = pm.run_product(path, [dict(section_path_str=path, a=v), dict(section_path_str=path, a=u)])
        calls = w.rec.take()
        c.check(len(res) == 2 and len(calls) == 2, 'every case runs', str(len(calls)))
        got = calls[0][1]['a']
        c.check(type(got) is type(v), 'every run sees its case')
    elif at == 'section' and not path.startswith('sc.'):
        pm.update(section_path_str=path.rsplit('.', 1)[0], b=v)
    elif at == 'view':
        from pyfileconf import Selector
        o = Selector().p
        for x in path.split('.'):
            o = getattr(o, x)
        o.a = v
        want['a'] = v

    def check(label):
        got = w.received(pm, path)
        c.check(all(got[x] is want[x] or type(want[x]) is not type(v) and bool(got[x] == want[x]) for x in 'ab'), label, at)
    if at != 'section':
        check('the item has the new value')
    else:
        w.received(pm, path)
    op = c.choose('op', ['refresh', 'reset'])
    getattr(pm, op)(path)
    if at in ('update', 'view'):
        if op == 'reset':
            want = {'a': u, 'b': 7}
    if at != 'section':
        check(op + ' gives the value it should')
    c.check(not __import__('pyfileconf').context.stack.frames, 'nothing is considered running afterwards')


HARNESSES = [
    H('pairs', h_pairs, '10 kinds of old value times 12 kinds of new value: ordinary values, data frames, series, arrays of '
      'several shapes, containers of these, and objects whose comparison answers in 8 ways (True, False, NotImplemented, raising, '
      'arrays, values without truth value); update, then refresh or reset, loaded or not', setup=build, share=2),
    H('file', h_file, 'the same kinds as file values that change before a refresh', setup=build),
    H('ordinary', h_ordinary, 'all pairs of values of None/bool/int/str/list/dict/object', setup=build),
    H('product', h_product, 'product runs with such values', setup=build),
    H('print', h_print, 'values which fail to print in 4 ways, alone or in a list or dict, as updates, file values, results, cases or '
      'section settings of 3 items', setup=build),
]
ASSUMPTIONS = ['copying of values does not fail']
