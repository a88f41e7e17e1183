"""C03: running or getting an item uses exactly the latest update of exactly that item."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, view, KINDS, FEW

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
ITEMS = {'f': 's.f', 'K': 't.K', 'one': 'sc.grp.one'}
OTHER = {'f': 's.g', 'K': 's.f', 'one': 'sc.grp.two'}


def build(c, nv=FEW, which=('p',)):
    w = World(c, UM)
    base = {}
    for n in which:
        conf = {}
        for rel, path in (('s/f', 's.f'), ('s/g', 's.g'), ('t/K', 't.K'), ('sc/grp/one', 'sc.grp.one'),
                          ('sc/grp/two', 'sc.grp.two')):
            k = n + '_' + path.replace('.', '_')
            conf[rel] = {'a': f'symvals.{k}_a', 'b': f'symvals.{k}_b'}
            if path.startswith('sc.'):
                conf[rel]['name'] = repr(path.rsplit('.', 1)[1])
            base[n, path] = {'a': w.put(k + '_a', f'file {k} a'), 'b': w.put(k + '_b', f'file {k} b')}
        w.project(n, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
        w.manager(n, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w, base


def setup_seq(c):
    w, base = build(c)
    for path in ITEMS.values():
        base['p', path]['a'] = w.val('p_' + path.replace('.', '_') + '_a', KINDS)
    return w, base


def h_seq(c, state):
    w, base = state
    w.c = c
    pm = w.pms['p']
    kind = c.choose('item', list(ITEMS))
    path, other = ITEMS[kind], OTHER[kind]
    st = base['p', path]
    n = 3 if c.tier == 'quick' else 4
    before = w.files()
    for i in range(n):
        op = c.choose(f'op{i}', ['kw_a', 'dict_ab', 'kw_b', 'mix', 'set_a', 'get', 'run'])
        if op == 'kw_a':
            v = c.val(f'v{i}', KINDS)
            pm.update(a=v, section_path_str=path)
            st['a'] = v
        elif op == 'dict_ab':
            v, u = c.val(f'v{i}', FEW), c.val(f'u{i}', FEW)
            d = {'a': v, 'b': u}
            pm.update(d, section_path_str=path)
            c.check(len(d) == 2 and d['a'] is v and d['b'] is u, "the caller's update dict is unchanged")
            st['a'], st['b'] = v, u
        elif op == 'kw_b':
            v = c.val(f'v{i}', FEW)
            pm.update(section_path_str=path, b=v, pyfileconf_persist=False)
            st['b'] = v
        elif op == 'mix':
            v, u = c.val(f'v{i}', FEW), c.val(f'u{i}', FEW)
            # a keyword overrides the same key of the dictionary
            d = {'b': v, 'a': v}
            pm.update(d, section_path_str=path, a=u)
            c.check(d['a'] is v and d['b'] is v, "the caller's update dict is unchanged")
            st['a'], st['b'] = u, v
        elif op == 'set_a':
            v = c.val(f'v{i}', FEW)
            setattr(view(c, w, 'p', path), 'a', v)
            st['a'] = v
        elif op == 'get':
            c.eq(attrs_of(pm.get(path), 'ab'), st, 'get sees the latest values')
        elif op == 'run':
            c.eq(w.received(pm, path), st, 'run sees the latest values')
    finish(c, w, base, before)


def finish(c, w, base, before, order='run'):
    for (n_, p), exp in base.items():
        if order == 'get':
            c.eq(attrs_of(w.pms[n_].get(p), 'ab'), exp, 'final get sees the latest values, of this item only', p)
        c.eq(w.received(w.pms[n_], p), exp, 'final run sees the latest values, of this item only', p)
        c.eq(attrs_of(w.pms[n_].get(p), 'ab'), exp, 'final get sees the latest values, of this item only', p)
    c.check(w.files() == before, 'no file on disk changes')


def setup_two(c):
    w, base = build(c, which=('p', 'q'))
    for n in 'pq':
        base[n, 's.f']['a'] = w.val(n + '_s_f_a', FEW)
    return w, base


def h_items(c, state):
    """updates spread over items and managers, through every route"""
    w, base = state
    w.c = c
    before = w.files()
    targets = [('p', 's.f'), ('q', 's.f'), ('p', 's.g'), ('p', 'sc.grp.one'), ('p', 't.K')]
    for i in range(2 if c.tier == 'quick' else 3):
        pmname, path = c.choose(f't{i}', targets)
        pm = w.pms[pmname]
        how = c.choose(f'how{i}', ['kw', 'set', 'batch', 'extra', 'get'])
        v = c.val(f'v{i}', FEW)
        if how == 'kw':
            pm.update(section_path_str=path, a=v)
        elif how == 'set':
            setattr(view(c, w, pmname, path), 'a', v)
        elif how == 'batch':
            pm.update_batch([dict(section_path_str=path, a=v)])
        elif how == 'extra':
            # a key that is no argument of the item travels along
            pm.update({'a': v, 'zzz': v}, section_path_str=path)
        elif how == 'get':
            pm.get(path)
            continue
        base[pmname, path]['a'] = v
    finish(c, w, base, before, order=c.choose('first', ['get', 'run']))


def h_mutate(c, state):
    """a value changed in place by its owner is still passed by identity, and the
    argument of one item is not shared with another"""
    w, base = state
    w.c = c
    before = w.files()
    pm = w.pms['p']
    kind = c.choose('item', list(ITEMS))
    path, other = ITEMS[kind], OTHER[kind]
    loaded = c.choose('loaded', [False, True])
    if loaded:
        pm.get(path)
    val = [1]
    v2 = c.val('v', KINDS)
    pm.update(section_path_str=path, a=val)
    got = w.received(pm, path)['a']
    c.check(got is val, 'the very object given is the one received')
    pm.update(section_path_str=other, a=v2)
    base['p', path]['a'] = [1]
    base['p', other]['a'] = v2
    finish(c, w, base, before)


def h_same(c, state):
    """re-setting the file's value after another one, and values equal in turn"""
    w, base = state
    w.c = c
    before = w.files()
    pm = w.pms['p']
    kind = c.choose('item', list(ITEMS))
    path = ITEMS[kind]
    orig = base['p', path]['a']
    for i in range(3):
        if c.choose(f'look{i}', [None, 'get', 'run']):
            c.eq(w.received(pm, path), base['p', path], 'run sees the latest values')
        v = orig if c.choose(f'back{i}', [False, True]) else c.val(f'v{i}', KINDS)
        pm.update(section_path_str=path, a=v)
        base['p', path]['a'] = v
    finish(c, w, base, before)


HARNESSES = [
    H('seq', h_seq, 'one function, class or specific-class item; 3 (thorough 4) operations out of 7 (4 update forms, selector '
      'assignment, get, run); file value and update values any of None/bool/int/str/list/dict/object', setup=setup_seq),
    H('items', h_items, 'two managers with 5 items each; 2 (thorough 3) updates, each of any of 5 items by keyword, selector '
      'assignment, batch, with a foreign key, or a get', setup=setup_two),
    H('same', h_same, 'three updates of one argument, each to a new value or back to the file value, with or without a run '
      'before each', setup=setup_seq),
    H('mutate', h_mutate, 'a mutable value given to one of two items, before or after it is loaded', setup=setup_seq),
]
