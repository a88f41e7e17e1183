"""C24: a batch update is the same as the updates made one by one."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, view, FEW
from harness.model import Item

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
PATHS = ['s.f', 's.g', 't.K', 'sc.grp.one', 'sc.grp.two']


def build(c):
    w = World(c, UM)
    model = {}
    for m in 'pq':
        conf = {}
        for path in PATHS:
            d = conf[path.replace('.', '/')] = {x: f'symvals.{path.replace(".", "_")}_{x}' for x in 'ab'}
            if path.startswith('sc.'):
                d['name'] = repr(path.rsplit('.', 1)[1])
            for x in 'ab':
                w.put(f'{path.replace(".", "_")}_{x}', f'file {path} {x}')
            model[f'{m}.{path}'] = Item({x: f'file {path} {x}' for x in 'ab'})
        conf['s/section'] = conf['sc/section'] = 'zzz = 1\n'
        w.project(m, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
        w.manager(m, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w, model


def ref(c, w, full, form, how):
    """the item as the caller names it"""
    m, path = full.split('.', 1)
    if form == 'view':
        return view(c, w, m, path)
    if form == 'sp':
        from pyfileconf.sectionpath.sectionpath import SectionPath
        return SectionPath(path if how == 'pm' else full)
    if how == 'sub':
        return path.split('.', 1)[1]
    return path if how == 'pm' else full


def one(c, i, forms=('kw', 'both', 'd_', 'drop')):
    """an update without its target, and what it means"""
    form = c.choose(f'form{i}', list(forms))
    v = c.val(f'v{i}', FEW)
    if form == 'kw':
        return dict(a=v), {'a': v}, True
    if form == 'both':
        return dict(a=v, b=i), {'a': v, 'b': i}, True
    if form == 'd_':
        return dict(d_={'b': v}), {'b': v}, True
    return dict(a=v, pyfileconf_persist=False), {'a': v}, False


def snap(updates):
    return [{k: dict(v) if k == 'd_' else v for k, v in u.items()} for u in updates]


def same(c, updates, before):
    c.check(len(updates) == len(before) and all(list(u) == list(b) for u, b in zip(updates, before)),
            'the update dictionaries are not modified', f'{updates} {before}')
    for u, b in zip(updates, before):
        for k in u:
            if k == 'd_':
                c.check(list(u[k]) == list(b[k]), 'the update dictionaries are not modified', k)
                for x in u[k]:
                    c.check(u[k][x] is b[k][x], 'the update dictionaries are not modified', x)
            else:
                c.check(u[k] is b[k], 'the update dictionaries are not modified', k)


def send(c, updates, kind, fn):
    before = snap(updates)
    if kind == 'list':
        fn(updates)
    elif kind == 'tuple':
        fn(tuple(updates))
    else:
        fn(u for u in updates)
    same(c, updates, before)


def check_all(c, w, model):
    for full, m in model.items():
        mgr, path = full.split('.', 1)
        c.eq(attrs_of(w.pms[mgr].get(path), 'ab'), m.touch(), 'get sees the configuration', full)
        c.eq(w.received(w.pms[mgr], path), m.touch(), 'run sees the configuration', full)


def h_batch(c, state):
    """through a manager or a batch updater, over several items and managers"""
    w, model = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    how = c.choose('how', ['pm', 'updater'])
    pool = {'pm': ['p.s.f', 'p.t.K', 'p.sc.grp.one'], 'updater': ['p.s.f', 'q.s.f', 'q.sc.grp.one']}[how]
    fn = w.pms['p'].update_batch if how == 'pm' else BatchUpdater().update
    if c.choose('loaded', [False, True]):
        for full in pool[:2]:
            c.eq(w.received(w.pms[full[0]], full[2:]), model[full].touch(), 'run sees the configuration', full)
    form = c.choose('as', ['path', 'view'])
    updates, n = [], 2 if c.tier == 'quick' else 3
    for i in range(n):
        full = c.choose(f'item{i}', pool)
        u, d, keep = one(c, i, [('kw', 'd_'), ('kw', 'drop'), ('both', 'd_')][i])
        u['section_path_str'] = ref(c, w, full, 'path' if i == 1 else form, how)
        updates.append(u)
        model[full].update(d, keep)
    send(c, updates, c.choose('iterable', ['list', 'generator']), fn)
    check_all(c, w, model)
    for full in pool:
        w.pms[full[0]].refresh(full[2:])
        model[full].refresh()
    check_all(c, w, model)


def h_reset(c, state):
    """resetting a batch is resetting each item, after a batch update"""
    w, model = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    pool = ['p.s.f', 'q.s.f', 'q.t.K', 'p.sc.grp.one']
    v = c.val('v', FEW)
    if c.choose('loaded', [False, True]):
        check_all(c, w, model)
    ups = [dict(section_path_str=p, a=v, b=i) for i, p in enumerate(pool)]
    send(c, ups, 'tuple', BatchUpdater().update)
    for i, p in enumerate(pool):
        model[p].update({'a': v, 'b': i})
    which = [p for p in pool if c.choose('reset ' + p, [False, True])]
    if c.choose('reverse', [False, True]):
        which.reverse()
    form = c.choose('as', ['path', 'view', 'sp'])
    how = c.choose('how', ['updater', 'based'])
    if how == 'based':
        which = [p for p in which if p[0] == 'p']
        bu = BatchUpdater(base_section_path_str='p', strip_manager_from_iv=True)
        bu.reset(ref(c, w, p, form, 'pm') for p in which)
    else:
        BatchUpdater().reset([ref(c, w, p, form, 'full') for p in which])
    for p in which:
        model[p].reset()
    check_all(c, w, model)
    for p in pool:
        w.pms[p[0]].refresh(p[2:])
        model[p].refresh()
    check_all(c, w, model)


def h_base(c, state):
    """batch updaters with a base path, for a manager or inside one"""
    w, model = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    base = c.choose('base', ['p', 'q', 'p.s', 'q.sc'])
    items = [x for x in model if x.startswith(base + '.')]
    updates = []
    for i in range(2):
        full = c.choose(f'item{i}', items[:3])
        form = c.choose(f'as{i}', ['path', 'sp', 'view'] if len(base) == 1 else ['path'])
        u, d, keep = one(c, i, ('kw', 'd_'))
        t = full[len(base) + 1:]
        u['section_path_str'] = t if form == 'path' else ref(c, w, full, form, 'pm')
        updates.append(u)
        model[full].update(d, keep)
    send(c, updates, 'list', BatchUpdater(base, strip_manager_from_iv=True).update)
    check_all(c, w, model)


def h_twin(c, state):
    """sections included: a batch on one manager, the same one by one on its twin"""
    w, _ = state
    w.c = c
    p, q = w.pms['p'], w.pms['q']
    if c.choose('loaded', [False, True]):
        for pm in (p, q):
            pm.get('s.f')
            pm.get('sc.grp.one')
    ups = []
    for i in range(3 if c.tier == 'quick' else 4):
        t = c.choose(f'target{i}', ['s', 's.f', 's.g', 'sc', 'sc.grp.one'][(i % 2) * 2:][:3])
        u, _, _ = one(c, i, ('kw', 'd_') if c.tier == 'quick' else ('kw', 'both', 'd_', 'drop'))
        u['section_path_str'] = t
        ups.append(u)
    for u in snap(ups):
        q.update(**u)
    send(c, ups, 'list', p.update_batch)
    for path in PATHS:
        want = w.received(q, path)
        c.eq(w.received(p, path), want, 'run sees the configuration', path)
    for path in PATHS:
        p.refresh(path)
        q.refresh(path)
        c.eq(w.received(p, path), w.received(q, path), 'run sees the configuration', path)


def h_order(c, state):
    """several updates of one item, or of it and its section's other item, take effect in their order"""
    w, model = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    how = c.choose('how', ['pm', 'updater'])
    item, other = c.choose('item', [('p.s.f', 'p.s.g'), ('p.sc.grp.one', 'p.sc.grp.two')])
    n = 3 if c.tier == 'quick' else 4
    updates = []
    for i in range(n):
        full = other if i == 1 and c.choose('between', [False, True]) else item
        u, d, keep = one(c, i, ('kw', 'both', 'd_', 'drop'))
        u['section_path_str'] = ref(c, w, full, 'view' if i == 2 else 'path', how)
        updates.append(u)
        model[full].update(d, keep)
    send(c, updates, 'list', w.pms['p'].update_batch if how == 'pm' else BatchUpdater().update)
    for full in (item, other):
        c.eq(w.received(w.pms['p'], full[2:]), model[full].touch(), 'run sees the configuration', full)
        w.pms['p'].refresh(full[2:])
        model[full].refresh()
        c.eq(w.received(w.pms['p'], full[2:]), model[full].touch(), 'run sees the configuration', full)


HARNESSES = [
    H('batch', h_batch, 'batches of 2 (thorough 3) updates, each of 3 items in one or two managers named by path or item view, '
      'in 2 forms each (keywords, two arguments, dict, not persistent), as list or generator, before or after loading; values '
      'None/int/object; then a refresh', setup=build, share=2),
    H('reset', h_reset, 'any subset of 4 items in 2 managers reset as a batch in 3 forms after a batch update', setup=build),
    H('base', h_base, '2 updates through updaters with a base path', setup=build),
    H('order', h_order, '3 (4) updates of one item in 4 forms, with or without another item between', setup=build),
    H('twin', h_twin, '3 (4) updates of sections and items against the same made one by one on a twin manager', setup=build),
]
ASSUMPTIONS = ['a manager is given item views of its own items only (it ignores the manager part of a view)',
               'batches name a section or item each']
