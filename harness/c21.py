"""C21: selectors and item views stand for the named item in every history."""
import os
from copy import deepcopy
from functools import partial

from symex.driver import H
from harness.common import World, fn_src, class_src, FEW, KINDS

UM = (fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name') + class_src('E', key='title', execute='go')
      + '    def other(self):\n        return hit("other:" + self.title, a=self.a, b=self.b)\n\n')
DICT = "{'s': [f, K], 't': {'u': [g, f]}, 'w': [K]}"
SC = "{'x': ['one', 'two'], 'y': {'z': ['one']}}"
EX = "{'x': ['one'], 's': ['f']}"
# name -> (items, sections)
ITEMS = ['s.f', 's.K', 't.u.g', 't.u.f', 'w.K', 'sc.x.one', 'sc.x.two', 'sc.y.z.one', 'ex.x.one', 'ex.s.f']
SECTIONS = ['s', 't', 't.u', 'w', 'sc', 'sc.x', 'sc.y', 'sc.y.z', 'ex', 'ex.x', 'ex.s']
WRONG = ['nope', 'S', 'f', 's.g', 's.ff', 's.nope', 't.f', 't.u.K', 'u.g', 'x.one', 'sc.one', 'sc.x.three', 'sc.x.z', 'sc.z.one', 'ex.x.two', 'ex.s.K', 's.f.f', 's.f.a', 's.K.a',
         'sc.x.one.a', 'sc.x.one.nope', 'sc.x.one.name', 'w.f', 'ex.x.one.go', 'sc.s.f', 's.x']
SMALL = ['s.f', 's.K', 't.u.f', 'sc.x.one', 'sc.y.z.one', 'ex.x.one']


def conf(w):
    return [{'class': w.um.S, 'name': 'sc'}, {'class': w.um.E, 'name': 'ex', 'key_attr': 'title', 'execute_attr': 'go'}]


def world(c, names=('p',), values=True, kinds=FEW):
    w = World(c, UM)
    for n in names:
        w.project(n, DICT, None, {'sc': SC, 'ex': EX}, 'f, g, K')
        if values:
            for i, e in enumerate(ITEMS):
                # every item has its own values
                w.put(f'{n}a{i}', f'{n} a {e}')
                w.write(f'{n}/defaults/{e.replace(".", "/")}.py', f'import symvals\na = symvals.{n}a{i}\nb = None\n')
        w.manager(n, specific_class_config_dicts=conf(w))
    return w


def is_class(path):
    return path.endswith('K')


def is_specific(path):
    return path.split('.')[0] in ('sc', 'ex')


def hits(path):
    last = path.split('.')[-1]
    if path.startswith('sc.'):
        return 'S:' + last
    if path.startswith('ex.'):
        return 'E:' + last
    return last


def reach(how, full):
    from pyfileconf import Selector
    from pyfileconf.selector.models.itemview import ItemView
    if how == 'from string':
        return ItemView.from_section_path_str(full)
    if how == 'call':
        return Selector()(full)
    if how == 'class':
        return ItemView(full)
    v = Selector()
    for part in full.split('.'):
        v = getattr(v, part)
    return v


HOW = ['attributes', 'from string', 'call', 'class']


LOOKUPS = ['selector', 'view', 'get', 'run', 'manager', 'contains', 'update', 'reset']
LOOKED_UP = ['s.f', 'sc.x.one', 't.u', 's.nope', 'sc.x.three', 's.K.a', 'nope.f', 't.nope.f']


def earlier(c, w, i, names=('p',), kinds=LOOKUPS, paths=LOOKED_UP):
    """something looked up, successfully or not"""
    from pyfileconf import Selector
    kind = c.choose(f'earlier {i}', kinds)
    path = c.choose(f'of {i}', paths)
    m = c.choose(f'in {i}', list(names)) if len(names) > 1 else names[0]
    pm = w.pms[m]
    try:
        if kind == 'selector':
            v = Selector()
            for part in (m + '.' + path).split('.'):
                v = getattr(v, part)
        elif kind == 'view':
            reach('from string', m + '.' + path).item
        elif kind == 'get':
            pm.get(path)
        elif kind == 'run':
            pm.run(path)
        elif kind == 'manager':
            v = pm
            for part in path.split('.'):
                v = getattr(v, part)
        elif kind == 'contains':
            (m + '.' + path) in Selector()
        elif kind == 'update':
            pm.update({'nope': 1}, path)
        else:
            pm.reset(path)
    except Exception:
        pass


def h_knows(c):
    """a selector knows exactly the sections and items of the loaded managers"""
    from pyfileconf import Selector
    w = world(c, values=False)
    old = Selector()
    for i in range(c.choose('earlier', [0, 1])):
        earlier(c, w, i)
    m = c.choose('manager', ['p', 'q', 'not loaded'])
    if m == 'not loaded':
        w.project('q', DICT, None, {'sc': SC, 'ex': EX}, 'f, g, K')
        w.manager('q', load=False, specific_class_config_dicts=conf(w))
        m = 'q'
    for path in ITEMS + SECTIONS + WRONG:
        want = m == 'p' and path not in WRONG
        for s in (Selector(), old):
            try:
                got = (m + '.' + path) in s
            except Exception as e:
                c.fail('a selector tells whether it knows a path', f'{m}.{path}: {type(e).__name__} {e}')
            c.check(got is want, 'a selector knows exactly what exists', f'{m}.{path}: {got}')


def h_view(c):
    """one view, however reached, is its item"""
    w = world(c)
    pm = w.pms['p']
    path = c.choose('item', ITEMS)
    full = 'p.' + path
    v1 = w.val('v1', FEW)
    pm.update({'b': v1}, path)
    view = reach(c.choose('how', HOW), full)
    c.check(view.section_path_str == full and view._section_path_str == full, 'a view has its full path', full)
    for how in HOW:
        v = reach(how, full)
        c.check(v == view and not (v != view) and hash(v) == hash(view), 'views of one path are equal', f'{full} {how}')
    for other in ITEMS + SECTIONS:
        if other != path:
            c.check(not (reach('class', 'p.' + other) == view), 'views of other paths differ', f'{full} {other}')
            c.check({view: 1}.get(reach('call', 'p.' + other)) is None, 'views of other paths differ', f'{full} {other}')
    want = type(w.um.f) if not is_specific(path) and not is_class(path) else getattr(w.um, {'sc': 'S', 'ex': 'E'}.get(path.split('.')[0], 'K'))
    c.check(view.type is want and isinstance(view, want), 'a view passes for the type of its item', full)
    a = f'p a {path}'
    same(c, w, pm, view, path, a, v1, 'at first')
    others = {e: w.received(pm, e) for e in ITEMS if e != path}
    v2 = w.val('v2', FEW)
    how = c.choose('updated by', ['attribute', 'manager', 'batch by view', 'batch by path', 'other view'])
    if how == 'attribute':
        view.b = v2
    elif how == 'manager':
        pm.update({'b': v2}, path)
    elif how == 'batch by view':
        pm.update_batch([{'b': v2, 'section_path_str': view}])
    elif how == 'batch by path':
        pm.update_batch([{'b': v2, 'section_path_str': path}])
    else:
        reach('call', full).b = v2
    same(c, w, pm, view, path, a, v2, 'after the update')
    pm.reset(view)
    same(c, w, pm, view, path, a, None, 'after a reset')
    for e, got in others.items():
        c.check(w.received(pm, e) == got, 'other items are as before', f'{e} after {full}')


def same(c, w, pm, view, path, a, b, when):
    def called(what, calls):
        c.check([x[0] for x in calls] == [hits(path)], 'a view runs its item', f'{path} {what} {when}: {calls}')
        c.eq(calls[0][1]['a'], a, 'a view runs its item with its configuration', f'{path} {what} {when}')
        c.eq(calls[0][1]['b'], b, 'a view runs its item with its configuration', f'{path} {what} {when}')
    w.rec.take()
    if is_class(path):
        got = view()
        c.check(w.rec.take() == [] and type(got) is w.um.K, 'calling a view of a class gives the object', path)
        c.check(got is pm.get(path), 'calling a view of a class gives the object', path)
        got()
    else:
        c.check(view() == ['ret', hits(path)], 'calling a view gives the result', path)
    called('called', w.rec.take())
    c.check(pm.run(view) == ['ret', hits(path)], 'running a view runs its item', path)
    called('run', w.rec.take())
    c.check(pm.run([view, view]) == [['ret', hits(path)]] * 2, 'running views in a list', path)
    calls = w.rec.take()
    called('first of list', calls[:1])
    called('second of list', calls[1:])
    obj = pm.get(view)
    c.check(obj is pm.get(path), 'getting a view gets its item', path)
    if is_class(path) or is_specific(path):
        c.eq(view.b, b, 'an attribute of a view is the one of the item', f'{path} {when}')
        c.eq(view.a, a, 'an attribute of a view is the one of the item', f'{path} {when}')
        c.eq(obj.b, b, 'an attribute of the item', f'{path} {when}')
        if path.startswith('sc'):
            c.check(view.name == path.split('.')[-1], 'an attribute of a view is the one of the item', 'name')
        if path.startswith('ex'):
            c.check(view.title == path.split('.')[-1], 'an attribute of a view is the one of the item', 'title')
            w.rec.take()
            view.other()
            calls = w.rec.take()
            c.check(calls[0][0] == 'other:' + path.split('.')[-1], 'a method of a view is the one of the item', path)
            c.eq(calls[0][1]['b'], b, 'a method of a view is the one of the item', path)
    else:
        c.eq(view.item.keywords['b'], b, 'the item of a view is configured', f'{path} {when}')


def h_history(c):
    """earlier lookups do not change what is found"""
    names = ['p', 'q']
    w = world(c, names)
    if c.tier != 'quick':
        for i in range(2):
            earlier(c, w, i, names)
    elif c.choose('earlier', [1, 2]) == 1:
        earlier(c, w, 0, names)
    else:
        for i in range(2):
            earlier(c, w, i, kinds=['selector', 'get', 'manager', 'update'], paths=['s.f', 'sc.x.three', 't.nope.f'])
    m = c.choose('manager', names)
    path = c.choose('item', ['s.f', 's.K', 'sc.x.one', 'ex.x.one'] if c.tier != 'quick' else ['s.f', 'sc.x.one'])
    pm = w.pms[m]
    v = w.val('v', ('int', 'obj') if c.tier == 'quick' else FEW)
    view = reach('attributes', f'{m}.{path}')
    c.check(view.section_path_str == f'{m}.{path}', 'a view has its full path', path)
    view.b = v
    same(c, w, pm, view, path, f'{m} a {path}', v, 'after earlier lookups')
    other = names[1 - names.index(m)]
    there = reach('call', f'{other}.{path}')
    c.check(not (there == view), 'views of other managers differ', path)
    same(c, w, w.pms[other], there, path, f'{other} a {path}', None, 'in the other manager')


def h_stale(c):
    """a selector, a view and a section view made earlier find what new ones find"""
    from pyfileconf import Selector
    w = World(c, UM)
    w.project('p', DICT, None, {'sc': SC, 'ex': EX}, 'f, g, K')
    when = c.choose('made', ['before the manager', 'before loading', 'before the change'])
    if when == 'before the manager':
        s = Selector()
    pm = w.manager('p', load=False, specific_class_config_dicts=conf(w))
    if when == 'before loading':
        s = Selector()
    pm.load()
    if when == 'before the change':
        s = Selector()
        for e in SMALL:
            reach('attributes', 'p.' + e).item
    kind = c.choose('kind', ['attributes', 'call', 'section'])
    sections = {x: s('p.' + x) for x in ('s', 't.u', 'sc.x', 'sc.new', 'new')} if kind == 'section' else None
    change = c.choose('change', ['none', 'create', 'reload with more', 'second manager', 'reload', 'new manager of the name'])
    new = []
    if change == 'create':
        pm.create('s', w.um.g)
        pm.create('new', w.um.g)
        pm.create('sc.x.new')
        pm.create('sc.new.one')
        new = ['s.g', 'new.g', 'sc.x.new', 'sc.new.one']
    elif change == 'reload with more':
        w.project('p', "{'s': [f, K, g], 't': {'u': [g, f]}, 'w': [K], 'new': [g]}", None, {'sc': "{'x': ['one', 'new', 'two'], 'y': {'z': ['one']}, 'new': ['one']}", 'ex': EX}, 'f, g, K')
        pm.reload()
        new = ['s.g', 'new.g', 'sc.x.new', 'sc.new.one']
    elif change == 'second manager':
        w.project('q', "{'s': [f]}", None, None, 'f')
        w.manager('q')
    elif change == 'reload':
        pm.reload()
    elif change == 'new manager of the name':
        pm = w.manager('p', specific_class_config_dicts=conf(w))
    if kind == 'section':
        path = c.choose('item', ['s.f', 's.K', 't.u.f', 'sc.x.one'] + new)
        sec, _, last = path.rpartition('.')
        view = getattr(sections[sec], last)
    else:
        path = c.choose('item', ITEMS + new)
        if kind == 'call':
            view = s('p.' + path)
        else:
            view = s
            for part in ('p.' + path).split('.'):
                view = getattr(view, part)
    c.check(('p.' + path) in s, 'a selector knows exactly what exists', f'{path} made {when}')
    c.check(('p.s.nope') not in s and ('p.nope.f') not in s, 'a selector knows exactly what exists', f'nope made {when}')
    c.check(view == reach('attributes', 'p.' + path) and hash(view) == hash('p.' + path), 'views of one path are equal', path)
    v = w.val('v', FEW)
    view.b = v
    same(c, w, pm, view, path, None, v, f'made {when}, {change}')


def h_execute(c):
    """the same class in several dictionaries, each with its own way to run"""
    w = World(c, UM)
    w.project('p', "{}", None, {'one': "{'x': ['m', 'n']}", 'two': "{'x': ['m']}"})
    w.project('q', "{}", None, {'one': "{'x': ['m']}"})
    ways = {'p.one': c.choose('p.one', ['go', 'other']), 'p.two': c.choose('p.two', ['go', 'other']), 'q.one': c.choose('q.one', ['go', 'other'])}
    p = w.manager('p', specific_class_config_dicts=[{'class': w.um.E, 'name': n, 'key_attr': 'title', 'execute_attr': ways['p.' + n]} for n in ('one', 'two')])
    q = w.manager('q', specific_class_config_dicts=[{'class': w.um.E, 'name': 'one', 'key_attr': 'title', 'execute_attr': ways['q.one']}])
    for i, full in enumerate(['p.one.x.m', 'p.two.x.m', 'q.one.x.m', 'p.one.x.n']):
        m, _, path = full.partition('.')
        view = reach('attributes', full)
        v = w.val(f'v{i}', ('none', 'int'))
        view.b = v
    order = c.choose('first', [0, 1, 2])
    for i, full in list(enumerate(['p.one.x.m', 'p.two.x.m', 'q.one.x.m', 'p.one.x.n']))[order:]:
        m, _, path = full.partition('.')
        view = reach('attributes', full)
        way = ways['.'.join(full.split('.')[:2])]
        want = {'go': 'E:', 'other': 'other:'}[way] + full[-1]
        w.rec.take()
        c.check(view() == ['ret', want], 'calling a view runs its item', f'{full} by {way}')
        w.pms[m].run(view)
        calls = w.rec.take()
        c.check([x[0] for x in calls] == [want] * 2, 'calling a view runs its item', f'{full} by {way}: {calls}')
        for x in calls:
            c.eq(x[1]['b'], getattr(w.sv, f'v{i}'), 'a view runs its item with its configuration', full)


def h_passed(c):
    """a view as the value of another item's configuration"""
    w = world(c)
    pm = w.pms['p']
    path = c.choose('item', [e for e in SMALL])
    user = c.choose('used by', ['t.u.g', 'w.K', 'sc.x.two'])
    how = c.choose('by', ['config file', 'update', 'attribute'])
    c.assume(path != user)
    if how == 'config file':
        w.write(f'p/defaults/{user.replace(".", "/")}.py', f'from pyfileconf import Selector\ns = Selector()\na = s.p.{path}\nb = None\n')
        pm.reload()
    elif how == 'update':
        pm.update({'a': reach('call', 'p.' + path)}, user)
    else:
        reach('call', 'p.' + user).a = reach('attributes', 'p.' + path)
    v = w.val('v', FEW)
    if c.choose('updated', ['before', 'after']) == 'before':
        pm.update({'b': v}, path)
        got = w.received(pm, user)['a']
    else:
        got = w.received(pm, user)['a']
        pm.update({'b': v}, path)
        got = w.received(pm, user)['a'] if c.choose('again', [False, True]) else got
    c.check(got.section_path_str == 'p.' + path and got == reach('call', 'p.' + path), 'the item receives the view', f'{path} in {user}')
    same(c, w, pm, got, path, f'p a {path}', v, f'received by {user}')


ODD = ['items', 'get', 'name', 'klass', 'append', 'basepath', 'imports', 'name_dict', 'from_dict', 'set', 'collection', 'update', 'config', 'load', 'run', 'key_attr', 'execute_attr', 'reset',
       'scaffold_config', 'config_map', 'refresh', 'pop', 'is_section', 'local_config', 'runner', 'folder', 'reload', 'create', 'extend', 'copy', 'insert', 'output_name', 'keywords', 'args', 'func']


def h_names(c):
    """sections and items named like attributes of the library's own objects"""
    from pyfileconf import Selector
    n = c.choose('name', ODD)
    where = c.choose('where', ['item', 'section', 'section of specific', 'deeper', 'below items', 'function'])
    um = UM + (fn_src(n) if where == 'function' else '')
    w = World(c, um)
    main = {'section': f"{{'{n}': [f], 't': [f]}}", 'deeper': f"{{'t': {{'{n}': [f]}}}}", 'below items': f"{{'t': [g, {{'{n}': [f]}}]}}", 'function': f"{{'t': [{n}, f]}}"}.get(where, "{'t': [f]}")
    sc = {'item': f"{{'x': ['{n}', 'k']}}", 'section of specific': f"{{'{n}': ['k'], 'x': ['k']}}", 'deeper': f"{{'x': {{'{n}': ['k'], 'y': ['k']}}}}"}.get(where, "{'x': ['k']}")
    path, other = {'item': (f'sc.x.{n}', 'sc.x.k'), 'section': (f'{n}.f', 't.f'), 'section of specific': (f'sc.{n}.k', 'sc.x.k'), 'deeper': (f't.{n}.f', f'sc.x.{n}.k'),
                   'below items': (f't.{n}.f', 't.g'), 'function': (f't.{n}', 't.f')}[where]
    w.project('p', main, None, {'sc': sc}, 'f, g' + (', ' + n if where == 'function' else ''))
    pm = w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    for p in (path, other):
        c.check('p.' + p in Selector(), 'a selector knows exactly what exists', p)
    w.put('v0', 'from the file')
    w.write(f'p/defaults/{path.replace(".", "/")}.py', w.read(f'p/defaults/{path.replace(".", "/")}.py').replace('a = None', 'import symvals\na = symvals.v0'))
    pm.reload()
    view = reach('call', 'p.' + path)
    v = w.val('v', FEW)
    view.b = v
    same(c, w, pm, view, path, 'from the file', v, 'by odd name')
    section = path.rpartition('.')[0]
    w.rec.take()
    pm.run(section)
    calls = w.rec.take()
    c.check(hits(path) in [x[0] for x in calls], 'running the section runs the item', section)
    pm.refresh(path)
    c.eq(w.received(pm, path)['b'], v, 'refreshed', path)
    pm.reset(path)
    c.eq(w.received(pm, path)['b'], None, 'reset', path)
    if not is_specific(path):
        pm.reload()
        pm.update({'a': 'of section'}, section)
        c.eq(w.received(pm, path)['a'], 'of section', 'updates of the section reach the item', path)
    c.eq(w.received(pm, other)['b'], None, 'other items', other)
    if is_specific(path):
        pm.create('sc.x.' + n + '2')
        pm.create(f'sc.new.{n}')
        c.check(pm.run(f'sc.new.{n}') == ['ret', 'S:' + n], 'created', n)
        w.rec.take()
    else:
        pm.create(f'new.{n}', w.um.g)
        c.eq(w.received(pm, f'new.{n}.g')['a'], None, 'created', n)


def h_kind(c):
    """an item becomes of another kind"""
    from pyfileconf import Selector
    kinds = {'function': fn_src('x'), 'class': class_src('x'), 'other class': class_src('x') + 'x.more = 1\n'}
    before, after = c.choose('before', list(kinds)), c.choose('after', list(kinds))
    spec = c.choose('specific', ['S', 'E2', 'same']) if before == after else 'same'
    c.assume(before != after or spec != 'same')
    w = World(c, UM + kinds[before] + class_src('E2', key='name').replace("'E2", "'S"))
    w.project('p', "{'s': [x], 't': {'u': [g]}}", None, {'sc': SC}, 'x, g')

    def dicts(cls):
        return [{'class': cls, 'name': 'sc'}]
    one = w.um.E2 if spec == 'S' else w.um.S
    pm = w.manager('p', specific_class_config_dicts=dicts(one))
    s = Selector()
    views = {p: s('p.' + p) for p in ('s.x', 'sc.x.one')}
    looked = c.choose('looked up', ['no', 'type', 'isinstance', 'item', 'run'])
    for p, v in views.items():
        if looked == 'type':
            v.type, s.get_type('p.' + p), s.get_type('p.s')
        elif looked == 'isinstance':
            isinstance(v, (int, w.um.S))
        elif looked == 'item':
            v.item
        elif looked == 'run':
            v()
    how = c.choose('then', ['reload', 'new manager'])
    if before != after:
        w.um = w.module('um', 'from symrec import hit\n\n' + UM + kinds[after] + class_src('E2', key='name').replace("'E2", "'S"))
    two = getattr(w.um, {'S': 'S', 'E2': 'E2'}.get(spec, one.__name__))
    if how == 'new manager' or two is not one:
        pm = w.manager('p', specific_class_config_dicts=dicts(two))
    else:
        pm.reload()
    x = w.val('x', FEW)
    for p, v in list(views.items()) + [('s.x', reach('attributes', 'p.s.x')), ('sc.x.one', Selector()('p.sc.x.one'))]:
        want = two if p != 's.x' else type(w.um.g) if after == 'function' else w.um.x
        c.check(v.type is want and isinstance(v, want), 'a view passes for the type of its item', f'{p}: {v.type} instead of {want}')
        c.check(s.get_type('p.' + p) is want, 'a selector tells the type of an item', f'{p}: {s.get_type("p." + p)} instead of {want}')
        v.b = x
        w.rec.take()
        r = v()
        if p == 's.x' and after != 'function':
            c.check(type(r) is w.um.x, 'calling a view of a class gives the object', p)
            c.eq(r.b, x, 'a view runs its item with its configuration', p)
        else:
            calls = w.rec.take()
            c.check([k[0] for k in calls] == ['x' if p == 's.x' else 'S:one'], 'a view runs its item', f'{p}: {calls}')
            c.eq(calls[0][1]['b'], x, 'a view runs its item with its configuration', p)


def h_copy(c):
    """a copy of a view stands for the same item; a deep copy is an object of its own"""
    import copy
    w = world(c, kinds=('int', 'obj'))
    pm = w.pms['p']
    how = c.choose('how', HOW)
    path = c.choose('item', SMALL)
    full = 'p.' + path
    view = reach(how, full)
    if c.choose('used', ['', 'item', 'type']):
        view.item, view.type
    kind = c.choose('copy', ['copy', 'copy of a copy', 'in a list', 'deep copy'])
    a = f'p a {path}'
    if c.choose('updated before', [False, True]):
        a = c.val('before', ('int', 'obj'))
        view.a = a
    if kind == 'copy':
        cp = copy.copy(view)
    elif kind == 'copy of a copy':
        cp = copy.copy(copy.copy(view))
    elif kind == 'in a list':
        cp = copy.copy([view])[0]
    else:
        cp = copy.deepcopy(view)
    change = c.choose('change', ['none', 'update', 'update by the copy', 'reset', 'reload'] if kind != 'deep copy' else ['update'])
    v = None
    if change == 'update':
        v = c.val('v', ('int', 'obj'))
        pm.update(section_path_str=path, b=v)
    elif change == 'update by the copy':
        v = c.val('v', ('int', 'obj'))
        cp.b = v
    elif change == 'reset':
        pm.reset(path)
        a = f'p a {path}'
    elif change == 'reload':
        pm.reload()
        a = f'p a {path}'
    if kind == 'deep copy':
        if is_class(path) or is_specific(path):
            c.eq([cp.a, cp.b], [a, None], 'a deep copy of a view is a copy of the item', path)
        else:
            c.eq(cp.keywords, {'a': a, 'b': None}, 'a deep copy of a view is a copy of the item', path)
        c.check(cp is not view.item, 'a deep copy of a view is a copy of the item', path)
        cp = view
    c.check(cp == view and view == cp and hash(cp) == hash(full) and cp.section_path_str == full, 'views of one path are equal', path)
    same(c, w, pm, cp, path, a, v, f'{kind} {change}')


HARNESSES = [
    H('knows', h_knows, f'all {len(ITEMS + SECTIONS)} existing and {len(WRONG)} wrong paths in a loaded, an unknown and an unloaded manager after 0-1 of 64 earlier lookups'),
    H('view', h_view, f'{len(ITEMS)} items times 4 ways to reach the view times 5 ways to update it, arbitrary values', share=2),
    H('history', h_history, 'one earlier lookup of 8 kinds times 8 paths times 2 managers or two of 4 kinds times 3 paths, then 2 items of either manager (thorough: any two, 4 items)', share=2),
    H('stale', h_stale, 'selectors, views and section views made at 3 earlier times, 6 changes, all items', share=1.5),
    H('copy', h_copy, '6 items times 4 ways to reach the view, used before or not; copies, copies of copies, copies in a list and deep copies, made before 5 changes, '
      'arbitrary values', share=1.5),
    H('execute', h_execute, 'three dictionaries of one class in two managers, each with either of two ways to run, 4 items'),
    H('names', h_names, f'{len(ODD)} names which attributes of the objects of the library have too, in 6 places'),
    H('kind', h_kind, 'a function or class replaced by another kind, or the class of a dictionary by another, after 5 earlier uses of its view, by a reload or a new manager'),
    H('passed', h_passed, '6 items passed to 3 others by 3 ways, arbitrary values'),
]
ASSUMPTIONS = ['names of arguments are not attributes of views (type, item, selector, section_path_str)']
