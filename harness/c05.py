"""C05: refresh = what the file now evaluates to, overridden by persistent updates."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, KINDS, FEW
from harness.model import Item

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
ITEMS = {'f': 's.f', 'K': 't.K', 'one': 'sc.grp.one'}
ALL = ['s.f', 's.g', 't.K', 'sc.grp.one', 'sc.grp.two']


def build(c, first=FEW, section=False):
    w = World(c, UM)
    conf, model = {}, {}
    over = {'s': {}, 't': {}, 'sc': {}}
    if section:
        for top in over:
            over[top] = {'b': w.put(f'sec_{top}_b', f'section {top} b')}
            conf[f'{top}/section'] = {'b': f'symvals.sec_{top}_b'}
    for path in ALL:
        k = path.replace('.', '_')
        conf[path.replace('.', '/')] = d = {x: f'symvals.{k}_{x}' for x in 'ab'}
        if path.startswith('sc.'):
            d['name'] = repr(path.rsplit('.', 1)[1])
        model[path] = Item({'a': w.val(k + '_a', first), 'b': w.put(k + '_b', f'file {k} b')}, over[path.split('.')[0]])
    w.project('p', "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
    w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w, model


def set_file(w, model, path, arg, v):
    w.put(path.replace('.', '_') + '_' + arg, v)
    model[path].file[arg] = v


def step(c, w, model, i, path, op, kinds=FEW):
    pm, m = w.pms['p'], model[path]
    if op == 'file_a':
        set_file(w, model, path, 'a', c.val(f'n{i}', kinds))
    elif op == 'file_b':
        set_file(w, model, path, 'b', c.val(f'n{i}', FEW))
    elif op == 'keep_a':
        v = c.val(f'n{i}', kinds)
        pm.update(section_path_str=path, a=v)
        m.update({'a': v})
    elif op == 'keep_ab':
        v, u = c.val(f'n{i}', FEW), c.val(f'u{i}', FEW)
        pm.update({'a': v, 'b': u}, section_path_str=path)
        m.update({'a': v, 'b': u})
    elif op == 'drop_a':
        v = c.val(f'n{i}', kinds)
        pm.update(section_path_str=path, a=v, pyfileconf_persist=False)
        m.update({'a': v}, False)
    elif op == 'drop_b':
        v = c.val(f'n{i}', FEW)
        pm.update({'b': v}, section_path_str=path, pyfileconf_persist=False)
        m.update({'b': v}, False)
    elif op == 'refresh':
        pm.refresh(path)
        m.refresh()
    elif op == 'get':
        c.eq(attrs_of(pm.get(path), 'ab'), m.touch(), 'get sees the configuration', path)
    elif op == 'run':
        c.eq(w.received(pm, path), m.touch(), 'run sees the configuration', path)
    elif op == 'reset':
        pm.reset(path)
        m.reset()
    elif op == 'reset_section':
        sec = path.rsplit('.', 1)[0]
        pm.reset(sec)
        for p in ALL:
            if p.startswith(sec + '.'):
                model[p].reset()
    elif op == 'reload':
        pm.reload()
        for m in model.values():
            m.forget()
    else:
        raise KeyError(op)


def finish(c, w, model, first='run'):
    pm = w.pms['p']
    for p, m in model.items():
        if first == 'get':
            c.eq(attrs_of(pm.get(p), 'ab'), m.touch(), 'get sees the configuration', p)
        c.eq(w.received(pm, p), m.touch(), 'run sees the configuration', p)
        c.eq(attrs_of(pm.get(p), 'ab'), m.touch(), 'get sees the configuration', p)


def h_seq(c, state):
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    loaded = c.choose('loaded', [False, True])
    if loaded:
        step(c, w, model, 0, path, 'run')
    for i in range(3 if c.tier == 'quick' else 4):
        step(c, w, model, i + 1, path, c.choose(f'op{i}', ['file_a', 'keep_a', 'drop_a', 'drop_b', 'refresh']))
    step(c, w, model, 9, path, 'refresh')
    finish(c, w, model)


def h_pairs(c, state):
    """both arguments, refresh in the middle, then a change after it"""
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    for i, ops in enumerate([['keep_ab', 'drop_a', 'keep_a'], ['file_b', 'drop_b', 'get'], ['refresh'],
                             ['refresh', 'file_a', 'drop_a', 'keep_a', 'get'], ['refresh', 'run']]):
        step(c, w, model, i, path, c.choose(f'op{i}', ops), KINDS)
    finish(c, w, model, 'get')


def h_section(c, state):
    """settings inherited from a section survive a refresh"""
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    step(c, w, model, 0, path, c.choose('load', ['run', 'get']))
    for i in range(2 if c.tier == 'quick' else 3):
        step(c, w, model, i + 1, path, c.choose(f'op{i}', ['file_a', 'file_b', 'keep_a', 'keep_ab', 'drop_b', 'refresh']))
    step(c, w, model, 9, path, 'refresh')
    if c.choose('twice', [False, True]):
        step(c, w, model, 9, path, 'refresh')
    finish(c, w, model)


def h_other(c, state):
    """two items with histories of their own, one is refreshed"""
    w, model = state
    w.c = c
    pairs = {'f,g': ('s.f', 's.g'), 'one,two': ('sc.grp.one', 'sc.grp.two'), 'K,f': ('t.K', 's.f')}
    x, y = pairs[c.choose('items', list(pairs))]
    if c.choose('loaded', [False, True]):
        step(c, w, model, 0, y, 'run')
    step(c, w, model, 1, y, c.choose('other', ['keep_a', 'drop_a', 'drop_b']))
    step(c, w, model, 2, x, c.choose('own', ['keep_a', 'drop_a', 'get']))
    # the other item's file changes too: it must not be read again
    if model[y].cur is not None:
        step(c, w, model, 3, y, 'file_a')
    step(c, w, model, 4, x, 'refresh')
    finish(c, w, model)


def h_text(c):
    """the config file itself is rewritten between refreshes"""
    w, model = build(c)
    path = ITEMS[c.choose('item', list(ITEMS))]
    pm, m = w.pms['p'], model[path]
    if c.choose('loaded', [False, True]):
        pm.get(path)
    m.touch()
    pm.get(path)
    name = "name = 'one'\n" if path.startswith('sc.') else ''
    for i in range(2):
        v = w.val(f'new{i}', FEW)
        form = c.choose(f'form{i}', ['a only', 'swap', 'helper', 'default'])
        head = 'import symvals\n\n' + name
        if form == 'a only':
            text, new = f'a = symvals.new{i}\nb = None\n', {'a': v, 'b': None}
        elif form == 'swap':
            text, new = f'b = symvals.new{i}\na = 5\n', {'a': 5, 'b': v}
        elif form == 'helper':
            text, new = f'x = symvals.new{i}\na = x\nb = [x, 2]\n', {'a': v, 'b': [v, 2]}
        else:
            text, new = 'a = None\nb = {}\n', {'a': None, 'b': {}}
        w.config('p', path.replace('.', '/'), head + text)
        m.file = new
        if c.choose(f'upd{i}', [False, True]):
            step(c, w, model, i, path, 'keep_a')
        step(c, w, model, i, path, 'refresh')
        c.eq(attrs_of(pm.get(path), 'ab'), m.cur, 'get sees the configuration', path)
    finish(c, w, model)


HARNESSES = [
    H('seq', h_seq, '3 (thorough 4) operations of 5 (change the file value, persistent and non-persistent updates of two '
      'arguments, refresh) and a refresh; function, class or specific-class item, loaded before or not; values any of '
      'None/int/object', setup=build, share=2),
    H('pairs', h_pairs, 'five steps with a refresh in the middle; values of every kind', setup=build),
    H('section', h_section, 'as seq with 2 (3) operations, under a section that sets one argument',
      setup=lambda c: build(c, section=True)),
    H('other', h_other, 'two items with updates of their own, one of them refreshed', setup=build),
    H('text', h_text, 'the config file is rewritten twice in 4 ways, each followed by a refresh'),
]
ASSUMPTIONS = ['under a section that sets an argument, updates are made after the item is first loaded']
