"""C06: reset and reload return to the files and forget earlier updates."""
from symex.driver import H
from harness.common import attrs_of, KINDS, FEW
from harness.c05 import build, step, finish, ITEMS, ALL


def h_seq(c, state):
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    if c.choose('loaded', [False, True]):
        step(c, w, model, 0, path, 'run')
    for i, ops in enumerate([['keep_a', 'keep_ab', 'drop_b'], ['file_a', 'drop_a', 'refresh', 'keep_a']]):
        step(c, w, model, i + 1, path, c.choose(f'op{i}', ops))
    step(c, w, model, 5, path, c.choose('reset', ['reset', 'reset_section']))
    for i, ops in enumerate([['refresh', 'file_a', 'drop_b', 'get'], ['refresh']]):
        step(c, w, model, i + 6, path, c.choose(f'later{i}', ops))
    finish(c, w, model, c.choose('look', ['run', 'get']) if c.tier != 'quick' else 'run')


def h_free(c, state):
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    for i in range(3 if c.tier == 'quick' else 4):
        step(c, w, model, i, path, c.choose(f'op{i}', ['keep_a', 'drop_a', 'reset', 'refresh', 'run']))
    finish(c, w, model)


def h_section(c, state):
    """under sections with settings of their own"""
    w, model = state
    w.c = c
    path = ITEMS[c.choose('item', list(ITEMS))]
    step(c, w, model, 0, path, c.choose('load', ['run', 'get']))
    for i in range(2):
        step(c, w, model, i + 1, path, c.choose(f'op{i}', ['keep_a', 'keep_ab', 'drop_b', 'file_b']))
    step(c, w, model, 5, path, c.choose('reset', ['reset', 'reset_section']))
    if c.choose('refresh', [False, True]):
        step(c, w, model, 6, path, 'refresh')
    finish(c, w, model)


def h_other(c, state):
    """resetting one item leaves the others, resetting a section resets all and
    only the items below it"""
    w, model = state
    w.c = c
    hist = ['keep_a', 'drop_b', 'keep_ab']
    x, y = c.choose('items', [('s.f', 's.g'), ('sc.grp.two', 'sc.grp.one'), ('t.K', 's.f')])
    if c.choose('loaded', [False, True]):
        step(c, w, model, 0, x, 'run')
        step(c, w, model, 0, y, 'get')
    step(c, w, model, 1, y, c.choose('y', hist))
    step(c, w, model, 2, x, c.choose('x', hist))
    how = c.choose('how', ['reset', 'reset_section', 'outer'])
    if how == 'outer':
        top = x.split('.')[0]
        w.pms['p'].reset(top)
        for p in ALL:
            if p.startswith(top + '.'):
                model[p].reset()
    else:
        step(c, w, model, 3, x, how)
    for p in (x, y):
        if c.choose('refresh ' + p, [False, True]):
            step(c, w, model, 4, p, 'refresh')
    finish(c, w, model)


def h_section_settings(c, state):
    """a section's and the local settings themselves are reset"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    path = ITEMS[c.choose('item', list(ITEMS))]
    top = path.split('.')[0]
    v, u = c.val('sv', FEW), c.val('lv', FEW)
    which = c.choose('which', ['section', 'local', 'both'])
    if which != 'local':
        pm.update(section_path_str=top, b=v)
        if c.choose('reset section', [True, False]):
            pm.reset(top)
        else:
            for p, m in model.items():
                if p.startswith(top + '.'):
                    m.over['b'] = v
    if which != 'section':
        pm.runner.update(a=u)
        if c.choose('reset local', [True, False]):
            pm.runner.reset()
        else:
            for m in model.values():
                m.over['a'] = u
    finish(c, w, model, c.choose('look', ['run', 'get']))


def h_reload(c):
    """a reload forgets everything and reads files and dictionary again"""
    w, model = build(c)
    path = ITEMS[c.choose('item', list(ITEMS))]
    if c.choose('loaded', [False, True]):
        step(c, w, model, 0, path, 'run')
    ops = ['keep_ab', 'drop_a', 'file_a', 'reset', 'local', 'section']
    for i in range(2):
        op = c.choose(f'op{i}', ops)
        if op == 'local':
            w.pms['p'].runner.update(a=w.val(f'local{i}', FEW))
        elif op == 'section':
            if not path.startswith('sc'):
                w.pms['p'].update(section_path_str=path.split('.')[0], b=w.val(f'section{i}', FEW))
        else:
            step(c, w, model, i + 1, path, op)
    step(c, w, model, 7, path, 'reload')
    if c.choose('after', [False, True]):
        step(c, w, model, 8, path, 'refresh')
    finish(c, w, model)


def h_dep(c):
    """a refresh caused by a dependency does not bring earlier updates back"""
    w, model = build(c)
    pm = w.pms['p']
    # s.g's config reads an attribute of sc.grp.one
    w.config('p', 's/g', 'import symvals\nfrom pyfileconf import Selector\n\ns = Selector()\na = s.p.sc.grp.one.a\nb = symvals.s_g_b\n')
    pm.reload()
    x, one = model['s.g'], model['sc.grp.one']
    x.file['a'] = one.file['a']
    if c.choose('run first', [False, True]):
        step(c, w, model, 0, 's.g', 'run')
    v = c.val('v', FEW)
    pm.update(section_path_str='s.g', b=v)
    if c.choose('reset', ['item', 'section']) == 'item':
        pm.reset('s.g')
    else:
        pm.reset('s')
    u = c.val('u', FEW)
    pm.update(section_path_str='sc.grp.one', a=u)
    one.update({'a': u})
    x.reset()
    x.file['a'] = u
    x.refresh()
    finish(c, w, model)


HARNESSES = [
    H('seq', h_seq, 'two updates or changes, a reset of the item or its section, then a refresh or later changes; function, class '
      'or specific-class item', setup=build, share=2),
    H('free', h_free, '3 (thorough 4) operations out of 5', setup=build),
    H('section', h_section, 'as seq, under sections that set an argument', setup=lambda c: build(c, section=True)),
    H('other', h_other, 'two items with a history each; one item, its section or its outer section is reset, then either is '
      'refreshed', setup=build),
    H('settings', h_section_settings, 'a section update and a local update, each reset or not, before first use',
      setup=lambda c: build(c, section=True)),
    H('reload', h_reload, 'two operations of 6 (also updates of the local config or a section), reload, optional refresh'),
    H('dep', h_dep, "a reset, then a change of an item that the reset item's file reads"),
]
