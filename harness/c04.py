"""C04: item file < project < outer section < inner section < local config."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, KINDS, FEW

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
# item -> its enclosing sections, outermost first ('' is the project-level section)
ITEMS = {'s.t.f': ['', 's', 's.t'], 's.t.K': ['', 's', 's.t'], 'sc.grp.one': ['', 'sc', 'sc.grp'], 'u.g': ['', 'u']}


def level_file(level):
    return (level.replace('.', '/') + '/' if level else '') + 'section'


def build(c, sections, load=True):
    """sections: {level: {arg: value name or None}}"""
    w = World(c, UM)
    conf, base = {}, {}
    for path in list(ITEMS):
        k = path.replace('.', '_')
        conf[path.replace('.', '/')] = {'a': f'symvals.{k}_a', 'b': f'symvals.{k}_b'}
        base[path] = {x: w.put(f'{k}_{x}', f'own {k} {x}') for x in 'ab'}
    conf['sc/grp/one']['name'] = "'one'"
    for level, d in sections.items():
        conf[level_file(level)] = {x: f'symvals.L{level.replace(".", "_")}_{x}' for x in d}
    w.project('p', "{'s': {'t': [f, K]}, 'u': [g]}", conf, {'sc': "{'grp': ['one']}"}, 'f, g, K')
    return w, base


def start(c, w):
    return w.manager('p', load=True, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])


def expect(base, path, sections, local):
    exp = dict(base[path])
    for level in ITEMS[path]:
        exp.update({k: v for k, v in sections.get(level, {}).items() if k in exp})
    exp.update({k: v for k, v in local.items() if k in exp})
    return exp


def check_items(c, w, pm, base, sections, local, paths, first):
    for path in paths:
        exp = expect(base, path, sections, local)
        if first == 'get':
            c.eq(attrs_of(pm.get(path), 'ab'), exp, 'get gives the inherited values', path)
        c.eq(w.received(pm, path), exp, 'run receives exactly the inherited values', path)
        c.eq(attrs_of(pm.get(path), 'ab'), exp, 'get gives the inherited values', path)


def h_levels(c):
    """every subset of levels sets `a`, every subset sets `b` in the section files"""
    path = c.choose('item', ['s.t.f', 's.t.K', 'sc.grp.one'])
    levels = ITEMS[path]
    sections, vals = {}, {}
    for lv in levels + ['u']:
        args = c.choose('sets_' + lv, [(), ('a',), ('a', 'b', 'zz')] if lv != 'u' else [(), ('a', 'b')])
        if args:
            sections[lv] = {x: None for x in args}
    w, base = build(c, sections)
    for lv, d in sections.items():
        for x in d:
            d[x] = w.val(f'L{lv.replace(".", "_")}_{x}', FEW)
    pm = start(c, w)
    local = {}
    how = c.choose('local', ['none', 'a', 'ab_zz'])
    if how != 'none':
        local = {x: c.val('loc_' + x, FEW) for x in ('a',) if how == 'a'} if how == 'a' else \
            {x: c.val('loc_' + x, FEW) for x in ('a', 'b', 'zz')}
        pm.update(dict(local))
    check_items(c, w, pm, base, sections, local, [path], c.choose('first', ['get', 'run']))


def h_updates(c):
    """sections set through update before the item is loaded, over or without section files"""
    path = c.choose('item', ['s.t.f', 's.t.K', 'sc.grp.one', 'u.g'])
    levels = [lv for lv in ITEMS[path] if lv]
    sections = {'': {}, levels[0]: {}}
    for lv in levels[1:]:
        sections[lv] = {}
    w, base = build(c, {lv: {'b': None} for lv in sections})
    for lv in sections:
        sections[lv]['b'] = w.val(f'L{lv.replace(".", "_")}_b', FEW)
    pm = start(c, w)
    local = {}
    for i in range(2 if c.tier == 'quick' else 3):
        lv = c.choose(f'level{i}', levels + ['local', 'own'])
        arg = c.choose(f'arg{i}', ['a', 'b', 'zz'])
        v = c.val(f'v{i}', FEW)
        if lv == 'local':
            pm.update(**{arg: v})
            local[arg] = v
        elif lv == 'own':
            pm.update({arg: v}, section_path_str=path)
            if arg in base[path]:
                base[path][arg] = v
        else:
            pm.update({arg: v}, section_path_str=lv)
            sections[lv][arg] = v
    check_items(c, w, pm, base, sections, local, [path], c.choose('first', ['get', 'run']))


def h_all(c):
    """one level sets one argument: exactly the items below it see it"""
    lv = c.choose('level', ['', 's', 's.t', 'u', 'sc', 'sc.grp', 'local'])
    args = c.choose('args', [('a',), ('b',), ('zz',), ('name',), ('a', 'b')])
    via = c.choose('via', ['file', 'update'])
    sections = {lv: {x: None for x in args}} if lv != 'local' else {}
    present = sections if via == 'file' or lv == '' else {lv: {}} if lv != 'local' else {}
    w, base = build(c, present)
    for l2, d in sections.items():
        for x in d:
            d[x] = w.val(f'L{l2.replace(".", "_")}_{x}', KINDS)
    pm = start(c, w)
    local = {}
    if lv == 'local':
        local = {x: c.val('loc_' + x, KINDS) for x in args}
        pm.update(dict(local))
    elif via == 'update' and lv != '':
        pm.update(dict(sections[lv]), section_path_str=lv)
    if 'name' in args:
        # `name` is an argument of the specific class only
        for p in ('s.t.f', 's.t.K', 'u.g'):
            check_items(c, w, pm, base, sections, local, [p], 'run')
        return
    order = list(ITEMS) if c.choose('order', [0, 1]) == 0 else list(ITEMS)[::-1]
    check_items(c, w, pm, base, sections, local, order, c.choose('first', ['get', 'run']))


HARNESSES = [
    H('levels', h_levels, 'section files of the project and up to two enclosing sections and a foreign section, each setting '
      'nothing, one argument, or both and a foreign key; local config setting 0, 1 or 3 keys; function, class or specific-class '
      'item', share=2),
    H('updates', h_updates, '2 (thorough 3) updates before first use, each of any enclosing section, the local config or the item, of any of two '
      'arguments or a foreign key, over section files that set one argument'),
    H('all_items', h_all, 'one level (project, 5 sections, local) sets 1..2 keys by file or update; every item of the project checked'),
]
ASSUMPTIONS = ['the item is first loaded (by get or run) after the last setting is made']
