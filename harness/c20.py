"""C20: the item tree mirrors the dictionaries; a path resolves to its own item or fails."""
import itertools

from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, view

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
NAMES = ['f', 'g', 'K', 'x', 'y', 'one', 'sc', 'p', 'defaults', 'nope']
NEAR = ['f', 'ff', 's', 'sc', 'scx', 'xsc', 'one', 'S']

# what a section may hold: source text
FORMS = ['', '[]', '{}', '[f]', '[g, K]', '[K, f]', "{'x': [f]}", "{'f': [f, K], 'y': [f]}", "{'x': {'x': [g]}}", "[f, {'y': [g]}]",
         "{'y': {'x': [K], 'f': [f]}, 'x': []}"]
SPECS = ['', "{'x': ['one']}", "{'sc': ['sc', 'one'], 'one': ['one']}", "{'x': {'one': ['one'], 'x': ['x', 'sc']}, 'y': ['f']}"]


class N:
    """stands for a function or class of um in the dictionary source"""
    def __init__(self, name):
        self.name = name


def tree(src):
    return eval(src, {n: N(n) for n in 'fgK'})


def entries(node, pre=''):
    """[(path, 'section' or the name of the code it runs)] in definition order"""
    out = []
    if isinstance(node, dict):
        for k, sub in node.items():
            out.append((pre + k, 'section'))
            out += entries(sub, pre + k + '.')
    else:
        for item in node:
            if isinstance(item, dict):
                out += entries(item, pre)
            else:
                name = item.name if isinstance(item, N) else item
                out.append((pre + name, 'S:' + name if isinstance(item, str) else name))
    return out


def children(known, path):
    pre = path + '.' if path else ''
    return {p[len(pre):] for p in known if p.startswith(pre) and '.' not in p[len(pre):]}


def project(c, w, name, src, spec, symbolic):
    known = dict(entries(tree(src)))
    if spec:
        known['sc'] = 'section'
        known.update(entries(eval(spec), 'sc.'))
    conf, own = {}, {}
    for path, kind in known.items():
        if kind == 'section':
            continue
        var = f'{name}_{path}'.replace('.', '_')
        own[path] = w.val(var, ('int', 'obj')) if symbolic else w.put(var, f'{name} {path}')
        conf[path.replace('.', '/')] = f'import symvals\n\n' + (f'name = {path.rsplit(".", 1)[1]!r}\n' if kind[:2] == 'S:' else '') \
            + f'a = symvals.{var}\nb = None\n'
    w.project(name, src, conf, {'sc': spec} if spec else None, 'f, g, K')
    w.manager(name, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}] if spec else None)
    return known, own


def attr(obj, path):
    for part in path.split('.'):
        obj = getattr(obj, part)
    return obj


def refused(c, what, fn):
    try:
        got = fn()
    except Exception:
        return
    c.fail('a path that is not in the dictionary is an error', f'{what} gave {got!r}')


def check_items(c, w, pmname, known, own, order):
    pm = w.pms[pmname]
    items = [p for p in known if known[p] != 'section']
    for p in reversed(items) if order else items:
        w.rec.take()
        got = pm.run(p)
        calls = w.rec.take()
        c.check([x[0] for x in calls] == [known[p]], 'a path runs its own item', f'{p}: {calls}')
        c.eq(calls[0][1]['a'], own[p], 'an item has its own config', p)
        c.check(got == ['ret', known[p]], 'a path runs its own item', p)
    for p in items if order else reversed(items):
        for o in (pm.get(p), attr(pm, p)):
            c.eq(attrs_of(o, 'a')['a'], own[p], 'an item has its own config', p)
            kind = known[p]
            if kind in 'fg':
                c.check(o.func.__name__ == kind, 'a path gives its own item', p)
            else:
                c.check(type(o).__name__ == kind[0], 'a path gives its own item', p)
                c.check(kind[0] == 'K' or o.name == kind[2:], 'a path gives its own item', p)


def check_unknown(c, w, pmname, known, depth, names=NAMES):
    pm = w.pms[pmname]
    for n in range(1, depth + 1):
        for parts in itertools.product(names, repeat=n):
            path = '.'.join(parts)
            if path in known:
                continue
            # a prefix that is unknown was asked already: its extensions are asked only at the last level
            if n > 1 and '.'.join(parts[:-1]) not in known and n < depth:
                continue
            if n == depth and '.'.join(parts[:-1]) not in known and parts[-1] not in ('f', 'one'):
                continue
            refused(c, f'get {path}', lambda: pm.get(path))
            refused(c, f'attributes {path}', lambda: attr(pm, path))
            if n < 3:
                refused(c, f'run {path}', lambda: pm.run(path))
                refused(c, f'reset {path}', lambda: pm.reset(path))


METHODS = {'run', 'run_product', 'run_product_gen', 'get', 'update', 'load', 'reload', 'refresh', 'reset', 'name', 'type', 'item'}


def check_dirs(c, w, pmname, known):
    pm = w.pms[pmname]
    c.check(set(dir(pm)) - METHODS == children(known, ''), 'dir names exactly the children', f'{dir(pm)} {known}')
    for p, kind in known.items():
        if kind == 'section':
            got = set(dir(view(c, w, pmname, p))) - METHODS
            c.check(got == children(known, p), 'dir names exactly the children', f'{p}: {got}')


def h_tree(c):
    """one manager, two top-level entries of any form and a specific-class dictionary of any form"""
    w = World(c, UM)
    one = c.choose('f section', FORMS)
    two = c.choose('x section', FORMS if c.tier != 'quick' else FORMS[:1] + FORMS[3:4] + FORMS[-3:])
    spec = c.choose('spec', SPECS if c.tier != 'quick' else SPECS[::2])
    src = '{' + ', '.join(f"'{k}': {v}" for k, v in (('f', one), ('x', two)) if v) + '}'
    known, own = project(c, w, 'p', src, spec, True)
    if c.choose('reload', [False, True]):
        w.pms['p'].reload()
        check_unknown(c, w, 'p', known, 2)
        check_items(c, w, 'p', known, own, True)
    else:
        check_items(c, w, 'p', known, own, False)
        check_dirs(c, w, 'p', known)
        check_unknown(c, w, 'p', known, 2 if c.tier == 'quick' else 3)


def h_deep(c):
    """paths of three and four sections"""
    w = World(c, UM)
    src = c.choose('dict', ["{'x': {'x': {'x': [f, g], 'f': [f]}, 'y': [{'x': [K]}, f]}}", "{'f': {'f': {'f': [f]}}}",
                            "{'p': {'p': [f]}, 'defaults': {'defaults': [g], 'x': [f]}}"])
    known, own = project(c, w, 'p', src, c.choose('spec', SPECS[2:]), True)
    check_items(c, w, 'p', known, own, c.choose('order', [False, True]))
    check_dirs(c, w, 'p', known)
    check_unknown(c, w, 'p', known, 3)


def h_near(c):
    """names that begin or end with one another, or with the name of the specific-class dictionary"""
    w = World(c, UM)
    src = c.choose('dict', ["{'scx': [f], 's': [g], 'xsc': [K]}", "{'scx': {'sc': [f], 's': [f]}, 'S': {'scx': [f]}}",
                            "{'ff': {'f': [f, g]}, 'xsc': {'ff': [f], 'xsc': [K]}}"])
    spec = c.choose('spec', ["{'scx': ['one', 'f'], 's': ['s']}", "{'sc': {'s': ['sc', 'scx']}, 'ff': ['f']}"])
    known, own = project(c, w, 'p', src, spec, True)
    check_items(c, w, 'p', known, own, c.choose('order', [False, True]))
    check_dirs(c, w, 'p', known)
    check_unknown(c, w, 'p', known, 3, NEAR)


def h_two(c):
    """two managers with the same names"""
    w = World(c, UM)
    trees = {}
    for m in 'pq':
        src = c.choose('dict ' + m, ["{'f': [f]}", "{'x': [g, K], 'f': {'x': [f]}}", "{'x': {'f': [f]}, 'q': [f]}"])
        spec = c.choose('spec ' + m, SPECS[:2])
        trees[m] = project(c, w, m, src, spec, True)
    for m in 'pq':
        check_items(c, w, m, *trees[m], False)
    for m in 'pq':
        check_dirs(c, w, m, trees[m][0])
        check_unknown(c, w, m, trees[m][0], 2)


HARNESSES = [
    H('tree', h_tree, 'two top-level sections, one named like a function, each in 11 (quick 11 and 5) forms of lists and nested '
      'dictionaries, and a specific-class dictionary in 4 (2) forms; each known path run, got and reached by attributes, all other '
      'paths of up to 2 (3) names refused', share=3),
    H('deep', h_deep, 'sections nested to depth 3 with repeated names, paths of up to 3 names'),
    H('near', h_near, 'names that begin or end with one another or with the name of the specific-class dictionary, paths of up to 3 '
      'out of 8 such names'),
    H('two', h_two, 'two managers with 3 dictionaries and 2 specific-class dictionaries each'),
]
ASSUMPTIONS = ['names are not attributes of the library\'s own classes (items, get, append, config, ...)',
               'no item shares its name with a section next to it']
