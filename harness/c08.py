"""C08: dependents of a changed configuration are refreshed, transitively."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, FEW

UM = fn_src('f') + class_src('A') + class_src('B') + class_src('C') + class_src('D') + class_src('S', key='name')

# node -> (manager, path)
NODES = {'A': ('p', 't.A'), 'B': ('p', 't.B'), 'C': ('p', 'u.C'), 'D': ('p', 'u.D'), 'one': ('p', 'sc.grp.one'),
         'two': ('p', 'sc.grp.two'), 'f': ('p', 's.f'), 'q': ('q', 't.A'), 'qone': ('q', 'sc.grp.one'), 'qf': ('q', 's.f')}

# node -> {argument: node it reads that argument from}
SHAPES = {
    'chain': {'one': {'a': 'A'}, 'B': {'a': 'one'}, 'f': {'a': 'B'}},
    'diamond': {'B': {'a': 'A'}, 'C': {'a': 'A'}, 'D': {'a': 'B', 'b': 'C'}, 'f': {'b': 'D'}},
    'uneven': {'B': {'a': 'A'}, 'C': {'a': 'B'}, 'D': {'a': 'C', 'b': 'A'}, 'f': {'b': 'A', 'a': 'D'}},
    'fan': {'one': {'a': 'A'}, 'B': {'b': 'A'}, 'f': {'a': 'A'}},
    'in': {'f': {'a': 'A', 'b': 'one'}, 'B': {'a': 'one', 'b': 'A'}, 'C': {'a': 'B'}},
    'cross': {'q': {'a': 'A'}, 'B': {'a': 'q'}, 'qf': {'a': 'B', 'b': 'A'}},
    'cross2': {'qone': {'b': 'one'}, 'two': {'b': 'qone'}, 'qf': {'b': 'two'}, 'f': {'a': 'one'}},
}


def ref(node, arg):
    m, p = NODES[node]
    return f's.{m}.{p}.{arg}'


def build(c, shape, kinds=FEW):
    w = World(c, UM)
    reads = SHAPES[shape]
    used = set(reads) | {n for d in reads.values() for n in d.values()}
    conf = {'p': {}, 'q': {}}
    consts = {}
    for n, (m, path) in NODES.items():
        name = f"name = '{path.rsplit('.', 1)[1]}'\n" if path.startswith('sc.') else ''
        src = 'import symvals\nfrom pyfileconf import Selector\n\ns = Selector()\n' + name
        for arg in 'ab':
            k = f'{n}_{arg}'
            if arg in reads.get(n, {}):
                src += f'{arg} = {ref(reads[n][arg], arg)}\n'
            else:
                src += f'{arg} = symvals.{k}\n'
                consts[n, arg] = w.val(k, kinds) if n in used and n not in reads else w.put(k, f'file {k}')
        conf[m][path.replace('.', '/')] = src
    d = "{'s': [f], 't': [A, B], 'u': [C, D]}"
    for m in 'pq':
        w.project(m, d, conf[m], {'sc': "{'grp': ['one', 'two']}"}, 'f, A, B, C, D')
    for m in 'pq':
        w.manager(m, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w, reads, consts, [n for n in NODES if n in used]


class Model:
    def __init__(self, reads, consts, nodes):
        self.reads, self.consts, self.nodes = reads, consts, nodes
        self.kept = {}

    def value(self, n, arg):
        if (n, arg) in self.kept:
            return self.kept[n, arg]
        if arg in self.reads.get(n, {}):
            return self.value(self.reads[n][arg], arg)
        return self.consts[n, arg]

    def all(self, n):
        return {x: self.value(n, x) for x in 'ab'}


def operate(c, w, model, i, n, op):
    m, path = NODES[n]
    pm = w.pms[m]
    if op == 'a' or op == 'b':
        v = c.val(f'v{i}', FEW)
        pm.update(section_path_str=path, **{op: v})
        model.kept[n, op] = v
    elif op == 'ab':
        v, u = c.val(f'v{i}', FEW), c.val(f'u{i}', FEW)
        pm.update({'a': v, 'b': u}, section_path_str=path)
        model.kept[n, 'a'], model.kept[n, 'b'] = v, u
    elif op == 'reset':
        pm.reset(path)
        for x in 'ab':
            model.kept.pop((n, x), None)
    elif op == 'refresh':
        pm.refresh(path)


def check_all(c, w, model, first='run'):
    for n in model.nodes:
        m, path = NODES[n]
        if first == 'get':
            c.eq(attrs_of(w.pms[m].get(path), 'ab'), model.all(n), 'dependents follow what they depend on', n)
        c.eq(w.received(w.pms[m], path), model.all(n), 'runs of dependents follow what they depend on', n)
        c.eq(attrs_of(w.pms[m].get(path), 'ab'), model.all(n), 'dependents follow what they depend on', n)


def h_shape(c, state):
    w, reads, consts, nodes = state
    w.c = c
    model = Model(reads, consts, nodes)
    # which dependents are in use before the change
    start = c.choose('loaded', ['all', 'reverse', 'last', 'none'])
    order = {'all': nodes, 'reverse': nodes[::-1], 'last': nodes[-1:], 'none': []}[start]
    if 'f' in reads and start == 'last':
        order = ['f']
    for n in order:
        m, path = NODES[n]
        w.pms[m].get(path)
    roots = [n for n in nodes if n not in reads]
    inner = [n for n in nodes if n in reads and any(n in d.values() for d in reads.values())]
    leaf = [n for n in nodes if n in reads and n not in inner]
    steps = [(n, 'ab') for n in roots] + [(n, 'a') for n in inner]
    if c.tier != 'quick':
        steps += [(n, 'a') for n in roots] + [(n, 'b') for n in inner + leaf]
    n, op = c.choose('first', steps)
    operate(c, w, model, 1, n, op)
    if c.tier != 'quick':
        check_all(c, w, model, 'get')
    later = [(n, 'reset') for n in roots + inner] + [(n, 'b') for n in roots]
    if c.tier != 'quick':
        later += [(n, o) for n in inner for o in 'ab'] + [(n, 'refresh') for n in nodes]
    n, op = c.choose('second', later)
    operate(c, w, model, 2, n, op)
    check_all(c, w, model)


def h_mixed(c, state):
    """dependents with updates of their own, other items unaffected"""
    w, reads, consts, nodes = state
    w.c = c
    model = Model(reads, consts, nodes)
    for n in nodes:
        m, path = NODES[n]
        w.pms[m].get(path)
    deps = [n for n in nodes if n in reads]
    root = [n for n in nodes if n not in reads][0]
    n = c.choose('own', deps)
    operate(c, w, model, 1, n, c.choose('which', ['a', 'b']))
    m, path = NODES['two' if 'two' not in nodes else 'C']
    v = c.val('other', FEW)
    w.pms[m].update(section_path_str=path, a=v, pyfileconf_persist=False)
    operate(c, w, model, 2, root, 'ab')
    c.eq(attrs_of(w.pms[m].get(path), 'a'), {'a': v}, 'an item that depends on nothing keeps its values', path)
    check_all(c, w, model, 'get')


def h_batch(c, state):
    """several items of the graph changed in one batch"""
    w, reads, consts, nodes = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    model = Model(reads, consts, nodes)
    for n in nodes if c.choose('loaded', ['all', 'reverse']) == 'all' else nodes[::-1]:
        m, path = NODES[n]
        w.pms[m].get(path)
    roots = [n for n in nodes if n not in reads]
    x, y = c.choose('x', roots), c.choose('y', [n for n in nodes if n in reads])
    v, u = c.val('v', FEW), c.val('u', FEW)
    model.kept[x, 'a'] = v
    model.kept[y, 'b'] = u
    batch = [dict(section_path_str='.'.join(NODES[x]), a=v), dict(section_path_str='.'.join(NODES[y]), b=u)]
    if c.choose('order', [0, 1]):
        batch.reverse()
    BatchUpdater().update(batch)
    check_all(c, w, model, 'get')


def setup_cycle(c):
    w = World(c, UM)
    w.sv.sel = None
    conf = {}
    for p in ['t/A', 't/B', 'u/C', 'u/D', 's/f']:
        k = p.replace('/', '_')
        conf[p] = f'import symvals\n\na = symvals.{k}_a\nb = symvals.{k}_b\n'
        for x in 'ab':
            w.put(f'{k}_{x}', f'file {k} {x}')
    w.val('t_A_a', FEW)
    w.project('p', "{'s': [f], 't': [A, B], 'u': [C, D]}", conf, None, 'f, A, B, C, D')
    w.manager('p')
    return w


def h_cycle(c, w):
    """items that use each other while running, in cycles of any shape"""
    w.c = c
    from pyfileconf import Selector
    pm = w.pms['p']
    names = ['A', 'B', 'C', 'f']
    path = {'A': 't.A', 'B': 't.B', 'C': 'u.C', 'f': 's.f'}
    graph = c.choose('graph', [{'A': 'B', 'B': 'A'}, {'A': 'BC', 'B': 'A', 'C': 'B'}, {'A': 'B', 'B': 'C', 'C': 'A', 'f': 'ABC'},
                               {'A': 'BC', 'B': 'AC', 'C': 'AB'}])
    exp = {n: {x: getattr(w.sv, path[n].replace('.', '_') + '_' + x) for x in 'ab'} for n in names}
    how = c.choose('use', ['attr', 'get', 'view'])

    def use(n):
        def handler(a=None, b=None):
            s = Selector()
            for o in graph.get(n, ''):
                if how == 'attr':
                    getattr(getattr(s.p, path[o].split('.')[0]), o).a
                elif how == 'get':
                    pm.get(path[o])
                else:
                    getattr(getattr(s.p, path[o].split('.')[0]), o).item
            return n
        return handler
    for n in names:
        w.rec.on[n] = use(n)
    for n in names:
        pm.run(path[n])
    for i in range(2):
        n = c.choose(f'n{i}', ['A', 'B', 'f'])
        x = c.choose(f'arg{i}', 'ab') if c.tier != 'quick' else 'ab'[i]
        if c.choose(f'op{i}', ['update', 'reset']) == 'update':
            v = c.val(f'v{i}', FEW)
            pm.update(section_path_str=path[n], **{x: v})
            exp[n][x] = v
        else:
            pm.reset(path[n])
            exp[n] = {y: getattr(w.sv, path[n].replace('.', '_') + '_' + y) for y in 'ab'}
    for n in names:
        c.eq(w.received(pm, path[n]), exp[n], 'items in a cycle keep exactly their own values', n)


HARNESSES = [
    H('shape ' + s, h_shape, f'dependency graph {SHAPES[s]}; dependents in use in 4 ways; two changes (update or reset) of items '
      'that others depend on; any order of visiting dependents; values None/int/object', setup=(lambda s: lambda c: build(c, s))(s),
      set_perm=True) for s in SHAPES
] + [
    H('mixed ' + s, h_mixed, f'graph {SHAPES[s]}: a dependent with an update of its own, then its source changes; any order of '
      'visiting dependents', setup=(lambda s: lambda c: build(c, s))(s), set_perm=True) for s in ('diamond', 'fan', 'cross')
] + [
    H('batch ' + s, h_batch, f'graph {SHAPES[s]}: a source and a dependent changed in one batch, either order', set_perm=True,
      setup=(lambda s: lambda c: build(c, s))(s)) for s in ('uneven', 'cross2')
] + [
    H('cycle', h_cycle, '4 cyclic graphs of items that use each other while running (by attribute, get or view); 2 updates or '
      'resets of any item; any order of visiting dependents', setup=setup_cycle, set_perm=True),
]
ASSUMPTIONS = ['config files read attributes of classes and specific-class items', 'no manager is reloaded while items of another '
               'one depend on its items', 'updates of dependents are persistent']
