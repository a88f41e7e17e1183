"""C27: the config tree mirrors the config folder."""
import os

from symex.driver import H
from harness.common import World, KINDS, FEW

ORDERS = ['as made', 'sorted', 'reversed', 'folders first']


class Listing:
    """the order in which the folders of the scratch project are listed"""
    def __init__(self, root, order):
        self.root, self.order = root, order

    def arrange(self, names, isdir):
        if self.order == 'as made':
            return names
        names = sorted(names, reverse=self.order == 'reversed')
        if self.order == 'folders first':
            names.sort(key=lambda x: not isdir(x))
        return names

    def __enter__(self):
        self.scandir, self.listdir = os.scandir, os.listdir

        def scandir(path='.'):
            it = self.scandir(path)
            if not str(path).startswith(self.root):
                return it
            with it:
                ents = {e.name: e for e in it}
            return Entries([ents[n] for n in self.arrange(list(ents), lambda n: ents[n].is_dir())])

        def listdir(path='.'):
            names = self.listdir(path)
            return self.arrange(names, lambda n: os.path.isdir(os.path.join(path, n))) if str(path).startswith(self.root) else names
        os.scandir, os.listdir = scandir, listdir

    def __exit__(self, *exc):
        os.scandir, os.listdir = self.scandir, self.listdir


class Entries:
    def __init__(self, ents):
        self.it = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass

    def close(self):
        pass


def is_section(x):
    from pyfileconf.config.models.section import ConfigSection
    return isinstance(x, ConfigSection)


def build(w, folder, tree):
    """tree: {name: variables of a file | text of another file | {tree of a folder}}"""
    os.makedirs(os.path.join(w.root, folder), exist_ok=True)
    for name, x in tree.items():
        rel = f'{folder}/{name}'
        if isinstance(x, dict):
            build(w, rel, x)
        elif isinstance(x, tuple):
            w.write(rel, 'import symvals\nimport os.path\n' + ''.join(f'{k} = symvals.{v}\n' for k, v in x))
        else:
            w.write(rel, x)


def compare(c, w, pm, section, tree, path=(), inherited=(), look=True):
    """the loaded section against the tree of its folder"""
    sp = '.'.join(path)
    own = tree.get('section.py')
    files = [n[:-3] for n, x in tree.items() if n.endswith('.py') and not isinstance(x, dict) and n != 'section.py']
    folders = [n for n, x in tree.items() if isinstance(x, dict) and n[0] not in '._']
    got = [(is_section(x), x.name) for x in section.items]
    want = [(False, n) for n in files] + [(True, n) for n in folders]
    c.check(sorted(got) == sorted(want), 'one config per file and one section per folder', f'{sp or "top"}: {got} instead of {want}')
    c.check((section.config is None) == (own is None), 'section.py is the config of the section', f'{sp or "top"}: {section.config}')
    if own is not None:
        c.check(sorted(section.config) == sorted(k for k, _ in own), 'section.py is the config of the section', f'{sp or "top"}: {sorted(section.config)}')
        for k, v in own:
            c.eq(section.config[k], getattr(w.sv, v), 'section.py is the config of the section', f'{sp}.{k}')
        inherited = inherited + own
    for n in folders:
        for x in section.items:
            if is_section(x) and x.name == n:
                compare(c, w, pm, x, tree[n], path + (n,), inherited, look and n not in files and '.' not in n)
    for n in files:
        if n in folders or '.' in n or not look:
            continue
        conf = pm.get('.'.join(path + (n,)))
        want = dict(tree[n + '.py'] + inherited)
        names = [k for k in conf if not k.startswith('_')]
        c.check(sorted(names) == sorted(want), 'a config holds the variables of its own file', f'{sp}.{n}: {sorted(names)} instead of {sorted(want)}')
        for k, v in want.items():
            c.eq(conf[k], getattr(w.sv, v), 'a config holds the variables of its own file', f'{sp}.{n}.{k}')


def load(c, w, tree, order='as made', pm=None):
    from pyfileconf.config.models.manager import ConfigManager
    if pm is None:
        w.manager('p', load=False)
        build(w, 'p/defaults', tree)
        pm = ConfigManager(os.path.join(w.root, 'p/defaults'), 'p')
    with Listing(w.root, order):
        pm.load()
        compare(c, w, pm, pm.section, tree)
    c.check(pm.section.name == 'defaults', 'the section has the name of the folder', pm.section.name)
    return pm


def values(w, c, n=4):
    for i in range(n):
        w.val(f'v{i}', FEW if i < 2 else ('int',))


F1, F2, S1, S2 = (('a', 'v0'), ('b', 'v1')), (('a', 'v2'),), (('c', 'v3'), ('a', 'v1')), (('d', 'v0'),)
FILES = {'f.py': F1, 'section.py': S1, 'notes.txt': 'a = 1\n', '_g.py': F2, '.h.py': F2}
SUBS = {
    'nothing': {},
    'file': {'f.py': F2},
    'section file': {'section.py': S2},
    'both': {'f.py': F2, 'g.py': F1, 'section.py': S2},
    'folder': {'u': {'f.py': F2, 'section.py': S2}},
    'hidden folder': {'_u': {'f.py': F2}, 'g.py': F1, '.v': {'section.py': S2}},
}


FOLDERS = ['s', 'f', '_s', '.s', '__pycache__', 's.py', 'section', 'class_', 's_t', 's.', 'S', '1', '-s', 'é', 'a b', '...', 's__']


def h_tree(c):
    """files of any kind beside folders of any kind"""
    w = World(c)
    values(w, c)
    tree = {}
    for n in ('f.py', 'section.py', 'notes.txt', '_g.py') if c.tier == 'quick' else FILES:
        if c.flag('has ' + n):
            tree[n] = FILES[n]
    name = c.choose('folder', FOLDERS if c.tier != 'quick' else ['s', 'f', '_s', '.s', 's.py', 'class_'])
    tree[name] = SUBS[c.choose('in it', list(SUBS))]
    load(c, w, tree, c.choose('order', ['sorted', 'reversed']))


def h_folders(c):
    """pairs of folders of any name, in the config folder or within"""
    w = World(c)
    values(w, c)
    one = c.choose('folder', FOLDERS)
    two = c.choose('other', [n for n in ('s', 'class_', '_s') if n != one] if c.tier == 'quick' else [n for n in FOLDERS if n != one])
    inner = {one: SUBS['both'], two: SUBS['file']}
    load(c, w, {'t': inner, 'section.py': S1} if c.flag('within') else inner, 'sorted')


def h_two(c):
    """two folders, and folders within"""
    w = World(c)
    values(w, c)
    tree = {'f.py': F2}
    if c.flag('main section'):
        tree['section.py'] = S1
    for n in ('s', 't'):
        kind = c.choose('in ' + n, list(SUBS) + ['none'])
        if kind != 'none':
            tree[n] = SUBS[kind]
    load(c, w, tree, c.choose('order', ORDERS))


NAMES = ['f.py', 'F.py', 'section.pyc', 'section.txt', 'xsection.py', 'sectionx.py', 'Section.py', 'section.py', 'f.pyc', 'f.PY', 'f.py.bak',
         'f', 'fpy', '__init__.py', '.f.py', 'a b.py', 'é.py', '1.py', 'f.py.py', 'py.py', 'f_py.py', 'class.py', 'name.py', 'items.py', 'config.py', 'get.py']


def h_names(c):
    """files of any name, in the folder or in a folder within"""
    w = World(c)
    values(w, c)
    tree = {'first.py': F2}
    one = c.choose('name', NAMES)
    two = c.choose('other name', [n for n in NAMES if n != one] if c.tier != 'quick' else [n for n in ('f.py', 'section.py', 'f') if n != one])
    inner = {one: F1 if one.endswith('.py') else 'c = 1\n', two: F2 if two.endswith('.py') else 'c = 1\n'}
    if c.flag('within'):
        tree['s'] = inner
        tree['section.py'] = S1
    else:
        tree.update(inner)
    load(c, w, tree, c.choose('order', ['sorted', 'reversed']))


LINES = {
    'plain': ('x = symvals.v0\n', {'x': 'v0'}),
    'annotated': ('x: object = symvals.v0\n', {'x': 'v0'}),
    'declared only': ('x: int\n', {}),
    'two names': ('x = y = symvals.v0\n', {'x': 'v0', 'y': 'v0'}),
    'tuple': ('x, y = symvals.v0, symvals.v1\n', {'x': 'v0', 'y': 'v1'}),
    'again': ('x = symvals.v1\nx = symvals.v0\n', {'x': 'v0'}),
    'from another': ('x = symvals.v0\ny = x\n', {'x': 'v0', 'y': 'v0'}),
    'removed': ('x = symvals.v1\ny = symvals.v0\ndel x\n', {'y': 'v0'}),
    'condition': ('x = 1\nif symvals.flag:\n    x = symvals.v0\n', None),
    'try': ('try:\n    import nowhere\nexcept ImportError:\n    x = symvals.v0\n', {'x': 'v0'}),
    'loop': ('for x in [symvals.v1, symvals.v0]:\n    pass\n', {'x': 'v0'}),
    'imported': ('from symvals import v0 as x\n', {'x': 'v0'}),
    'import module': ('import os.path\nimport json as j\nx = symvals.v0\n', {'x': 'v0'}),
    'dunder': ('__all__ = ["x"]\n__x__ = 1\nx = symvals.v0\n', {'x': 'v0'}),
    'docstring': ('"""x = 1"""\nx = symvals.v0\n', {'x': 'v0'}),
    'walrus': ('(x := symvals.v0)\n', {'x': 'v0'}),
    'with': ('import contextlib\nwith contextlib.nullcontext(symvals.v0) as x:\n    pass\n', {'x': 'v0'}),
    'unusual names': ('é = symvals.v0\nX1 = symvals.v1\n', {'é': 'v0', 'X1': 'v1'}),
    'dict names': ('items = symvals.v0\nname = symvals.v1\nupdate = symvals.v0\n', {'items': 'v0', 'name': 'v1', 'update': 'v0'}),
    'nothing': ('', {}),
    'comment': ('# x = 1\n', {}),
    'only import': ('', {}),
}


def h_variables(c):
    """what the file defines, as an item's or a section's config, once and after a refresh or reload"""
    w = World(c)
    w.val('v0', KINDS), w.val('v1', FEW)
    kind = c.choose('lines', list(LINES))
    text, want = LINES[kind]
    text = 'import symvals\n' + text if kind != 'nothing' else text
    if want is None:
        want = {'x': 'v0'} if w.put('flag', c.flag('flag')) else {'x': 1}
    where = c.choose('where', ['item', 'inner item', 'section', 'main section'])
    rel = {'item': 'f', 'inner item': 's/f', 'section': 's/section', 'main section': 'section'}[where]
    w.write('p/pipeline_dict.py', 'pipeline_dict = {}\n')
    other = 's/g' if where == 'item' else 'g'
    build(w, 'p/defaults', {rel + '.py': text, other + '.py': 'import symvals\nother = symvals.v1\n'})
    pm = w.manager('p')
    then = c.choose('then', ['nothing', 'load', 'reload'])
    if then != 'nothing':
        pm.config.get(other.replace('/', '.'))
        w.put('v0', 'v0 after')
        getattr(pm, then)()
    top = pm.config.section
    conf = {
        'item': lambda: pm.config.get('f'), 'inner item': lambda: pm.config.get('s.f'),
        'section': lambda: top.config_map['s'].config, 'main section': lambda: top.config,
    }[where]()
    names = [k for k in conf if not k.startswith('_')]
    c.check(sorted(names) == sorted(want), 'a config holds the variables of its own file', f'{kind}: {sorted(names)}')
    for k, v in want.items():
        c.eq(conf[k], getattr(w.sv, v) if isinstance(v, str) else v, 'a config holds the variables of its own file', f'{kind}: {k}')
    o = pm.config.get(other.replace('/', '.'))
    inherited = set(want) if where == 'main section' else set()
    c.check(set(o) == {'other'} | inherited, 'a config holds the variables of its own file', f'other: {sorted(o)}')
    c.eq(o['other'], w.sv.v1, 'a config holds the variables of its own file', 'other')


def h_deep(c):
    """the same names at every depth"""
    w = World(c)
    values(w, c)
    depth = c.choose('depth', [1, 2, 3, 4])
    tree = {}
    for i in reversed(range(depth + 1)):
        here = {'f.py': (('a', f'v{i % 4}'), (f'only{i}', 'v0'))}
        if i != depth:
            here['s'] = tree
        if c.flag(f'section{i}'):
            here['section.py'] = ((f'by{i}', f'v{i % 4}'), ('shared', f'v{i % 4}'))
        tree = here
    load(c, w, tree, c.choose('order', ORDERS))


def h_change(c):
    """the folder changes, and is loaded again"""
    w = World(c)
    values(w, c)
    tree = {'f.py': F1, 'section.py': S1, 's': {'f.py': F2, 'section.py': S2}, 't': {'u': {'f.py': F1}}}
    manager = c.choose('manager', ['project', 'config'])
    if manager == 'project':
        w.write('p/pipeline_dict.py', 'pipeline_dict = {}\n')
        build(w, 'p/defaults', tree)
        pm = w.manager('p')
        compare(c, w, pm.config, pm.config.section, tree)
    else:
        pm = load(c, w, tree)
    new = {k: dict(v) if isinstance(v, dict) else v for k, v in tree.items()}
    new['t'] = {'u': dict(tree['t']['u'])}
    root = os.path.join(w.root, 'p', 'defaults')
    changes = {
        'remove f': (None, 'f.py'), 'remove section': (None, 'section.py'), 'remove s.f': ('s', 'f.py'), 'remove s.section': ('s', 'section.py'),
        'add g': (None, 'g.py'), 'add s.g': ('s', 'g.py'), 'add t.section': ('t', 'section.py'), 'f changes': (None, 'f.py'), 's.section changes': ('s', 'section.py'),
        'add folder': (None, 'n'), 'add t.n': ('t', 'n'), 'nothing': None,
    }
    for i in range(2):
        what = c.choose(f'change{i}', list(changes))
        if changes[what] is None:
            continue
        folder, name = changes[what]
        here = new[folder] if folder else new
        path = os.path.join(root, folder or '', name)
        if what.startswith('remove'):
            c.assume(name in here)
            os.unlink(path)
            del here[name]
        else:
            here[name] = {'f.py': F2, 'section.py': S1} if name == 'n' else (('e', 'v2'), ('c', 'v0'))
            build(w, 'p/defaults' + (f'/{folder}' if folder else ''), {name: here[name]})
    if manager == 'project':
        pm.reload()
        new.setdefault('section.py', ())    # scaffolded
        compare(c, w, pm.config, pm.config.section, new)
    else:
        load(c, w, new, 'sorted', pm)


def h_missing(c):
    """no such folder"""
    w = World(c)
    from pyfileconf.config.models.section import ConfigSection
    folder = c.choose('folder', ['none', 'a/b', 'with.dot', 'none.py', 'empty', 'only ignored'])
    if folder == 'empty':
        os.makedirs(os.path.join(w.root, 'empty'))
    elif folder == 'only ignored':
        build(w, folder, {'_a': {'f.py': F1}, '.b': {}, 'f.txt': 'a = 1\n'})
    before = w.files()
    path = os.path.join(w.root, folder) + c.choose('end', ['', os.sep])
    s = ConfigSection.from_files(path)
    c.check(is_section(s) and list(s.items) == [] and s.config is None, 'a missing folder is an empty section', folder)
    c.check(s.name == os.path.basename(folder), 'the section has the name of the folder', f'{s.name}')
    c.check(w.files() == before and os.path.exists(path) == (folder in ('empty', 'only ignored')), 'loading writes nothing', folder)


HARNESSES = [
    H('tree', h_tree, f'any of the files {list(FILES)} beside any of 6 folder names with {len(SUBS)} contents, 2 listing orders', share=2),
    H('folders', h_folders, f'{len(FOLDERS)} folder names beside 3 others (thorough: all pairs), in the config folder or within'),
    H('two', h_two, 'two folders of 7 contents each, with and without a main section.py, 4 listing orders'),
    H('names', h_names, f'pairs of {len(NAMES)} file names, in the config folder or within, 2 listing orders'),
    H('variables', h_variables, f'{len(LINES)} forms of definitions with arbitrary values, for 4 places, loaded once or again'),
    H('deep', h_deep, 'depth 1..4 with any subset of section.py files, 4 listing orders'),
    H('change', h_change, 'every pair of 12 changes of the folder before another load or a reload'),
    H('missing', h_missing, '6 folders which are missing or hold nothing'),
]
ASSUMPTIONS = [
    'variables starting with one underscore may be part of a config or not; modules and names starting with two are not variables',
    'listing orders are imposed on os.scandir and os.listdir (os.walk, glob and pathlib use them)',
    'a file and a folder of the same name are both in the tree; which of them is found by that path is not specified',
    'folder names are shorter than 5 levels',
]
