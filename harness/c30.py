"""C30: the extra imports and assignments of a class dictionary are in each of its config files, once."""
import ast
import os

from symex.driver import H
from harness.common import World, class_src, fn_src, FEW

UM = class_src('S', key='name') + class_src('T', key='name') + fn_src('f')
IMPORTS = {'absent': None, 'empty': [], 'module': ['import symvals'], 'alias': ['import symvals as values'],
           'objects': ['import symvals', 'from symvals import x0 as first, x1'],
           'selector': ['import symvals', 'from pyfileconf import Selector'],
           'unrelated': ['import os.path', 'import symvals', 'import collections as c, json']}
ASSIGNS = {'absent': None, 'empty': [], 'one': ['extra = symvals.x0'], 'annotated': ['extra: object = symvals.x0', 'more = [extra, 5]'],
           'alias': ['extra = values.x0'], 'objects': ['extra = first', 'more = [x1]'], 'selector': ['s = Selector()', 'extra = symvals.x0'],
           'lines': ['extra = [\n    symvals.x0,  # first\n    5\n]'], 'unrelated': ['more = c.OrderedDict()', 'extra = json.dumps([1])'],
           'comment': ['extra = symvals.x0  # note', "more = 'a = 1'"]}
PAIRS = [('absent', 'absent'), ('absent', 'empty'), ('empty', 'empty'), ('empty', 'absent'), ('module', 'empty'), ('module', 'one'), ('module', 'annotated'),
         ('module', 'lines'), ('module', 'comment'), ('alias', 'alias'), ('objects', 'objects'), ('selector', 'selector'), ('unrelated', 'unrelated'),
         ('module', 'absent')]


def expected_names(imports, assigns):
    """names a file must define besides the arguments (evaluated by Python)"""
    imp = ['from pyfileconf import Selector'] if imports is None else imports
    asg = ['s = Selector()'] if assigns is None else assigns
    if assigns is None and not any('Selector' in i for i in imp):
        return None
    return run('\n'.join(imp + asg))


def run(text):
    ns = {'__name__': 'conf'}
    exec(compile(text, 'conf', 'exec', dont_inherit=True), ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}


def comparable(v):
    import types
    return not isinstance(v, (type, types.ModuleType, types.FunctionType)) and type(v).__module__[:10] != 'pyfileconf'


def statements(text):
    return [ast.dump(s) for s in ast.parse(text).body]


def read(w, path):
    return w.read('p/defaults/' + path.replace('.', '/') + '.py')


def spec(w, klass, name, imports, assigns):
    d = {'class': klass, 'name': name}
    if imports is not None:
        d['always_import_strs'] = list(imports)
    if assigns is not None:
        d['always_assign_strs'] = list(assigns)
    return d


def check_new_file(c, w, path, imports, assigns, want, what):
    """a file which the library wrote from nothing"""
    text = read(w, path)
    what = f'{what} {path}: {text!r}'
    got = run(text)
    for k, v in want.items():
        c.check(k in got, 'every extra name is defined in the file', f'{k} {what}')
        if comparable(v):
            c.eq(got[k], v, 'extra assignments evaluate to their value', f'{k} {what}')
    extra = set(got) - set(want) - {'name', 'a', 'b'}
    c.check(not extra, 'nothing else is in the file', f'{extra} {what}')
    c.eq({k: got[k] for k in ('name', 'a', 'b')}, {'name': path.rsplit('.', 1)[1], 'a': None, 'b': None},
         'the arguments are in the file with their defaults', what)
    have = statements(text)
    imp = ['from pyfileconf import Selector'] if imports is None else imports
    asg = ['s = Selector()'] if assigns is None else assigns
    for s in imp + asg:
        n = have.count(statements(s)[0])
        c.check(n == 1, 'every extra import and assignment is in the file once', f'{s}: {n} {what}')


def setup_values(c):
    w = World(c, UM)
    w.val('x0', FEW)
    w.val('x1', FEW)
    return w


def h_new(c):
    """files written from nothing, for two class dictionaries and the main dictionary; then again, reload and create"""
    w = setup_values(c)
    p1, p2 = PAIRS[c.choose('first', list(range(len(PAIRS))))], PAIRS[c.choose('second', [0, 2, 6])]
    ext = {'sc': (IMPORTS[p1[0]], ASSIGNS[p1[1]]), 'sd': (IMPORTS[p2[0]], ASSIGNS[p2[1]])}
    want = {k: expected_names(*v) for k, v in ext.items()}
    if want['sc'] is None:
        return          # the default assignments need the default imports
    w.project('p', "{'s': [f]}", None, {'sc': "{'x': ['one', 'two'], 'y': ['one']}", 'sd': "{'x': ['one']}"}, 'f')
    same_class = c.choose('same class', [False, True])
    specs = [spec(w, w.um.S, 'sc', *ext['sc']), spec(w, w.um.S if same_class else w.um.T, 'sd', *ext['sd'])]
    if c.choose('order', [False, True]):
        specs.reverse()
    pm = w.manager('p', specific_class_config_dicts=specs)
    paths = ['sc.x.one', 'sc.x.two', 'sc.y.one', 'sd.x.one']
    for p in paths:
        check_new_file(c, w, p, *ext[p[:2]], want[p[:2]], 'after load')
    text = read(w, 's.f')
    c.check('extra' not in run(text) and 'symvals' not in text, 'the files of other dictionaries do not get them', text)
    before = w.files('p/defaults')
    then = c.choose('then', ['load', 'reload', 'create', 'create new section'])
    if then == 'load':
        pm = w.manager('p', specific_class_config_dicts=[dict(s) for s in specs])
    elif then == 'reload':
        pm.reload()
    else:
        new = 'sc.x.new' if then == 'create' else 'sc.z.new'
        pm.create(new)
        paths.append(new)
        check_new_file(c, w, new, *ext['sc'], want['sc'], 'after create')
    after = w.files('p/defaults')
    c.check(all(after[k] == v for k, v in before.items()), 'files which have them already stay as they are', then)
    for p in paths:
        name = p.rsplit('.', 1)[1]
        w.rec.take()
        pm.run(p)
        calls = w.rec.take()
        c.check(len(calls) == 1, 'the item runs', lambda: str(calls))
        c.eq(calls[0][1], {'a': None, 'b': None}, 'only arguments reach the object', p)
        c.check(not hasattr(pm.get(p), 'extra') and pm.get(p).name == name, 'only arguments reach the object', p)


EXISTING = {'nothing': '', 'arguments': 'import symvals\n\nname = "one"\na = symvals.x1\nb = 2\n',
            'own extra': 'import symvals\n\nname = "one"\nextra = symvals.x1\na = extra\nb = 2\n',
            'own more': 'import symvals\nmore = [symvals.x1]\nname = "one"\na = more\n',
            'own import': 'from symvals import x1 as extra\nname = "one"\na = extra\n',
            'other alias': 'import symvals as sv\n\nname = "one"\na = sv.x1\n',
            'both': 'import symvals, os\nextra = 1\nname = "one"\na = symvals.x0\nextra = symvals.x1\n',
            'function': 'import symvals\n\ndef extra():\n    return symvals.x1\n\n\nname = "one"\na = extra()\n',
            'falsy': 'name = "one"\na = None\nb = 0\nextra = None\nmore = []\n',
            'same': 'import symvals\n\nname = "one"\na = symvals.x1\nextra = symvals.x0\n'}


def h_existing(c):
    """files of the user: what is there stays, what is missing is added"""
    w = setup_values(c)
    pair = PAIRS[c.choose('extras', list(range(len(PAIRS))))]
    imports, assigns = IMPORTS[pair[0]], ASSIGNS[pair[1]]
    want = expected_names(imports, assigns)
    if want is None:
        return
    kind = c.choose('existing', list(EXISTING))
    text = EXISTING[kind]
    w.project('p', '{}', {'sc/x/one': text}, {'sc': "{'x': ['one']}"})
    pm = w.manager('p', specific_class_config_dicts=[spec(w, w.um.S, 'sc', imports, assigns)])
    old, new_text = run(text), read(w, 'sc.x.one')
    what = f'{pair} {kind}: {new_text!r}'
    new = run(new_text)
    for k, v in old.items():
        if comparable(v):
            c.eq(new[k], v, 'what the file defined keeps its value', f'{k} {what}')
        else:
            c.check(k in new, 'what the file defined stays', f'{k} {what}')
    for k, v in want.items():
        c.check(k in new, 'every extra name is defined in the file', f'{k} {what}')
        if k not in old and comparable(v) and not (k == 'more' and 'extra' in old):
            c.eq(new[k], v, 'extra assignments evaluate to their value', f'{k} {what}')
    have = statements(new_text)
    for s in (imports or []):
        c.check(have.count(statements(s)[0]) <= 1, 'every extra import and assignment is in the file once', f'{s} {what}')
    for s in (assigns or []):
        name = s.split('=')[0].split(':')[0].strip()
        n = sum(1 for x in ast.parse(new_text).body if isinstance(x, (ast.Assign, ast.AnnAssign))
                and getattr(x.targets[0] if isinstance(x, ast.Assign) else x.target, 'id', None) == name)
        had = sum(1 for x in ast.parse(text).body if isinstance(x, (ast.Assign, ast.AnnAssign))
                  and getattr(x.targets[0] if isinstance(x, ast.Assign) else x.target, 'id', None) == name)
        c.check(n == (had if name in old else 1), 'every extra import and assignment is in the file once', f'{s} {what}')
    w.rec.take()
    pm.run('sc.x.one')
    got = w.rec.take()[0][1]
    c.eq(got, {x: new[x] for x in 'ab'}, 'the object has the arguments of its file', what)
    c.eq(got['a'], old.get('a'), 'the object has the arguments of its file', what)
    # again: nothing is added; and a user's change of an extra stays, a removed one comes back
    pm = w.manager('p', specific_class_config_dicts=[spec(w, w.um.S, 'sc', imports, assigns)])
    c.check(read(w, 'sc.x.one') == new_text, 'files which have them already stay as they are', f'{what} {read(w, "sc.x.one")!r}')


def h_edit(c):
    """extras the user changes or removes after the file was written"""
    w = setup_values(c)
    pair = c.choose('extras', ['one', 'annotated', 'comment'])
    imports, assigns = IMPORTS['module'], ASSIGNS[pair]
    w.project('p', '{}', None, {'sc': "{'x': ['one', 'two']}"})
    s = spec(w, w.um.S, 'sc', imports, assigns)
    pm = w.manager('p', specific_class_config_dicts=[dict(s)])
    two, lines = read(w, 'sc.x.two'), read(w, 'sc.x.one').split('\n')
    at = [i for i, x in enumerate(lines) if x.startswith('extra')][0]
    edit = c.choose('edit', ['change', 'remove', 'use', 'change import'])
    if edit == 'change':
        lines[at] = 'extra = symvals.x1'
    elif edit == 'remove':
        del lines[at]
        lines = [x for x in lines if not x.startswith('more')]
    elif edit == 'use':
        lines.append('a = extra\n')
    else:
        lines = [x.replace('import symvals', 'import symvals as sv').replace('symvals.x0', 'sv.x1') for x in lines]
    w.write('p/defaults/sc/x/one.py', '\n'.join(lines))
    if c.choose('again', ['load', 'reload']) == 'load':
        pm = w.manager('p', specific_class_config_dicts=[dict(s)])
    else:
        pm.reload()
    text = read(w, 'sc.x.one')
    got = run(text)
    x0, x1 = w.sv.x0, w.sv.x1
    c.eq(got['extra'], x0 if edit in ('remove', 'use') else x1, 'a changed extra stays and a removed one comes back', f'{edit} {text!r}')
    c.check('symvals' in got, 'every extra name is defined in the file', text)
    if pair == 'annotated':
        c.eq(got['more'], [got['extra'], 5], 'a changed extra stays and a removed one comes back', f'{edit} {text!r}')
    w.rec.take()
    pm.run('sc.x.one')
    c.eq(w.rec.take()[0][1], {'a': x0 if edit == 'use' else None, 'b': None}, 'the object has the arguments of its file', text)
    c.check(read(w, 'sc.x.two') == two, 'files which have them already stay as they are', read(w, 'sc.x.two'))


HARNESSES = [
    H('new', h_new, 'two class dictionaries (same class or not, in either order) with 14 × 3 forms of extra imports and assignments and a main dictionary; '
      'load, then load again, reload or create an entry', share=2),
    H('existing', h_existing, '14 forms of extras × 10 files of the user'),
    H('edit', h_edit, '3 forms × 4 edits of the written file × load or reload'),
]
ASSUMPTIONS = ['extra assignments are to single names which are not arguments of the class and use only the extra imports',
               'without own imports the default ones are used, on which the default assignments depend']
