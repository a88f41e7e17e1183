"""C18: signatures become config entries and configs become exactly matching kwargs."""
import ast
import inspect
import itertools
import os
import types

from symex.driver import H
from harness.common import World, FEW

NAMES = ['a', 'b', 'c']
# where the values of a config file live once more
MISSING = inspect.Parameter.empty


class Thing:
    pass


def param(name, default, note):
    s = name + (f': {note}' if note else '')
    if default is not None:
        s += (' = ' if note else '=') + default
    return s


def build(kind, name, sig, names, head='', deco='', this='self', indent=''):
    """source of a function or class called `name` with these arguments, recording what it receives"""
    hit = f'hit({name!r}' + ''.join(f', {x}={x}' for x in names) + ')'
    if kind == 'function':
        return f'{head}{deco}def {name}({sig}):\n    return {hit}\n\n\n'
    extra = ('name' + (', ' if sig else '')) if kind == 'specific' else ''
    s = f'{head}class {name}:\n    {deco}def __init__({this}{", " if extra or sig else ""}{extra}{sig}):\n'
    s += f'        {this}.got = dict(' + ', '.join(f'{x}={x}' for x in names) + ')\n'
    s += f'        {this}.name = name\n' if kind == 'specific' else ''
    s += f'    def __call__(self):\n        return hit({name!r}, **self.got)\n\n\n'
    return s


PATHS = {'function': 's.it', 'class': 's.it', 'specific': 'sc.x.one'}


def start(w, kind, imports='from um import it', item='it', dict_src=None):
    if kind == 'specific':
        w.project('p', '{}', None, {'sc': "{'x': ['one']}"})
        return w.manager('p', specific_class_config_dicts=[{'class': w.um.it, 'name': 'sc'}])
    w.write('p/pipeline_dict.py', f'{imports}\npipeline_dict = ' + (dict_src or '{"s": [%s]}' % item) + '\n')
    return w.manager('p')


def conf(w, kind):
    return w.read('p/defaults/' + PATHS[kind].replace('.', '/') + '.py')


def evaluate(text):
    ns = {'__name__': 'conf', '__annotations__': {}}
    exec(compile(text, 'conf', 'exec', dont_inherit=True), ns)
    return ns


def arguments(func):
    """what may be configured: name -> (default, annotation)"""
    params = list(inspect.signature(func).parameters.values())
    return {p.name: p for p in params if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)}


def same(c, got, want, label, detail):
    if isinstance(want, types.FunctionType) and want.__name__ == '<lambda>':
        c.check(isinstance(got, types.FunctionType) and got(3) == want(3), label, detail)
    elif isinstance(want, float) and want != want:
        c.check(got != got, label, detail)
    elif isinstance(want, (type, types.FunctionType, types.ModuleType, types.BuiltinFunctionType)):
        c.check(got is want, label, detail)
    elif type(want).__module__ == 'um':
        c.check(type(got) is type(want) and vars(got) == vars(want), label, detail)
    else:
        c.eq(got, want, label, detail)


def check_config(c, text, want, notes=None, fixed=()):
    """one entry per argument with its own default and annotation, in order"""
    tree = ast.parse(text)
    entries = [n for n in tree.body if isinstance(n, (ast.Assign, ast.AnnAssign))]
    names = [(n.targets[0] if isinstance(n, ast.Assign) else n.target).id for n in entries]
    expected = list(fixed) + [x for x in want]
    c.check(names == (['s'] if 's' not in expected else []) + expected or names == ['s'] + expected, 'one entry per argument, in order',
            f'{names} for {expected}')
    try:
        ns = evaluate(text)
    except Exception as e:
        c.fail('the config file can be evaluated', f'{text!r}: {type(e).__name__} {e}')
    for k, p in want.items():
        same(c, ns[k], None if p.default is MISSING else p.default, 'the entry is the argument\'s default', f'{k} in {text!r}')
    notes = notes if notes is not None else {}
    for n, name in zip(entries, names):
        if name in want:
            note = ast.unparse(n.annotation) if isinstance(n, ast.AnnAssign) else None
            c.check(note == notes.get(name), 'the entry has the argument\'s annotation', f'{name}: {note} in {text!r}')
    return ns


def check_run(c, w, pm, kind, want, ns):
    w.rec.take()
    pm.run(PATHS[kind])
    calls = w.rec.take()
    c.check(len(calls) == 1, 'it is run once', f'{calls}')
    got = calls[0][1]
    c.check(set(got) >= set(want), 'every entry is received', f'{got}')
    for k, p in want.items():
        same(c, got[k], ns[k], 'every argument receives its entry', f'{k}')
    return got


def h_signature(c):
    """arguments of every kind"""
    kind = c.choose('kind', ['function', 'class', 'specific'])
    n = c.choose('arguments', [0, 1, 2] if c.tier == 'quick' and kind != 'function' else [0, 1, 2, 3])
    full = c.tier != 'quick' or n < (3 if kind == 'function' else 2)
    parts, names, notes = [], [], {}
    keyword = had_default = False
    first = c.choose('positional only', ['', 'p=0, /', 'p=0, q=1, /']) if kind == 'function' and full else ''
    had_default = bool(first)
    note_at = c.choose('annotated', [None] + list(range(n)) if full else [n - 1])
    star = None
    for i in range(n):
        if not keyword and c.choose(f'keyword from {i}', [False, True]):
            star = c.choose('star', ['*', '*args'] if full else ['*'])
            parts.append(star)
            keyword = True
        default = None
        if (had_default and not keyword) or c.choose(f'default {i}', [False, True]):
            default = f'symvals.d{i}'
            had_default = had_default or not keyword
        note = None
        if note_at == i:
            note = c.choose('annotation', ['int', "'int'", 'symvals.T'] if c.tier != 'quick' else ["'int'"])
            notes[NAMES[i]] = note.strip("'")
        names.append(NAMES[i])
        parts.append(param(NAMES[i], default, note))
    if not keyword and full and c.choose('rest', [False, True]):
        parts.append('*args')
    if full and c.choose('more', [False, True]):
        parts.append('**more')
    sig = ', '.join(([first] if first else []) + parts)
    w = World(c)
    for i in range(n):
        if f'symvals.d{i}' in sig:
            w.val(f'd{i}', FEW)
    w.put('T', int)
    values = {x: w.val('u' + x, FEW) for x in names[:1]}
    w.um = w.module('um', build(kind, 'it', sig, names, 'from symrec import hit\nimport symvals\n\n'))
    pm = start(w, kind)
    want = arguments(w.um.it)
    want.pop('name', None)
    ns = check_config(c, conf(w, kind), want, notes, ['name'] if kind == 'specific' else ())
    if kind == 'specific':
        c.check(ns['name'] == 'one', 'the entry is the argument\'s default', 'name')
    check_run(c, w, pm, kind, want, ns)
    if values:
        pm.update(values, PATHS[kind])
        check_run(c, w, pm, kind, want, {**ns, **values})


DEFAULTS = [
    '1', '-1.5', "'a\"b\\n'", "b'x'", 'None', '...', '1j', '1e400', "'''two\nlines'''", "f'{1}a'", '()', '(1,)', '[1, [2]]', '{1: 2}', '{1, 2}',
    '[i for i in range(3)]', '{i: j for i, j in [(1, 2)]}', 'K', 'K + 1', 'mod.V', 'mod.Sub.v', 'V2', 'Local', 'Local.v', 'Local(3)', 'local',
    'local(K)', 'len', 'len("abc")', 'lambda q: q + 1', 'lambda q: q + K', 'os.sep', 'osp.sep', 'sep2', 'not K', 'K if K else mod.V',
    'dict(a=K)', 'mod.table["k"]', '[K, mod.V][1:]', 'sorted([3, K], key=lambda i: -i)', "'%s' % K", '"K"', 'K < mod.V < 100', '*K2'[1:],
    'print', 'True', 'NotImplemented', 'float("nan")', '[x for x in [K]]', '(lambda: K)()', 'two', 'early', 'Local.Inner.w', 'u"\\u00e4"',
]
UM = '''from symrec import hit
import os
import os.path as osp
from os import sep as sep2
import mod
import mod as again
from mod import V2, table as tab

K = K2 = 9
one, two = 1, 2
if K:
    early = 5
else:
    early = 6


def local(x=2):
    return x


class Local:
    v = 4

    class Inner:
        w = 8

    def __init__(self, x=0):
        self.x = x


'''
MOD = 'V = 11\nV2 = 12\ntable = {"k": 13}\n\n\nclass Sub:\n    v = 14\n'


def h_default(c):
    """every kind of default, in every place, wherever the function is found"""
    default = c.choose('default', DEFAULTS)
    kind = c.choose('kind', ['function', 'class', 'specific'])
    place = c.choose('place', ['a={}', '*, a={}', 'p=1, /, a={}', 'b, a={}', 'a={}, *, b', 'a={}, b=K2'])
    if c.tier == 'quick' and kind != 'function':
        c.assume(place == 'a={}')
    w = World(c)
    w.module('mod', MOD)
    sig = place.format(default)
    names = [x for x in ('a', 'b') if x in [p.split('=')[0].strip() for p in sig.split(',')]]
    w.um = w.module('um', build(kind, 'it', sig, names, UM))
    pm = start(w, kind)
    want = arguments(w.um.it)
    want.pop('name', None)
    ns = check_config(c, conf(w, kind), want, None, ['name'] if kind == 'specific' else ())
    check_run(c, w, pm, kind, want, ns)


NOTES = ['int', "'Local'", 'Local', "' Local '", 't.Optional[int]', 't.Optional["Local"]', 'Optional[Local]', '"Optional[Local]"', 'None',
         'mod.Sub', 'int | None', 't.Callable[[int], Local]', 'list[int]', 't.Literal["a", "b c"]', '"t.Dict[str, mod.Sub]"', 'object', 'Local.Inner',
         'tuple[int, ...]']


def h_annotation(c):
    """every kind of annotation"""
    note = c.choose('annotation', NOTES)
    kind = c.choose('kind', ['function', 'class'])
    place = c.choose('place', ['a: {}', 'a: {} = 1', '*, a: {}', 'b: int = K, *, a: {} = None', 'b=3, a: {} = None'])
    w = World(c)
    w.module('mod', MOD)
    sig = place.format(note)
    names = [x for x in ('a', 'b') if x in [p.split('=')[0].split(':')[0].strip() for p in sig.split(',')]]
    w.um = w.module('um', build(kind, 'it', sig, names, UM + 'import typing as t\nfrom typing import Optional\n'))
    pm = start(w, kind)
    want = arguments(w.um.it)
    plain = note.strip().strip('\'"').strip() if note[0] in '\'"' else note
    notes = {'a': ast.unparse(ast.parse(plain).body[0])}
    if 'b: int' in sig:
        notes['b'] = 'int'
    ns = check_config(c, conf(w, kind), want, notes)
    check_run(c, w, pm, kind, want, ns)


# how a function gets to where the dictionary imports it from
FOUND = {
    'renamed': ('from um import other as it', 'it', {'um': '{}\nother = 1\n'}),
    'reexport': ('from um import it', 'it', {'um': 'from deep import it\n', 'deep': '{}'}),
    'reexport renamed': ('from um import it', 'it', {'um': 'from deep import orig as it\n', 'deep': '{}'}),
    'twice': ('from um import it', 'it', {'um': 'from mid import it\n', 'mid': 'from deep import it\n', 'deep': '{}'}),
    'package': ('from um import it', 'it', {'um/__init__': 'from .sub import it\n', 'um/sub': '{}'}),
    'package renamed': ('from um import it', 'it', {'um/__init__': 'from .sub import orig as it\n', 'um/sub': '{}'}),
    'submodule': ('from um.sub import it', 'it', {'um/__init__': '', 'um/sub': '{}'}),
    'sibling': ('from um.a import it', 'it', {'um/__init__': '', 'um/a': 'from .b import it\n', 'um/b': '{}'}),
    'parent': ('from um.x.a import it', 'it', {'um/__init__': '', 'um/x/__init__': '', 'um/x/a': 'from ..b import it\n', 'um/b': '{}'}),
    'star': ('from um import it', 'it', {'um': 'from collections import *\nfrom deep import *\nfrom mod import *\n', 'deep': '{}'}),
    'package star': ('from um import it', 'it', {'um/__init__': 'from .sub import *\n', 'um/sub': '{}'}),
    'star twice': ('from um import it', 'it', {'um/__init__': 'from os.path import *\nfrom .x import *\n', 'um/x/__init__': 'from .y import *\n__all__ = ["it"]\n', 'um/x/y': '{}'}),
    'dots': ('from um.x.a import it', 'it', {'um/__init__': '{}', 'um/x/__init__': '', 'um/x/a': 'from .. import it\n'}),
}
WHAT = ['K', 'mod.V', 'Local.v', 'sibling', 'near.V', 'V']
WRITTEN = ['', ': int', ': "int"', ': t.Literal["V", "fast", "int", 6]']


def h_found(c):
    """functions found through imports of imports, with defaults from where they are defined"""
    how = c.choose('found', list(FOUND))
    kind = c.choose('kind', ['function', 'class'])
    default = c.choose('default', WHAT)
    imports, item, files = FOUND[how]
    target = next(k for k, v in files.items() if '{}' in v)
    name = 'other' if how == 'renamed' else 'orig' if ' renamed' in how else 'it'
    head = UM
    if default == 'V':
        # from everything of a module
        head += 'from mod import *\n'
    note = c.choose('note', WRITTEN) if default in ('mod.V', 'V') else ''
    if note:
        head += 'import typing as t\n'
    if default in ('sibling', 'near.V'):
        c.assume('/' in target)
        head += 'from .near import V as sibling\n' if default == 'sibling' else 'from . import near\n'
    w = World(c)
    w.module('mod', MOD)
    for f, src in files.items():
        if '{}' in src:
            src = src.replace('other = 1\n', '').format(build(kind, name, f'a{note}{" = " if note else "="}{default}, *, b=2', ['a', 'b'], head))
        w.write(f + '.py', src)
        if '/' in f:
            w.write(os.path.dirname(f) + '/near.py', 'V = 15\n')
    import importlib
    importlib.invalidate_caches()
    pm = start(w, kind, imports, item)
    mod = importlib.import_module(target.replace('/__init__', '').replace('/', '.'))
    want = arguments(getattr(mod, name))
    plain = note[2:].strip('"')
    ns = check_config(c, w.read('p/defaults/s/it.py'), want, {'a': ast.unparse(ast.parse(plain).body[0])} if note else None)
    check_run(c, w, pm, kind, want, ns)


ODD = ['s', 'name', 'd_', 'section_path_str', 'config', '_x', 'cls', 'this', 'um', 'it', 'symvals', 'type', 'keywords', 'func', 'args', 'kwargs',
       'item', 'load', 'pipeline_dict', 'pyfileconf', 'update', 'module', '\u00e4', 'match', 'section', 'self', 'd', 'klass', 'annotations', 'imports']


def h_name(c):
    """arguments of any name"""
    name = c.choose('name', ODD)
    kind = c.choose('kind', ['function', 'class', 'specific'])
    c.assume(not (kind == 'specific' and name == 'name') and not (kind != 'function' and name == 'self'))
    second = c.choose('second', [False, True] if c.tier != 'quick' or kind == 'function' else [True])
    kw = c.choose('keyword', ['', '*, ']) if c.tier != 'quick' or not second else ''
    w = World(c)
    w.val('d0', FEW)
    v = w.val('u0', FEW)
    u = w.val('u1', FEW if c.tier != 'quick' else ('obj',))
    sig = kw + f'{name}=symvals.d0' + (', b=2' if second else '')
    names = [name] + (['b'] if second else [])
    src = build(kind, 'it', sig, names, 'from symrec import hit\nimport symvals\n\n')
    if name == 'symvals':
        src = build(kind, 'it', kw + 'symvals=4' + (', b=2' if second else ''), names, 'from symrec import hit\n\n')
    w.um = w.module('um', src)
    pm = start(w, kind)
    want = arguments(w.um.it)
    want.pop('name', None) if kind == 'specific' else None
    ns = check_config(c, conf(w, kind), want, None, ['name'] if kind == 'specific' else ())
    check_run(c, w, pm, kind, want, ns)
    pm.update({name: v}, PATHS[kind])
    ns = {**ns, name: v}
    check_run(c, w, pm, kind, want, ns)
    if name not in ('d_', 'section_path_str', 'self'):
        pm.update(section_path_str=PATHS[kind], **{name: u})
        ns[name] = u
        check_run(c, w, pm, kind, want, ns)


DECO = {
    'none': ('', ''),
    'wraps': ('import functools\n\n\ndef deco(fn):\n    @functools.wraps(fn)\n    def inner(*args, **kwargs):\n        return fn(*args, **kwargs)\n    return inner\n\n\n', '@deco\n'),
    'same': ('def deco(fn):\n    return fn\n\n\n', '@deco\n'),
    'called': ('def deco(*args):\n    return lambda fn: fn\n\n\n', '@deco(1, "x")\n'),
    'two': ('import functools\n\n\ndef deco(fn):\n    @functools.wraps(fn)\n    def inner(*args, **kwargs):\n        return fn(*args, **kwargs)\n    return inner\n\n\n', '@deco\n@deco\n'),
}
THIS = ['self', 'this', 'me']
AROUND = {'nothing': ('', ''), 'method of the name': ('class Other:\n    def it(self, z=3):\n        return z\n\n\n', ''),
          'local of the name': ('def other():\n    def it(z=3):\n        return z\n    return it\n\n\n', ''),
          'class with init': ('class Other:\n    def __init__(self, z=3):\n        self.z = z\n\n\n', 'class Later:\n    def __init__(self, y=3):\n        self.y = y\n'),
          'overloads': ('', ''), 'defined before': ('def it(z, a=7):\n    return z\n\n\n', ''), 'class before': ('class it:\n    def __init__(self, z, a=7):\n        pass\n\n\n', ''),
          'inner class': ('', ''), 'init after methods': ('', ''), 'alias': ('', 'that = it\n')}


def h_around(c):
    """decorators, other names for self and what else is in the module"""
    kind = c.choose('kind', ['function', 'class', 'specific'])
    deco = c.choose('decorator', list(DECO)[:5 if c.tier != 'quick' or kind == 'function' else 2])
    around = c.choose('around', list(AROUND))
    this = c.choose('this', THIS if c.tier != 'quick' else THIS[:2]) if kind != 'function' else 'self'
    sig = c.choose('signature', ['a=symvals.d0, b=2', 'a, b=symvals.d0', 'b=symvals.d0, *, a'])
    w = World(c)
    w.val('d0', FEW)
    before, after = AROUND[around]
    head, d = DECO[deco]
    c.assume(kind == 'function' or around not in ('method of the name', 'local of the name', 'class before') or c.tier != 'quick')
    src = build(kind, 'it', sig, ['a', 'b'], 'from symrec import hit\nimport symvals\n\n' + before + head, d + ('    ' if kind != 'function' and d else ''), this)
    if d.count('\n') == 2 and kind != 'function':
        src = src.replace('@deco\n@deco', '@deco\n    @deco')
    if kind != 'function' and around == 'inner class':
        src = src.replace('class it:\n', 'class it:\n    class Inner:\n        def __init__(self, z=1):\n            self.z = z\n\n')
    if kind != 'function' and around == 'init after methods':
        src = src.replace('class it:\n', 'class it:\n    """doc"""\n    def other(self, z=1):\n        return z\n\n    @property\n    def q(self):\n        return 1\n\n    @classmethod\n    def make(cls, k=1):\n        return cls()\n\n')
    if around == 'overloads':
        i, name, this_ = ('', 'it', '') if kind == 'function' else ('    ', '__init__', this + ', ')
        at = src.index('class it:\n') + len('class it:\n') if i else src.index('@deco' if d else 'def it(')
        two = ''.join(f'{i}@{o}\n{i}def {name}({this_}{x}): ...\n\n' for o, x in (('overload', 'z: int'), ('typing.overload', 'z: str, a: int = 8')))
        src = 'import typing\nfrom typing import overload\n' + src[:at] + two + src[at:]
    w.um = w.module('um', src + after)
    pm = start(w, kind)
    want = arguments(w.um.it)
    want.pop('name', None)
    ns = check_config(c, conf(w, kind), want, None, ['name'] if kind == 'specific' else ())
    check_run(c, w, pm, kind, want, ns)
    v = w.val('u0', FEW if c.tier != 'quick' else ('obj',))
    pm.update({'a': v}, PATHS[kind])
    check_run(c, w, pm, kind, want, {**ns, 'a': v})


SHADOW = {  # signature -> id of the known finding
    'a=1, K=K': None, 'K=K, a=1': None, 'K=1, a=K': 'KF1', 'a=s': 'KF1', 's=s': 'KF1', 's=1, a=s': 'KF1', 'a=K, K=1': None, 'K=K2, K2=K': 'KF1',
    'a=Selector': 'KF1', 'c=K, K2=1, a=K': None, 'K: int = 1, *, a: int = K': 'KF1', 'K=1, a=[i for K in [[1]] for i in K]': None,
    'K=1, a=(lambda K: K)': None, 'mod=K, a=mod.V': 'KF1', 'V=1, a=mod.V': None, 'a=CLASSLEVEL': 'KF2',
}


def h_shadow(c):
    """defaults referring to names of the module which are arguments too"""
    sig = c.choose('signature', list(SHADOW))
    kind = c.choose('kind', ['function', 'class'])
    c.assume(kind == 'class' or 'CLASS' not in sig)
    c.region(SHADOW[sig] or 'none', SHADOW[sig] is not None)
    w = World(c)
    w.module('mod', MOD)
    names = [p.split('=')[0].split(':')[0].strip(' *') for p in sig.split(', ') if '=' in p]
    src = build(kind, 'it', sig, names, UM + 's = 5\nSelector = 6\n')
    if 'CLASS' in sig:
        src = src.replace('class it:\n', 'class it:\n    CLASSLEVEL = 3\n')
    w.um = w.module('um', src)
    pm = start(w, kind)
    want = arguments(w.um.it)
    text = conf(w, kind)
    ns = check_config(c, text, want, {'K': 'int', 'a': 'int'} if ': int' in sig else None)
    check_run(c, w, pm, kind, want, ns)


SIGS = ['a=1', 'a=1, **more', 'a=1, *args, b=2, **more', '', '**more', 'p=1, /, a=2', 'p=1, /, **more']


def h_accepts(c):
    """entries which are not arguments, in the item's file, in section files and in updates"""
    kind = c.choose('kind', ['function', 'class', 'specific'])
    sig = c.choose('signature', SIGS)
    c.assume('p=' not in sig or kind == 'function')
    keys = c.choose('keys', [['zz'], ['b'], ['p'], ['more', 'args'], ['a', 'zz'], ['self'], ['d_'], ['hit']])
    where = c.choose('where', ['file', 'section', 'project', 'update', 'section update', 'two updates'])
    w = World(c)
    vals = {k: w.val('v' + k, FEW) for k in keys}
    have = [x for x in ('p', 'a', 'b', 'more', 'args') if x in sig]
    w.um = w.module('um', build(kind, 'it', sig, have, 'from symrec import hit\n\n'))
    want = arguments(w.um.it)
    want.pop('name', None)
    path = PATHS[kind]
    folder = 'p/defaults/' + path.rsplit('.', 1)[0].replace('.', '/')
    text = 'import symvals\n' + ''.join(f'{k} = symvals.v{k}\n' for k in keys)
    for at, file in (('file', folder + '/' + path.rsplit('.', 1)[1] + '.py'), ('section', folder + '/section.py'), ('project', 'p/defaults/section.py')):
        if where == at:
            w.write(file, text)
    pm = start(w, kind)
    expected = {k: (None if p.default is MISSING else p.default) for k, p in want.items()}
    if where == 'update':
        pm.update(vals, path)
    elif where == 'section update':
        # a section config must have a file to be updated
        if kind == 'specific':
            w.write(folder + '/section.py', '\n')
            pm.reload()
        pm.update(vals, path.rsplit('.', 1)[0])
        pm.reset(path) if c.choose('reset', [False, True]) and False else None
    elif where == 'two updates':
        for k in keys:
            pm.update({k: vals[k]}, path)
    expected.update({k: v for k, v in vals.items() if k in want})
    for again in range(2):
        w.rec.take()
        pm.run(path)
        (got,) = w.rec.take()
        for k, v in expected.items():
            c.eq(got[1][k], v, 'every argument receives its entry', f'{k}')
        if 'more' in have:
            c.check(got[1]['more'] == {}, 'nothing is received that is not an argument', f'{got[1]["more"]}')
        if 'args' in have:
            c.check(got[1]['args'] == (), 'nothing is received that is not an argument', f'{got[1]["args"]}')
        if 'p' in have:
            c.check(got[1]['p'] == 1, 'nothing is received that is not an argument', 'p')


HARNESSES = [
    H('signature', h_signature, '0..3 arguments, positional or keyword-only, with or without default and annotation, after 0..2 positional-only ones, '
      'with or without *args and **kwargs; functions, classes, specific classes; arbitrary defaults and updates', share=2),
    H('default', h_default, f'{len(DEFAULTS)} forms of default in 6 places (quick: 1 for classes)', share=2),
    H('annotation', h_annotation, f'{len(NOTES)} forms of annotation in 5 places'),
    H('found', h_found, f'{len(FOUND)} ways of importing the function or class times 6 defaults from its module, 4 ways of annotating them'),
    H('name', h_name, f'arguments with {len(ODD)} names which the library, Python or config files use themselves'),
    H('shadow', h_shadow, f'{len(SHADOW)} signatures whose defaults refer to names of the module which are names of arguments, or of the file, too'),
    H('around', h_around, '5 decorations (quick: 2 for classes), 10 other contents of the module, 3 (2) names for self, 3 signatures'),
    H('accepts', h_accepts, '7 signatures, 8 sets of foreign keys, in 6 places, arbitrary values', share=2),
]
ASSUMPTIONS = ['items of a dictionary are names which it imports from modules', 'arguments starting with two underscores are not public and not configured']
