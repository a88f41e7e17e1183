"""C15: scaffolding never loses user edits and is idempotent."""
import io
import os
import sys
import tokenize
import types

from symex.driver import H
from harness.common import World, fn_src, class_src

HEADS = ['', '"""about import\n\nmore = 1\n"""\n', '#!/usr/bin/env python\n# -*- coding: utf-8 -*-\n', '# import nothing = 1\n\n',
         '#!/bin/x\n# vim: set fileencoding=ascii :\n',
         'from __future__ import annotations\n', '"""doc"""\nfrom __future__ import annotations\n\n']
IMPORTS = ['import symvals\n', 'import os, symvals\n', 'from symvals import (v0,\n    v1 as w1)\nimport symvals\n',
           'import symvals; more = (1,\n    2)\n', 'import symvals  # values\n\n\nimport os as K\n',
           'from pyfileconf import Selector\nimport symvals\ns = Selector()\n', '# first\nimport symvals\n# second\nimport os.path as osp\n\n',
           'from pyfileconf import *\nimport symvals\n', 'try:\n    import missing\nexcept ImportError:\n    import symvals\n',
           'import os\\\n    , symvals\n', 'import symvals; \\\n    more = 1\n']
ENDS = ['\n', '', '\n\n\n', '\n# end import = 1\n', '\n\n# end', '\r\n']
BODIES = ['extra = symvals.v1', 'a = symvals.v0', 'a: int = symvals.v0', 'a = symvals.v0  # import this = 1', 'a = (\n    symvals.v0\n)',
          'a = extra = symvals.v0', 'a, extra = symvals.v0, symvals.v1', '[a, (b, *extra)] = symvals.v0, (symvals.v1, 1)',
          'if symvals.flag:\n    a = symvals.v0\nelse:\n    a = symvals.v1', 'for a in symvals.v1, symvals.v0:\n    pass',
          'def make():\n    import os\n    a = 1\n    return symvals.v0\n\n\na = make()', 'class Extra:\n    a = 5\n\nextra = Extra.a',
          'from symvals import v0 as a', 'extra = symvals.v1\nfrom symvals import v0 as a, v1 as more', 'extra = """\na = 1\nimport os\n"""',
          'try:\n    from symvals import v0 as a\nexcept ImportError:\n    a = None', '# a = 3', "extra = 'a = 1'", 'a: int', '',
          "extra = {}\nextra['a'] = symvals.v0\n\n\n\nb = extra", 'extra = lambda a: a\nmore = [a for a in (1, 2)]', 'a = None\na = symvals.v0',
          'K = symvals.v1\nextra = K', 'b = symvals.v0;a = symvals.v1', 'if (a := symvals.v0) is None:\n\textra = 1\nelse:\n\textra = 2',
          'import types\nmore = types.SimpleNamespace()\nmore.a = symvals.v0\na = more.a', 'extra = "\u00e4\u00f6 import"  # \u4e2d = 1',
          'with symvals.opened as a:\n    b = a', 'x = 1\ndel x', 'other_arg = symvals.v0', 'a = symvals.v1\na = [a]\na += [2]', 's = symvals.v0\na = s',
          'def b():\n    return 1\n\n\na = b()', 'from symvals import v0 as Thing',
          'from symvals import other as os\nextra = os']
SIGS = ['a, b=2', 'a=K, b=None', "b: Thing = None, a: 'Thing' = Thing.v", 'a=1, *, b', 'other=5, a="import x = 1"', '', 'a=os.path.sep, b=1']
UM = 'import os.path\n\nclass Thing:\n    v = 7\n\n\nK = 9\n\n\n'
DEF = {'a': {'a, b=2': None, 'a=K, b=None': 9, "b: Thing = None, a: 'Thing' = Thing.v": 7, 'a=1, *, b': 1, 'a=os.path.sep, b=1': '/',
             'other=5, a="import x = 1"': 'import x = 1'}, 'b': {'a, b=2': 2, 'a=os.path.sep, b=1': 1}, 'other': {'other=5, a="import x = 1"': 5}}


def argnames(sig):
    return [x for x in ('other', 'a', 'b') if x in [p.split(':')[0].split('=')[0].strip() for p in sig.split(',')]]


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text.encode('utf8'))


def values(text):
    """what a file's public variables evaluate to"""
    ns = {'__name__': 'conf'}
    exec(compile(text, 'conf', 'exec', dont_inherit=True), ns)
    return {k: v for k, v in ns.items() if not k.startswith('__')}


def comparable(v):
    return not isinstance(v, (type, types.ModuleType, types.FunctionType, types.SimpleNamespace)) and type(v).__module__[:10] != 'pyfileconf' \
        and type(v).__module__ != '__future__'


def stored(w, name, kinds=('none', 'int', 'obj')):
    return w.val(name, kinds)


def world(c, sig, kind='f'):
    body = ', '.join(f'{x}={x}' for x in argnames(sig))
    if kind == 'f':
        um = UM + f'def f({sig}):\n    return hit("f", {body})\n\n\n'
    else:
        args = 'self' + (', name' if kind == 'S' else '') + (', ' + sig if sig else '')
        um = UM + f'class {kind}:\n    def __init__({args}):\n' + ''.join(f'        self.{x} = {x}\n' for x in argnames(sig))
        um += ('        self.name = name\n' if kind == 'S' else '        pass\n')
        um += f'    def __call__(self):\n        return hit("{kind}", ' + ', '.join(f'{x}=self.{x}' for x in argnames(sig)) + ')\n\n\n'
    w = World(c, um)
    stored(w, 'v0')
    stored(w, 'v1')
    w.put('flag', True)

    class Opened:
        def __enter__(self):
            return w.sv.v0

        def __exit__(self, *a):
            pass
    w.put('opened', Opened())
    w.put('other', types.SimpleNamespace(path=types.SimpleNamespace(sep='other')))
    return w


PATHS = {'f': 's.f', 'C': 's.C', 'S': 'sc.x.one'}


def start(w, kind):
    if kind == 'S':
        w.project('p', '{}', None, {'sc': "{'x': ['one']}"})
        return w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    w.project('p', "{'s': [%s]}" % kind, None, None, kind)
    return w.manager('p')


def conf_path(w, kind):
    return os.path.join(w.root, 'p', 'defaults', *PATHS[kind].split('.')) + '.py'


def read(path):
    with open(path, 'rb') as f:
        return f.read().decode('utf8')


def encoding(text):
    return tokenize.detect_encoding(io.BytesIO(text.encode('utf8')).readline)[0]


def subsequence(old, new):
    it = iter(new)
    return all(any(line == x for x in it) for line in old)


def check_kept(c, w, old_text, new_text, defaults, what=''):
    old_lines = [x.rstrip('\r') for x in old_text.split('\n')]
    new_lines = [x.rstrip('\r') for x in new_text.split('\n')]
    if old_lines and old_lines[-1] == '':
        old_lines.pop()
    c.check(subsequence(old_lines, new_lines), 'every line of the file is kept', f'{what}{old_text!r} -> {new_text!r}')
    c.check(encoding(old_text) == encoding(new_text), 'the encoding of the file stays', f'{what}{old_text!r} -> {new_text!r}')
    try:
        old = values(old_text)
        new = values(new_text)
    except Exception as e:
        c.fail('the file can be evaluated', f'{what}{old_text!r} -> {new_text!r}: {type(e).__name__} {e}')
    for k, v in old.items():
        c.check(k in new, 'every variable of the file is kept', f'{what}{k}: {old_text!r} -> {new_text!r}')
        if comparable(v):
            c.eq(new[k], v, 'variables of the file keep their values', f'{what}{k}: {old_text!r} -> {new_text!r}')
        else:
            c.check(type(new[k]) is type(v), 'variables of the file keep their values', f'{what}{k}: {old_text!r} -> {new_text!r}')
    for k, v in defaults.items():
        if k not in old:
            c.check(k in new, 'every missing argument is added', f'{what}{k}: {old_text!r} -> {new_text!r}')
            if (v == 9 and 'K' in old) or (v == '/' and 'os' in old) or (v == 7 and 'Thing' in old):
                continue  # the default refers to a name which the file uses for something else
            c.eq(new[k], v, 'added arguments have their defaults', f'{what}{k}: {old_text!r} -> {new_text!r}')
    return new


def scaffold(c, sig, kind, text):
    c.assume(not ('as Thing' in text and 'Thing.v' in sig))
    w = world(c, sig, kind)
    path = conf_path(w, kind)
    write(path, text)
    defaults = {x: DEF[x].get(sig) for x in argnames(sig)}
    if kind == 'S':
        defaults['name'] = 'one'
    pm = start(w, kind)
    now = read(path)
    new = check_kept(c, w, text, now, defaults)
    missing = [x for x in defaults if x not in values(text)]
    if not missing and 's = ' in text and 'import Selector' in text and sig not in SIGS[1:3] + SIGS[6:]:
        c.check(now == text, 'a file that has everything is left as it is', f'{text!r} -> {now!r}')
    w.rec.take()
    pm.run(PATHS[kind])
    (got,) = w.rec.take()
    for x in argnames(sig):
        if comparable(new[x]):
            c.eq(got[1][x], new[x], 'the item runs with the values of the file', f'{x}: {now!r}')
    files = w.files('p')
    if c.choose('again', ['reload', 'new manager']) == 'reload':
        pm.reload()
        pm.reload()
    else:
        from pyfileconf import PipelineManager
        kw = {'specific_class_config_dicts': [{'class': w.um.S, 'name': 'sc'}]} if kind == 'S' else {}
        PipelineManager(folder=os.path.join(w.root, 'p'), name='q', **kw).load()
    after = w.files('p')
    c.check(after == files, 'loading again changes no file', lambda: f'{text!r} -> {now!r} -> ' + repr(
        {k: v for k, v in after.items() if files.get(k) != v}))


def h_layout(c):
    """where the imports and the end of the file are"""
    head = c.choose('head', HEADS)
    imports = c.choose('imports', IMPORTS)
    c.assume('import *' not in imports or '__future__' not in head)
    body = c.choose('body', BODIES[:1] if c.tier == 'quick' else BODIES[:5])
    end = c.choose('end', ENDS)
    scaffold(c, SIGS[1], 'f', head + imports + body + end)


def h_body(c):
    """what the file assigns and how"""
    sig = c.choose('signature', SIGS)
    body = c.choose('body', BODIES)
    imports = c.choose('imports', ['import symvals\n', 'from pyfileconf import Selector\nimport symvals\n\ns = Selector()\n'])
    scaffold(c, sig, 'f', imports + body + c.choose('end', ENDS[:2] if imports[0] == 'i' or c.tier != 'quick' else ENDS[:1]))


def h_two(c):
    """two statements after one another"""
    some = BODIES if c.tier != 'quick' else BODIES[1:9] + BODIES[23:26]
    first, second = c.choose('first', some), c.choose('second', some)
    scaffold(c, SIGS[2] if c.tier == 'quick' else c.choose('signature', SIGS), 'f', 'import symvals\n' + first + c.choose('between', ['\n', '\n\n# import\n\n']) + second + '\n')


def h_class(c):
    """classes and specific classes"""
    kind = c.choose('kind', ['C', 'S'])
    sig = c.choose('signature', SIGS)
    head = c.choose('head', HEADS[:3])
    body = c.choose('body', BODIES if c.tier != 'quick' else BODIES[1:4] + BODIES[9:12] + BODIES[22:24])
    scaffold(c, sig, kind, head + 'import symvals\n' + body + c.choose('end', ENDS[:2] if not head or c.tier != 'quick' else ENDS[:1]))


EDITS = [('leave', lambda t: t), ('change a', lambda t: t.replace('a = 1\n', 'a = symvals.v0\n')),
         ('remove a', lambda t: t.replace('a = 1\n', '')), ('add variable', lambda t: t + 'z = symvals.v1\n'),
         ('comment', lambda t: t.replace('s = ', '# note\n\ns = ')), ('use names', lambda t: t + 'b = symvals.v0\nc = b\n'),
         ('remove selector', lambda t: t.replace('s = Selector()\n', ''))]
STEPS = ['a=1', 'a=1, b=2', 'b=2', 'c=3, a=4', '', 'a=1, b=K, c=Thing.v']


def h_history(c):
    """the function's signature and the file change in turns"""
    w = world(c, STEPS[0])
    src = UM + 'def f(%s):\n    return hit("f", %s)\n'
    w.module('um', 'from symrec import hit\n' + src % (STEPS[0], 'a=a'), load=False)
    sys.modules.pop('um')
    pm = start(w, 'f')
    path = conf_path(w, 'f')
    n = 2 if c.tier == 'quick' else 3
    for i in range(n):
        name, edit = c.choose(f'edit{i}', EDITS if c.tier != 'quick' or not i else EDITS[1:4])
        old = edit(read(path))
        if old != read(path):
            old = 'import symvals\n' + old
        write(path, old)
        sig = c.choose(f'signature{i}', STEPS if c.tier != 'quick' or i else STEPS[1:5])
        have = values(old)
        names = [p.split('=')[0].strip() for p in sig.split(',') if p]
        w.module('um', 'from symrec import hit\n' + src % (sig, ', '.join(f'{x}={x}' for x in names)), load=False)
        sys.modules.pop('um', None)  # as in a new process: reload does not import modules again which were first used after loading
        pm.reload()
        new_text = read(path)
        defaults = {p.split('=')[0].strip(): eval(p.split('=')[1], {'K': 9, 'Thing': types.SimpleNamespace(v=7)}) for p in sig.split(',') if p}
        new = check_kept(c, w, old, new_text, defaults, f'{sig}: ')
        w.rec.take()
        pm.run('s.f')
        (got,) = w.rec.take()
        c.check(set(got[1]) == set(names), 'the current function runs', f'{got}')
        for x in names:
            c.eq(got[1][x], new[x], 'the item runs with the values of the file', f'{x}: {new_text!r}')
        pm.reload()
        c.check(read(path) == new_text, 'loading again changes no file', f'{new_text!r} -> {read(path)!r}')


DICTS = ["{'s': [f]}", "{'s': [f, g], 't': {'u': [K]}}", "{'s': {'f': [f, K], 'g': [g]}, 't': []}", "{'s': [f, {'u': [g]}], 't': {'s': {'s': [f]}}}",
         "{'t': {}, 's': [K]}"]
UM2 = fn_src('f') + fn_src('g', ('x', 'y')) + class_src('K') + class_src('S', key='name')
ITEMS = {0: ['s/f'], 1: ['s/f', 's/g', 't/u/K'], 2: ['s/f/f', 's/f/K', 's/g/g'], 3: ['s/f', 's/u/g', 't/s/s/f'], 4: ['s/K']}
SPECS = ['', "{'x': ['one', 'two'], 'y': {'z': ['one']}}"]
SPEC_ITEMS = ['sc/x/one', 'sc/x/two', 'sc/y/z/one']


def h_tree(c):
    """every item has a config file, with the items' own arguments; the rest of the folder is left alone"""
    w = World(c, UM2)
    first = c.choose('dictionary', [0, 1, 2, 3, 4])
    second = c.choose('then', [None, 0, 1, 2, 3, 4])
    spec = c.choose('specific', SPECS)
    w.project('p', DICTS[first], None, {'sc': spec} if spec else None, 'f, g, K')
    users = c.choose('user files', [[], ['s/f.py', 't/u/K.py'], ['s/section.py', 'notes.txt', 's/other.py', 'section.py', 'old/gone.py', 's/x.txt']])
    stored(w, 'v0')
    for u in users:
        write(os.path.join(w.root, 'p', 'defaults', u), 'import symvals\na = symvals.v0\n' + ('' if u[-3:] == '.py' else 'no python ('))
    before = w.files('p/defaults')
    pm = w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}] if spec else None)
    items = set(ITEMS[first]) | set(SPEC_ITEMS if spec else [])
    check_tree(c, w, before, items, users)
    if second is not None:
        before = w.files('p/defaults')
        w.write('p/pipeline_dict.py', f'from um import f, g, K\npipeline_dict = {DICTS[second]}\n')
        pm.reload()
        check_tree(c, w, before, items | set(ITEMS[second]), users)
    before = w.files('p')
    pm.reload()
    c.check(w.files('p') == before, 'loading again changes no file', lambda: sorted(set(w.files('p')) ^ set(before)))


ARGS = {'f': {'a': None, 'b': None}, 'g': {'x': None, 'y': None}, 'K': {'a': None, 'b': None}}


def check_tree(c, w, before, items, users):
    after = w.files('p/defaults')
    pre = 'p/defaults/'
    confs = {k[len(pre):-3] for k in after if k.endswith('.py') and not k.endswith('section.py')}
    extra = {u[:-3] for u in users if u.endswith('.py') and not u.endswith('section.py')}
    c.check(confs == items | extra, 'exactly the items get config files', f'{sorted(confs)} for {sorted(items)} and {sorted(extra)}')
    for k, v in before.items():
        name = k[len(pre):]
        if name[:-3] in items and name[-3:] == '.py':
            c.check(subsequence(v.decode().splitlines(), after[k].decode().splitlines()), 'every line of the file is kept', k)
        else:
            c.check(after.get(k) == v, 'other files are left alone', k)
    for i in items:
        name = i.rsplit('/', 1)[1]
        ns = values(after[f'{pre}{i}.py'].decode())
        want = ARGS.get(name, {'name': name, 'a': None, 'b': None})
        had = values(before[f'{pre}{i}.py'].decode()) if f'{pre}{i}.py' in before else {}
        for a, v in want.items():
            c.check(a in ns, 'every missing argument is added', f'{a} in {i}')
            if a in had:
                c.eq(ns[a], had[a], 'variables of the file keep their values', f'{a} in {i}')
            else:
                c.check(ns[a] == v if not isinstance(v, type(None)) else ns[a] is None, 'added arguments have their defaults', f'{a} in {i}')
        c.check(set(ns) - {'s', 'Selector', 'symvals'} == set(want) | (set(had) - {'s', 'Selector', 'symvals'}), 'only arguments are added', i)


HARNESSES = [
    H('layout', h_layout, 'user files with 7 beginnings, 11 layouts of imports, 1 (5) statements and 6 ends, loaded, run and loaded again', share=2),
    H('body', h_body, f'{len(BODIES)} ways to assign (or not) the arguments of {len(SIGS)} signatures times 2 beginnings times 2 ends, with arbitrary values', share=2),
    H('two', h_two, 'pairs of 11 (all) of these ways, 2 separations'),
    H('class', h_class, 'classes and specific classes: 6 signatures, 3 beginnings, 8 (all) ways to assign, 2 ends', share=2),
    H('history', h_history, '2 (3) rounds of 7 (second round 3) edits of the file and 6 (first round 4) signatures'),
    H('tree', h_tree, '5 dictionaries, replaced by any other, with or without a specific-class dictionary, and 3 sets of files there before'),
]
ASSUMPTIONS = ['a default which refers to a name that the file binds itself (K, Thing) takes the meaning of the file (and is not tried where it has none)', 'files are UTF-8 and can be evaluated', 'names bound only in a branch that is not taken count as defined']
