"""C17: import and assignment statements survive text and AST round trips."""
import ast

from symex.driver import H
from harness.c16 import cls

NAMES = 'xyz'


def pairs_of(c, text, kind):
    """module and (item, name) pairs of the text of an import, which may be symbolic"""
    module = None
    if kind == 'object':
        head, sep, rest = text.partition(' import ')
        c.check(bool(sep) and head[:5] == 'from ', 'the text is an import', lambda: f'{text!r}')
        module = head[5:]
    else:
        c.check(text[:7] == 'import ', 'the text is an import', lambda: f'{text!r}')
        rest = text[7:]
    out = []
    for part in rest.split(', '):
        item, sep, name = part.partition(' as ')
        out.append((item, name if sep else item))
    return module, out


def h_text(c):
    """the text of a statement means what its attributes say"""
    C, M, O, R, RC = cls()
    kind = c.choose('kind', ['object', 'module'])
    n = c.choose('items', [1, 2, 3] if c.tier == 'quick' else [1, 2, 3, 4])
    module = c.str('module', 1, 2, 'mn') if kind == 'object' else None
    want, renames = [], []
    for i in range(n):
        item = c.str(f'item{i}', 1, 2 if i == 0 else 1, NAMES)
        name = item
        if c.choose(f'renamed{i}', [False, True]):
            name = c.str(f'name{i}', 1, 1, NAMES)
            renames.append(R(item, name))
        want.append((item, name))
    items = [i for i, _ in want]
    st = O(items, module, RC(renames)) if kind == 'object' else M(items, RC(renames))
    if c.choose('in a collection', [False, True]):
        text = c.text(C([st]))
    else:
        text = c.text(st)
    got_module, got = pairs_of(c, text, kind)
    if module is not None:
        c.check(got_module == module, 'the module is the statement\'s', lambda: f'{text!r}')
    c.check(len(got) == n, 'every item is in the text once', lambda: f'{text!r}')
    for k, (a, _) in enumerate(got):
        c.check(a == items[k], 'the items are in order', lambda: f'{text!r}')
    for item, name in want:
        # the same item may be imported under several names, in any order
        c.check(count((item, name), got) == count((item, name), want), 'every item has its name', lambda: f'{text!r} for {want}')


def count(pair, pairs):
    n = 0
    for a, b in pairs:
        if a == pair[0] and b == pair[1]:
            n += 1
    return n


STYLES = ['{}', '{}  # note', '({})', '(\n    {},\n)', '( # note\n    {} # more\n)', '\\\n    {}']
OBJ_ITEMS = ['x', 'y', 'Long_name1']
MOD_ITEMS = ['x', 'x.y', 'pkg.sub.mod']
ALIASES = [None, 'z', 'x']


def aliases(node):
    return [(a.name, a.asname) for a in node.names]


def bindings(al):
    return sorted((str(n), str(a)) for n, a in al)


def h_source(c):
    """statements read from source"""
    C, M, O, R, RC = cls()
    kind = c.choose('kind', ['object', 'module'])
    n = c.choose('items', [1, 2] if c.tier == 'quick' else [1, 2, 3])
    parts = []
    for i in range(n):
        item = c.choose(f'item{i}', OBJ_ITEMS if kind == 'object' else MOD_ITEMS)
        alias = c.choose(f'alias{i}', ALIASES)
        parts.append(item + (f' as {alias}' if alias else ''))
    style = c.choose('style', STYLES if kind == 'object' else STYLES[:2] + STYLES[-1:])
    where = c.choose('module', ['m', 'm.n', '.', '.m', '..m.n']) if kind == 'object' else None
    src = (f'from {where} import ' if where else 'import ') + style.format((', ' if '\n   ' not in style or style[0] == '\\' else ',\n    ').join(parts))
    node = ast.parse(src).body[0]
    from pyfileconf.imports.models.statements.comment import Comment
    note = c.choose('comment', [None, ' keep'])
    make = O if kind == 'object' else M
    st = make.from_str(src, comment=Comment(note) if note else None)
    same = O.from_ast_import_from(node) if kind == 'object' else M.from_ast_import(node)
    check_import(c, st, node, src)
    check_import(c, same, node, src)
    c.check(note is None or str(st).endswith('# keep') and str(st).count('#') == 1, 'the comment stays', str(st))
    c.check((st == same) == (note is None) and st == make.from_str(src, comment=Comment(note) if note else None),
            'statements of equal text and comment are equal', f'{st!r} {same!r}')
    again = make.from_str(str(st), comment=st.comment)
    c.check(again == st and str(again) == str(st), 'the text, read again, is the same statement', f'{st} -> {again}')
    if note:
        return
    other = c.choose('other', ['from m import x', 'from m import y as x', 'from m import x, y', 'import m', 'import x', 'import x as z'])
    o = (O if other[0] == 'f' else M).from_str(other)
    node2 = ast.parse(other).body[0]
    if note is None and all(len(set(aliases(x))) == len(x.names) for x in (node, node2)):
        c.check((st == o) == (ast.dump(node) == ast.dump(node2)), 'statements of other imports are unequal', f'{st} {o}')


def check_import(c, st, node, src):
    text = str(st)
    got = ast.parse(text).body
    c.check(len(got) == 1 and type(got[0]) is type(node), 'the text is one import of the same kind', f'{src!r} -> {text!r}')
    c.check(bindings(aliases(got[0])) == bindings(aliases(node)) and [a for a, _ in aliases(got[0])] == [a for a, _ in aliases(node)],
            'the text imports the same names in order', f'{src!r} -> {text!r}')
    if isinstance(node, ast.ImportFrom):
        c.check((got[0].module, got[0].level) == (node.module, node.level), 'the text imports from the same module', f'{src!r} -> {text!r}')
        c.check(list(st.objs) == [a.name for a in node.names], 'the objects are those imported', f'{src!r} -> {st!r}')
    else:
        c.check(list(st.modules) == [a.name for a in node.names], 'the modules are those imported', f'{src!r} -> {st!r}')
    c.check([(r.item, r.new_name) for r in st.renames] == [x for x in aliases(node) if x[1]], 'the renames are those of the source',
            f'{src!r} -> {st!r}')
    for a, b in aliases(node):
        if b:
            c.check(b in st.renames.new_names and st.renames.reverse_name_map[b] in [x for x, y in aliases(node) if y == b],
                    'the original of a renamed name is known', f'{src!r} -> {st!r}')


EXPRS = ['1', '-1', '--1', '1.5', '1e400', '-1e400', '1j', '1 + 2j', 'None', 'True', '"a"', "'a\"b'", r"'a\nb'", r"'\\'", r"b'\x00a'",
         "'\u00e9'", '()', '(1,)', '(1, 2)', '[]', '[1, [2]]', '{}', "{'a': 1}", '{1}', '{**a}', '[*a]', '(*a,)', 'a', 'a.b', 'a.b.c', 'a[0]',
         'a[1:2]', 'a[1:2, 3]', 'a[:, None]', 'a[...]', 'f()', 'f(1, b=2)', 'f(*a, **k)', 'lambda: 1', 'lambda x, *y, z=1, **k: (x, y)',
         'lambda x, /, y: x', 'x if y else z', 'not x', 'x and y or z', '(x and y) or z', 'x and (y or z)', '-x ** 2', '(-x) ** 2', '2 ** -1',
         '2 ** 3 ** 2', '(2 ** 3) ** 2', 'a - b - c', 'a - (b - c)', 'a @ b', 'a // b % c', '~x', '1 < 2 < 3', '(1 < 2) < 3', 'x in y',
         'x not in y', 'x is None', '[i for i in y if i]', '{k: v for k, v in z}', '{i for i in y}', '(i for i in y)',
         '[a for b in c for a in b]', 'f"{x}"', 'f"{x!r:>10}"', 'f"a{x}b{{c}}"', "f\"{x['a']}\"", '(y := 5)', '[y := 5]', '"%s" % a',
         '"a" "b"', '"' + 'x' * 120 + '"', '"' + 'x y ' * 60 + '"', '[' + ', '.join(str(i) for i in range(60)) + ']',
         '{' + ', '.join(f"'key{i}': {i}" for i in range(30)) + '}', "'''a\nb'''", 'a << 1 | 2 ^ 3 & 4', '(1).real', '1 .real', '1.0.real',
         '(lambda: 1)()', 'x[(1, 2)]', 'x[1,]', '{1: 2, **a}', 'a if b else (c if d else e)', '(a if b else c) if d else e',
         'not (a in b)', '(-1).real', '1_000', '0x10', '10 ** 100', 'x == (y == z)', r"'\u2028'", r"'\t'", r"'a\\nb'", r"'\r'", r"'\x00'",
         r"r'\d'"]
NOTES = [None, 'int', 'List[int]', 'Dict[str, Tuple[int, ...]]', "'quoted'", 'pd.DataFrame', 'Optional[Callable[[int], str]]']
SPACE = ['{} = {}\n', '{}={}  # note\n', '{} =  {}', '{} = \\\n    {}\n']


def h_assign(c):
    from pyfileconf.assignments.models.statement import AssignmentStatement as A
    expr = c.choose('value', EXPRS)
    note = c.choose('annotation', NOTES)
    space = c.choose('spacing', SPACE if c.tier != 'quick' and note is None else SPACE[:2])
    target = c.choose('target', ['v', 'long_name_1', 'v.attr'])
    src = space.format(target + (f': {note}' if note else ''), expr)
    node = ast.parse(src).body[0]
    want = ast.dump(ast.parse(src))
    st = A.from_ast_assign(ast.parse(src).body[0])
    text = str(st)
    if note is None or target == 'v' or target == 'long_name_1':
        c.check(ast.dump(ast.parse(text)) == want, 'the text of a statement means the same', f'{src!r} -> {text!r}')
    c.check(str(st) == text, 'the text stays the same', f'{src!r}')
    written = A.from_str(src)
    c.check(str(written) == src, 'a statement from text keeps the text', f'{src!r} -> {str(written)!r}')
    for s in (st, written):
        c.check(s.varname.strip() == target, 'the variable is the target', f'{src!r}: {s.varname!r}')
        c.check(ast.dump(s.value) == ast.dump(node.value), 'the value is the source\'s', f'{src!r}')
        c.check((s.annotation is None) == (note is None) and (note is None or ast.dump(s.annotation) == ast.dump(node.annotation)),
                'the annotation is the source\'s', f'{src!r}')
    c.check(st == written and written == st and st == node, 'statements of the same source are equal', f'{src!r}')
    if target != 'v.attr':
        d, n = written.to_default_dict_and_annotation_dict()
        c.check(list(d) == [target] and ast.dump(d[target]) == ast.dump(node.value), 'the default is the value', f'{src!r}')
        c.check(list(n) == ([target] if note else []) and (not note or ast.dump(n[target]) == ast.dump(node.annotation)),
                'the annotation belongs to the variable', f'{src!r}')
        made = A.from_varname_and_ast_value(target, d[target], n.get(target))
        c.check(ast.dump(ast.parse(str(made))) == want, 'a statement made of its parts means the same', f'{src!r} -> {str(made)!r}')


def h_unequal(c):
    from pyfileconf.assignments.models.statement import AssignmentStatement as A
    some = EXPRS if c.tier != 'quick' else EXPRS[8:30] + ['2', '(1)']
    v, e = c.choose('variable', 'ab'), c.choose('value', some)
    w, f = c.choose('other variable', 'ab'), c.choose('other value', some)
    a, b = A.from_str(f'{v} = {e}'), A.from_ast_assign(ast.parse(f'{w} = {f}').body[0])
    same = v == w and ast.dump(ast.parse(e)) == ast.dump(ast.parse(f))
    c.check((a == b) == same and (b == a) == same, 'statements are equal exactly when variable and value are', f'{a} {b}')
    c.check(not (a == f'{v} = {e}') and not a == None, 'a statement is not its text')  # noqa: E711


FILES = ['{}\n{}\n', 'if x:\n    {}\nelse:\n    {}\n', 'try:\n    {}\nexcept ImportError:\n    {}\n', '"""doc"""\nimport os\n{}\nvar = 1\n{}\n',
         'from typing import TYPE_CHECKING\nif TYPE_CHECKING:\n    {}\n\n\nclass K:\n    pass\n\n\n{}\n']
ONE = ['import x', 'import x.y as z', 'import x, y as z', 'from m import x', 'from m import x as y, z', 'from .m import (x,\n        y)',
       'from . import x']


def module_level(tree):
    for n in ast.iter_child_nodes(tree):
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n
            yield from module_level(n)


def h_file(c):
    """all imports and assignments of a file, in order"""
    from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
    import os
    src = c.choose('file', FILES).format(c.choose('first', ONE), c.choose('second', ONE))
    src += c.choose('tail', ['', 'a = 1\nb: int = 2\n', 'a = 1  # import q\n\n\ndef f():\n    return 1\n\n\nc = f()\n', 's = "import q"\n',
                              'def f():\n    import q\n    z = 1\n\n\nclass C:\n    from q import r\n    y = 2\n\n\nd = lambda: 1\n'])
    path = os.path.join(c.scratch(), 'mod.py')
    with open(path, 'w') as fh:
        fh.write(src)
    loader = ImportAssignmentLazyLoader(path)
    tree = ast.parse(src)
    nodes = sorted((n for n in module_level(tree) if isinstance(n, (ast.Import, ast.ImportFrom))), key=lambda n: n.lineno)
    c.check(len(loader.imports) == len(nodes), 'every import of the file is found', f'{src!r}: {loader.imports}')
    for st, n in zip(loader.imports, nodes):
        check_import(c, st, n, src)
    assigns = [n for n in tree.body if isinstance(n, (ast.Assign, ast.AnnAssign))]
    names = [(n.targets[0] if isinstance(n, ast.Assign) else n.target).id for n in assigns]
    c.check([a.varname for a in loader.assigns] == names, 'every assignment of the file is found', f'{src!r}: {loader.assigns}')
    for a, n in zip(loader.assigns, assigns):
        c.check(ast.dump(a.value) == ast.dump(n.value), 'the value is the source\'s', f'{src!r}')


HARNESSES = [
    H('text', h_text, 'any statement of 1..3 (thorough 4) items, each with or without alias, names any of length 1..2 over 3 letters, '
      'repeated items included, alone or in a collection', share=2, isolate=False),
    H('source', h_source, 'any import source of 1..2 (thorough 3) items out of 3, each with no alias or one of 2, absolute and relative, '
      'in 6 layouts, with or without comment, compared to 6 others', share=2, isolate=False),
    H('assign', h_assign, f'{len(EXPRS)} forms of expression times 7 annotations times 3 targets times 2 (4) layouts', isolate=False),
    H('unequal', h_unequal, 'every pair of 24 (all) of these forms and 2 variables', isolate=False),
    H('file', h_file, '5 kinds of file times every pair of 7 imports times 5 tails', isolate=False),
]
ASSUMPTIONS = ['assignments have a single name or attribute as target']
