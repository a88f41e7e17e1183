"""C16: merging imports and assignments loses nothing and duplicates nothing."""
import ast
import os
import itertools

from symex.driver import H

NAMES = 'xyz'


def cls():
    from pyfileconf.imports.models.statements.container import ImportStatementContainer
    from pyfileconf.imports.models.statements.module import ModuleImportStatement
    from pyfileconf.imports.models.statements.obj import ObjectImportStatement
    from pyfileconf.imports.models.statements.rename import RenameStatement, RenameStatementCollection
    return ImportStatementContainer, ModuleImportStatement, ObjectImportStatement, RenameStatement, RenameStatementCollection


class St:
    """a statement next to the bindings it means: [(bound name, module, object or None)]"""

    def __init__(self, c, tag, maxitems, pos=False, modules=('m', 'n'), dup=False):
        _, M, O, R, RC = cls()
        kind = c.choose(f'{tag} kind', ['object', 'module'])
        n = c.choose(f'{tag} items', list(range(1, maxitems + 1)))
        self.position = c.choose(f'{tag} position', ['begin', None]) if pos else None
        kw = {'preferred_position': self.position} if self.position else {}
        items, renames, self.binds = [], [], []
        module = c.choose(f'{tag} module', modules) if kind == 'object' else None
        for i in range(n):
            name = c.str(f'{tag} item{i}', 1, 1, NAMES)
            as_name = name
            items.append(name)
            if c.choose(f'{tag} renamed{i}', [False, True]):
                as_name = c.str(f'{tag} name{i}', 1, 1, NAMES)
                c.assume(as_name != name)
                renames.append(R(name, as_name))
            for other in self.binds:
                # one name for one item in one statement
                if not dup:
                    c.assume(as_name != other[0])
                c.assume(name != (other[1] if kind == 'module' else other[2]))
            self.binds.append((as_name, module, name) if kind == 'object' else (as_name, name, None))
        self.st = O(items, module, RC(renames), **kw) if kind == 'object' else M(items, RC(renames), **kw)
        self.before = self.snapshot()

    def snapshot(self):
        s = self.st
        items = s.objs if hasattr(s, 'objs') else s.modules
        return list(items), [(r.item, r.new_name) for r in s.renames], s.module if hasattr(s, 'objs') else None


def bind_eq(a, b):
    return a[0] == b[0] and (a[1] is None) == (b[1] is None) and (a[2] is None) == (b[2] is None) and a[1] == b[1] \
        and (a[2] is None or a[2] == b[2])


def provided(bind, sts):
    return any(bind_eq(bind, b) for s in sts for b in s.binds)


def h_merge(c):
    """imports added if missing, one after another"""
    C = cls()[0]
    n = c.choose('existing', [0, 1, 2] if c.tier == 'quick' else [0, 1, 2, 3])
    small = n == 2 and c.tier == 'quick' or n == 3
    sts = [St(c, f's{i}', 1 if small else 2) for i in range(n)]
    if c.choose('order', ['given', 'comment between']) != 'given':
        from pyfileconf.imports.models.statements.comment import Comment
        items = [s.st for s in sts] + [Comment(' note')]
    else:
        items = [s.st for s in sts]
    box = C(list(items))
    new = St(c, 'new', 2 if n < 2 else 1, pos=True)
    box.add_if_missing(new.st)
    got = list(box.items)
    old = [x for x in got if x is not new.st]
    c.check(len(old) == len(items) and all(a is b for a, b in zip(old, items)), 'the existing statements stay, in order', lambda: str(box))
    added = len(got) - len(old)
    c.check(added <= 1, 'nothing is added twice', lambda: str(box))
    if added:
        c.check(not any(all(any(bind_eq(b, x) for x in s.binds) for b in new.binds) for s in sts),
                'nothing is added that a statement already provides', lambda: f'{new.st} to {C(items)}')
        c.check(got[0 if new.position == 'begin' else -1] is new.st, 'the statement is where it prefers to be', lambda: str(box))
    else:
        for b in new.binds:
            c.check(provided(b, sts), 'every added name is available', lambda: f'{new.st} to {C(items)}')
    for s in sts + [new]:
        now, was = s.snapshot(), s.before
        c.check(len(now[0]) == len(was[0]) and len(now[1]) == len(was[1]), 'statements are not changed')
        for a, b in zip(now[0], was[0]):
            c.check(a == b, 'statements are not changed')
        for a, b in zip(now[1], was[1]):
            c.check(a[0] == b[0] and a[1] == b[1], 'statements are not changed')
        c.check(now[2] == was[2], 'statements are not changed')
    box.add_if_missing(new.st)
    c.check(len(box.items) == len(got), 'adding again changes nothing', lambda: str(box))
    copy = box.copy()
    c.check(all(c.text(a) == c.text(b) for a, b in zip(copy, box)) and len(copy) == len(box), 'a copy has the same statements')
    copy.append(new.st)
    c.check(len(box.items) == len(got), 'a copy is independent')


def h_lookup(c):
    """the import that provides a name is the last one of that name"""
    from pyfileconf.exceptions.imports import NoImportMatchingNameException
    C = cls()[0]
    n = c.choose('existing', [0, 1, 2, 3] if c.tier == 'quick' else [1, 2, 3])
    sts = [St(c, f's{i}', (2 if n < 3 or c.tier != 'quick' else 1), modules=('m',) if n > 1 else ('m', 'n'), dup=True) for i in range(n)]
    box = C([s.st for s in sts])
    name = c.str('lookup', 1, 1, NAMES)
    want = None
    for s in sts:
        for b in s.binds:
            if b[0] == name:
                want = b
    try:
        got = box.get_import_for_module_or_obj_name(name)
    except NoImportMatchingNameException:
        c.check(want is None, 'a name that is imported is found', lambda: f'{name!r} in {box}')
        return
    c.check(want is not None and got is not None, 'a name that is not imported is an error', lambda: f'{name!r} in {box}: {got}')
    binds = meaning(got)
    c.check(len(binds) == 1 and bind_eq(binds[0], want), 'the import found is the last one of the name and only that',
            lambda: f'{name!r} in {box}: {got}')


def meaning(st):
    """bindings of a statement from its attributes"""
    items = st.objs if hasattr(st, 'objs') else st.modules
    out = []
    for item in items:
        new = item
        for r in st.renames:
            if r.item == item:
                new = r.new_name
        out.append((new, st.module, item) if hasattr(st, 'objs') else (new, item, None))
    return out


MODS = ['a', 'a.b', 'a.b.x', 'ab', 'b', 'b.a']


def h_dotted(c):
    """modules of packages are imported under the name of the package"""
    from pyfileconf.exceptions.imports import NoImportMatchingNameException
    C, M, O, R, RC = cls()
    box, bound, want = C([]), {}, None
    for i in range(c.choose('statements', [1, 2, 3])):
        kind = c.choose(f'kind{i}', ['import', 'import as', 'from'] if i or c.tier != 'quick' else ['import', 'from'])
        if kind == 'import':
            mods = [c.choose(f'module{i}', MODS)]
            if i == 0:
                second = c.choose('second', [None] + MODS[:4])
                mods += [second] * (second is not None and second != mods[0])
            box.append(M(mods))
            for m in mods:
                root = m.split('.')[0]
                had = bound.get(root)
                bound[root] = (had if isinstance(had, list) else []) + [m]
        elif kind == 'import as':
            m = c.choose(f'module{i}', MODS[1:3])
            box.append(M([m], RC([R(m, 'a')])))
            bound['a'] = ('as', m)
        else:
            box.append(O(['a'], 'b'))
            bound['a'] = ('from', 'b')
    name = c.choose('lookup', ['a', 'b', 'ab', 'x'])
    want = bound.get(name)
    try:
        got = box.get_import_for_module_or_obj_name(name)
    except NoImportMatchingNameException:
        c.check(want is None, 'a name that is imported is found', lambda: f'{name!r} in {box}')
        return
    c.check(want is not None, 'a name that is not imported is an error', lambda: f'{name!r} in {box}: {got}')
    if isinstance(want, list):
        c.check(hasattr(got, 'modules') and not list(got.renames) and set(got.modules) == set(want),
                'all modules imported under the name are imported', lambda: f'{name!r} in {box}: {got}')
    elif want[0] == 'as':
        c.check(str(got) == f'import {want[1]} as a', 'the import found is the last one of the name', lambda: f'{name!r} in {box}: {got}')
    else:
        c.check(str(got) == 'from b import a', 'the import found is the last one of the name', lambda: f'{name!r} in {box}: {got}')


EXPRS = ['1', '(1, 2)', "'x'", 'q.r', 'None', '-2', 'q[1] + 2']


def setup_assigns(c):
    from harness.common import World
    w = World(c, '')
    w.project('p', '{}')
    w.manager('p', load=False)
    return os.path.join(w.root, 'p', 'defaults')


def h_assigns(c, folder):
    """configuration files get exactly the assignments they lack"""
    from pyfileconf.pipelines.models.config import FunctionConfig

    def node(src):
        return ast.parse(src).body[0].value

    full = c.tier != 'quick'
    existing, body = [], []
    for i in range(c.choose('existing', [0, 1, 2])):
        name = c.choose(f'name{i}', ['a', 'b', 's', 'zzz'])
        c.assume(name not in dict(existing))
        expr = c.choose(f'value{i}', EXPRS[:3]) if full else EXPRS[i]
        existing.append((name, expr))
        style = c.choose(f'style{i}', ['{} = {}', '{}: int = {}', '{}={}  # note'][:3 if full or i == 0 else 1])
        body.append(style.format(name, expr))
    args = []
    for name in c.choose('args', [[], ['a'], ['b', 'a'], ['a', 'b', 'd']]):
        args.append((name, c.choose(f'default {name}', EXPRS if name == 'a' else EXPRS[:2 if full else 1])))
    notes = {n: ast.Name('int', ast.Load()) for n, _ in args if n == 'a' and c.choose('annotated', [False, True])}
    imported = c.choose('imported', [False, True])
    conf = FunctionConfig({n: node(e) for n, e in args}, name='f', annotations=notes)
    path = os.path.join(folder, f'f{os.getpid()}.py')
    if os.path.exists(path):
        os.remove(path)
    old = ('from pyfileconf import Selector\n' if imported else '') + ''.join(line + '\n' for line in body)
    if old:
        with open(path, 'w') as f:
            f.write(old)
    conf.to_file(path)
    with open(path) as f:
        text = f.read()
    stmts = ast.parse(text).body
    c.check([ast.unparse(x) for x in stmts if isinstance(x, ast.ImportFrom)] == ['from pyfileconf import Selector'] and isinstance(
        stmts[0], ast.ImportFrom), 'exactly the missing imports are added, first', f'{text!r}')
    stmts = stmts[1:]
    got = [(x.targets[0] if isinstance(x, ast.Assign) else x.target).id for x in stmts]
    vals = {(x.targets[0] if isinstance(x, ast.Assign) else x.target).id: ast.dump(x.value) for x in stmts}
    have = dict(existing)
    new_begin = [n for n in ['s'] if n not in have]
    new_end = [n for n, _ in args if n not in have and n not in new_begin]
    c.check(got == new_begin + [n for n, _ in existing] + new_end, 'exactly the missing assignments are added, in order', f'{text!r}')
    want = {**dict(args), 's': 'Selector()', **have}
    for n in got:
        c.check(vals[n] == ast.dump(node(want[n])), 'existing values stay and added ones are the defaults', f'{n} in {text!r}')
    for x in stmts:
        if isinstance(x, ast.AnnAssign) and x.target.id not in have:
            c.check(x.target.id in notes, 'added assignments have their annotations', f'{text!r}')
    for line in body:
        c.check(line in text.splitlines(), 'the lines of the file stay', f'{line!r} in {text!r}')


def h_container(c):
    """statements from dictionaries of values and back"""
    from pyfileconf.assignments.models.container import AssignmentStatementContainer
    from pyfileconf.assignments.models.statement import AssignmentStatement
    names = c.choose('names', list(itertools.permutations(['a', 'b', 'c'], 2)) + [(), ('a',)])
    vals = {n: ast.parse(c.choose(f'value {n}', EXPRS if c.tier != 'quick' or n == 'a' else EXPRS[:2])).body[0].value for n in names}
    notes = {n: ast.Name('int', ast.Load()) for n in names if c.choose(f'annotated {n}', [False, True])}
    box = AssignmentStatementContainer.from_dict_of_varnames_and_ast(vals, notes)
    c.check([s.varname for s in box] == list(names), 'one statement per variable, in order')
    d, n = box.to_default_dict_and_annotation_dict()
    c.check(list(d) == list(names) and all(d[k] is vals[k] for k in names), 'the values are those given')
    c.check(set(n) == set(notes) and all(n[k] is notes[k] for k in n), 'the annotations are those given')
    for k in 'abc':
        c.check(box.contains_varname(k) == (k in names), 'variables are known by name')
    new = c.choose('new', ['a', 'b', 'c'])
    st = AssignmentStatement.from_str(f'{new} = 5', preferred_position=c.choose('position', ['begin', None]))
    before = [str(s) for s in box]
    box.add_if_missing(st)
    after = [str(s) for s in box]
    c.check(after == ([str(st)] + before if st.prefer_beginning else before + [str(st)]), 'a missing assignment is added at its place', repr(after))
    box.add_if_missing(st)
    c.check([str(s) for s in box] == after, 'adding again changes nothing')


HARNESSES = [
    H('merge', h_merge, 'a collection of 0..2 (thorough 3) import statements of both kinds with 1..2 items each (one when there are '
      'as many as possible), with and without alias, over 2 modules and any names of 3, and a comment or not, and one statement '
      'of the same kind added twice', share=3, isolate=False),
    H('lookup', h_lookup, 'a collection of 0..3 such statements, any name', share=3, isolate=False),
    H('dotted', h_dotted, '1..3 imports of 6 packages and modules, some under the name of the package', isolate=False),
    H('assigns', h_assigns, '0..2 existing assignments in 3 styles (quick: the second in one) over 4 names, 0..3 arguments with 7 kinds of default, annotated or not, '
      'with and without the import that every file gets', isolate=False, setup=setup_assigns),
    H('container', h_container, 'up to 2 variables with 7 (quick: other than a 2) kinds of values each, and one assignment added twice', isolate=False),
]
ASSUMPTIONS = ['within one statement every item is imported once, under one name, and an alias differs from the item',
               'a name bound by two statements is provided by both (the collection does not decide which wins, lookups take the last)']
