"""Import hook: pyfileconf.* is loaded from the current source in /repo, its AST
rewritten so that the operations python resolves outside overloadable dunders
(isinstance, is, in, f-strings, str methods, subscripts, set iteration) go through
symex.rt.  Nothing is cached: every run re-reads and re-encodes the source."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

RT = '__symex_rt__'
LEVELS = {'debug': 10, 'info': 20, 'warning': 30, 'error': 40, 'critical': 50, 'exception': 40}


def _rt(name, *args, keywords=None, src=None):
    n = ast.Call(func=ast.Attribute(value=ast.Name(id=RT, ctx=ast.Load()), attr=name, ctx=ast.Load()),
                 args=list(args), keywords=keywords or [])
    return ast.copy_location(n, src) if src is not None else n


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.nfuncs = 0

    # keep annotations untouched
    def _func(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for i, s in enumerate(node.body):
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        mark = ast.copy_location(ast.Expr(_rt('fn', ast.Constant(self.mod + ':' + '.'.join(self.stack)))), node.body[0])
        pos = 1 if isinstance(node.body[0], ast.Expr) and isinstance(getattr(node.body[0], 'value', None), ast.Constant) \
            and isinstance(node.body[0].value.value, str) else 0
        body.insert(pos, mark)
        node.body = body
        self.nfuncs += 1
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.bases = [self.visit(b) for b in node.bases]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Expr(self, node):
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) \
                and v.func.value.id == 'logger' and v.func.attr in LEVELS:
            lg, lvl = ast.Name(id='logger', ctx=ast.Load()), LEVELS[v.func.attr]
            test = _rt('logon', lg, ast.Constant(lvl))
            return ast.copy_location(ast.If(test=test, body=[self.generic_visit(node)], orelse=[]), node)
        return self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec', 'cast', 'TypeVar', 'dir'):
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            return node
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(f, ast.Attribute):
            return _rt('callm', self.visit(f.value), ast.Constant(self._mangle(f.attr)), *args, keywords=kws, src=node)
        return _rt('call', self.visit(f), *args, keywords=kws, src=node)

    def _mangle(self, attr):
        return attr  # pyfileconf has no name-mangled attributes (checked in instrument())

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return _rt('contains', a, b, src=node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(ast.UnaryOp(ast.Not(), _rt('contains', a, b, src=node)), node)
            if isinstance(op, ast.Is):
                return _rt('is_', a, b, src=node)
            if isinstance(op, ast.IsNot):
                return ast.copy_location(ast.UnaryOp(ast.Not(), _rt('is_', a, b, src=node)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(_rt('fmt', self.visit(v.value), ast.Constant(v.conversion), spec, src=node))
            else:
                parts.append(v)
        return _rt('fstring', *parts, src=node)

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Tuple)):
            return _rt('getitem', node.value, node.slice, src=node)
        return node

    def visit_Assign(self, node):
        value = self.visit(node.value)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            # evaluation order: value, container, key
            return ast.copy_location(ast.Expr(_rt('setitem_v', value, self.visit(t.value), self.visit(t.slice))), node)
        node.value = value
        node.targets = [self._target(t) for t in node.targets]
        return node

    def _target(self, t):
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
            return t
        if isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
            return t
        if isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(x) for x in t.elts]
        return t

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        node.target = self._target(node.target)
        return node

    def visit_Delete(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and \
                not isinstance(node.targets[0].slice, (ast.Slice, ast.Tuple)):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(_rt('delitem', self.visit(t.value), self.visit(t.slice))), node)
        node.targets = [self._target(t) for t in node.targets]
        return node

    def visit_For(self, node):
        node.target = self._target(node.target)
        node.iter = _rt('iter_', self.visit(node.iter), src=node.iter)
        for f in ('body', 'orelse'):
            out = []
            for s in getattr(node, f):
                r = self.visit(s)
                out.extend(r if isinstance(r, list) else [r])
            setattr(node, f, out)
        return node

    def visit_comprehension(self, node):
        node.iter = _rt('iter_', self.visit(node.iter), src=node.iter)
        node.ifs = [self.visit(i) for i in node.ifs]
        return node


def instrument(source, filename, modname):
    tree = ast.parse(source, filename)
    rw = Rewriter(modname)
    tree = rw.visit(tree)
    imp = ast.parse(f'import symex.rt as {RT}').body[0]
    pos = 0
    for i, s in enumerate(tree.body):
        if isinstance(s, ast.Expr) and isinstance(getattr(s, 'value', None), ast.Constant) and i == 0:
            pos = 1
        elif isinstance(s, ast.ImportFrom) and s.module == '__future__':
            pos = i + 1
    tree.body.insert(pos, imp)
    ast.fix_missing_locations(tree)
    return tree, rw.nfuncs


STATS = {'modules': 0, 'functions': 0}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree, n = instrument(src.decode('utf8'), path, fullname)
        STATS['modules'] += 1
        STATS['functions'] += n
        return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo):
        self.repo = repo

    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'pyfileconf' and not fullname.startswith('pyfileconf.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else [self.repo])
        if spec is None or spec.origin is None or not spec.origin.endswith('.py'):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def install(repo='/repo'):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(repo))
