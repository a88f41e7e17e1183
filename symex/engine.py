"""Path-exploring symbolic execution engine (bounded), z3 as the deciding solver.

One `Engine` object executes one path of a harness.  Branches on symbolic
booleans are decided with the solver; every feasible alternative is handed back
to the driver as a decision prefix to be executed later, so a finished run has
covered every feasible path of the harness within its stated bounds.
"""
import sys
import time

import z3


class PathAbort(BaseException):
    """The path is infeasible / was cut (never an outcome of the code under test)."""


class Unsupported(BaseException):
    """The engine met something it cannot represent; the path is inconclusive."""


class PathTimeout(BaseException):
    pass


ENGINE = None  # the engine of the running path (None: concrete replay)

# ---------------------------------------------------------------------------
# value sort:  every configuration value a user can write
# ---------------------------------------------------------------------------
Val = z3.Datatype('Val')
Val.declare('VNone')
Val.declare('VBool', ('b', z3.BoolSort()))
Val.declare('VInt', ('i', z3.IntSort()))
Val.declare('VStr', ('s', z3.IntSort()))     # atom; 0 is the empty string
Val.declare('VList', ('l', z3.IntSort()))    # atom; 0 is the empty list
Val.declare('VDict', ('d', z3.IntSort()))    # atom; 0 is the empty dict
Val.declare('VObj', ('o', z3.IntSort()))     # opaque object compared by identity
Val = Val.create()

KINDS = {
    'none': Val.is_VNone, 'bool': Val.is_VBool, 'int': Val.is_VInt, 'str': Val.is_VStr,
    'list': Val.is_VList, 'dict': Val.is_VDict, 'obj': Val.is_VObj,
}
CODE = {'str': Val.s, 'list': Val.l, 'dict': Val.d, 'obj': Val.o}
MAXCODE = {'str': 3, 'list': 2, 'dict': 2, 'obj': 2}


class Opaque:
    """Concrete counterpart of VObj(o): plain object, identity comparison."""

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f'<Opaque {self.code}>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


_OPAQUES = {}


def opaque(code):
    if code not in _OPAQUES:
        _OPAQUES[code] = Opaque(code)
    return _OPAQUES[code]


STR_ATOMS = ['', 'x', 'yy', 'a']
PYTYPE = {'none': type(None), 'bool': bool, 'int': int, 'str': str, 'list': list, 'dict': dict, 'obj': Opaque}


def concrete_of(kind, code):
    if kind == 'none':
        return None
    if kind in ('bool', 'int'):
        return code
    if kind == 'str':
        return STR_ATOMS[code] if 0 <= code < len(STR_ATOMS) else f's{code}'
    if kind == 'list':
        return [] if code == 0 else [f'e{code}', code]
    if kind == 'dict':
        return {} if code == 0 else {f'k{code}': code}
    if kind == 'obj':
        return opaque(code)
    raise AssertionError(kind)


def z3_of(pyval):
    """Exact z3 term of a concrete python value, or None if it has no image."""
    if pyval is None:
        return Val.VNone
    t = type(pyval)
    if t is bool:
        return Val.VBool(z3.BoolVal(pyval))
    if t is int:
        return Val.VInt(z3.IntVal(pyval))
    if t is str:
        if pyval in STR_ATOMS:
            return Val.VStr(z3.IntVal(STR_ATOMS.index(pyval)))
        return None
    if t is list:
        for c in range(MAXCODE['list'] + 1):
            if pyval == concrete_of('list', c):
                return Val.VList(z3.IntVal(c))
        return None
    if t is dict:
        for c in range(MAXCODE['dict'] + 1):
            if pyval == concrete_of('dict', c):
                return Val.VDict(z3.IntVal(c))
        return None
    if t is Opaque:
        return Val.VObj(z3.IntVal(pyval.code))
    return None


def model_to_py(m, term):
    v = m.eval(term, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if v.sort() == Val:
        name = v.decl().name()
        kind = {'VNone': 'none', 'VBool': 'bool', 'VInt': 'int', 'VStr': 'str', 'VList': 'list',
                'VDict': 'dict', 'VObj': 'obj'}[name]
        if kind == 'none':
            return None
        arg = v.arg(0)
        code = z3.is_true(arg) if kind == 'bool' else arg.as_long()
        return concrete_of(kind, code)
    raise Unsupported(f'model value {v}')


# ---------------------------------------------------------------------------
class Engine:
    def __init__(self, prefix=(), seed=0):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []        # (kind, value, hash)
        self.alternatives = []     # prefixes still to explore
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', 20000)
        self.vars = {}             # name -> (z3 term, kind)
        self.queries = 0
        self.solver_time = 0.0
        self.branches = 0
        self.forks = 0
        self.concretised = 0
        self.capped = 0
        self.unknown = 0
        self.checks = 0
        self.discharged = 0
        self.functions = set()
        self.fresh = 0
        self.notes = []
        self.symkeys = False
        self.set_perm = False
        self._last_model = None

    # -- solver ---------------------------------------------------------------
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.solver_time += time.perf_counter() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknown += 1
        return r

    def add(self, cond):
        self.solver.add(cond)

    # -- decisions --------------------------------------------------------------
    def branch(self, cond):
        """Decide a symbolic condition; returns a python bool."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        h = cond.hash()
        self.branches += 1
        if self.pos < len(self.prefix):
            kind, val, ph = self.prefix[self.pos]
            if kind not in ('b', 'f') or ph != h:
                raise Unsupported(f'nondeterministic replay at decision {self.pos}: {kind} {cond}')
            self.pos += 1
            if kind == 'b':
                self.solver.add(cond if val else z3.Not(cond))
            self.decisions.append((kind, val, h))
            return val
        self.pos += 1
        rt = self._check(cond)
        if rt == z3.unsat:
            self.decisions.append(('f', False, h))
            return False
        rf = self._check(z3.Not(cond))
        if rf == z3.unsat:
            if rt == z3.unknown:
                raise Unsupported('solver returned unknown')
            self.decisions.append(('f', True, h))
            return True
        if rt == z3.unknown or rf == z3.unknown:
            raise Unsupported('solver returned unknown')
        self.alternatives.append(self.decisions + [('b', False, h)])
        self.forks += 1
        self.decisions.append(('b', True, h))
        self.solver.add(cond)
        return True

    def choose(self, n, name='choice', term=None, cond=None):
        """n-way fork over a fresh solver variable; cond(i) may exclude values."""
        if term is None:
            self.fresh += 1
            term = z3.Int(f'{name}!{self.fresh}')
            self.solver.add(term >= 0, term < n)
        if n == 1:
            self.solver.add(term == 0)
            return 0
        if self.pos < len(self.prefix):
            kind, val, ph = self.prefix[self.pos]
            if kind != 'c' or ph != n:
                raise Unsupported(f'nondeterministic replay at choice {self.pos}')
        else:
            val = 0
            for i in range(n - 1, 0, -1):
                self.alternatives.append(self.decisions + [('c', i, n)])
                self.forks += 1
        self.pos += 1
        self.branches += 1
        self.decisions.append(('c', val, n))
        self.solver.add(term == val)
        return val

    def concretize(self, term, cap=8, why=''):
        """Enumerate the feasible values of term by forking; exact unless capped."""
        self.concretised += 1
        term = z3.simplify(term)
        for _ in range(cap):
            s = _const_of(term)
            if s is not None:
                return s
            if self.pos < len(self.prefix):
                # value is recorded in the prefix as a ('k', python-literal) note
                kind, val, ph = self.prefix[self.pos]
                if kind != 'k':
                    raise Unsupported('nondeterministic replay at concretisation')
                self.pos += 1
                self.decisions.append((kind, val, ph))
                lit, taken = val
                eq = term == lit
                self.solver.add(eq if taken else z3.Not(eq))
                if taken:
                    return lit
                continue
            r = self._check()
            if r != z3.sat:
                raise Unsupported('solver returned %s at concretisation' % r)
            m = self.solver.model()
            v = m.eval(term, model_completion=True)
            lit = _const_of(v)
            if lit is None:
                raise Unsupported(f'cannot read value {v}')
            self.pos += 1
            self.branches += 1
            if self._check(term != lit) != z3.unsat:
                self.alternatives.append(self.decisions + [('k', (lit, False), 0)])
                self.forks += 1
            self.decisions.append(('k', (lit, True), 0))
            self.solver.add(term == lit)
            return lit
        self.capped += 1
        raise Unsupported(f'more than {cap} values at a concretisation ({why})')

    # -- symbols -----------------------------------------------------------------
    def declare(self, name, sort, kind):
        if name in self.vars:
            raise AssertionError(f'duplicate symbol {name}')
        t = z3.Const(name, sort)
        self.vars[name] = (t, kind)
        return t

    def model(self, *extra):
        r = self._check(*extra)
        if r != z3.sat:
            return None
        return self.solver.model()


def _const_of(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def engine():
    if ENGINE is None:
        raise RuntimeError('no symbolic engine active')
    return ENGINE


# ---------------------------------------------------------------------------
# proxies
# ---------------------------------------------------------------------------
class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().branch(self.t)

    def __eq__(self, other):
        o = as_bool_term(other)
        if o is None:
            return bool(self) == other
        return SymBool(self.t == o)

    def __ne__(self, other):
        r = self.__eq__(other)
        return SymBool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __and__(self, o):
        return SymBool(z3.And(self.t, as_bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.t, as_bool_term(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __repr__(self):
        return '<symbool>'


def as_bool_term(x):
    if isinstance(x, SymBool):
        return x.t
    if x is True or x is False:
        return z3.BoolVal(x)
    return None


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def _o(self, other):
        if isinstance(other, SymInt):
            return other.t
        if type(other) is int:
            return z3.IntVal(other)
        if type(other) is bool:
            return z3.IntVal(int(other))
        return None

    def _cmp(self, other, f):
        o = self._o(other)
        if o is None:
            return NotImplemented
        return SymBool(f(self.t, o))

    def __eq__(self, other):
        o = self._o(other)
        if o is None:
            return False
        return SymBool(self.t == o)

    def __ne__(self, other):
        o = self._o(other)
        if o is None:
            return True
        return SymBool(self.t != o)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, other, f):
        o = self._o(other)
        if o is None:
            return NotImplemented
        return SymInt(z3.simplify(f(self.t, o)))

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.t)

    def __bool__(self):
        return engine().branch(self.t != 0)

    def __index__(self):
        return engine().concretize(self.t, cap=16, why='int index')

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return '<symint>'


def val_truth(t):
    return z3.And(
        z3.Not(Val.is_VNone(t)),
        z3.Implies(Val.is_VBool(t), Val.b(t)),
        z3.Implies(Val.is_VInt(t), Val.i(t) != 0),
        z3.Implies(Val.is_VStr(t), Val.s(t) != 0),
        z3.Implies(Val.is_VList(t), Val.l(t) != 0),
        z3.Implies(Val.is_VDict(t), Val.d(t) != 0),
    )


def _num(t):
    return z3.If(Val.is_VBool(t), z3.If(Val.b(t), z3.IntVal(1), z3.IntVal(0)), Val.i(t))


_XA, _XB = z3.Const('!xa', Val), z3.Const('!xb', Val)


def _val_eq(a, b):
    isn = lambda t: z3.Or(Val.is_VBool(t), Val.is_VInt(t))
    return z3.Or(a == b, z3.And(isn(a), isn(b), _num(a) == _num(b)))


_EQ = _val_eq(_XA, _XB)
_DOM = {}


def val_eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    return z3.substitute(_EQ, (_XA, a), (_XB, b))


def val_domain(t, kinds):
    """the values a symbol of these kinds ranges over"""
    d = _DOM.get(kinds)
    if d is None:
        cs = [z3.Or([KINDS[k](_XA) for k in kinds])]
        for k, acc in CODE.items():
            if k in kinds:
                cs.append(z3.Implies(KINDS[k](_XA), z3.And(acc(_XA) >= 0, acc(_XA) <= MAXCODE[k])))
        d = _DOM[kinds] = z3.And(cs)
    return z3.substitute(d, (_XA, t))


val_domain(_XB, tuple(KINDS))
val_domain(_XB, ('none', 'int', 'obj'))


class SymVal(Sym):
    """An arbitrary python configuration value."""
    __slots__ = ('t', 'kinds', 'name', '_conc')

    def __init__(self, t, kinds, name):
        self.t = t
        self.kinds = kinds
        self.name = name
        self._conc = None   # concrete object, once a container op forced it

    # concrete form -------------------------------------------------------
    def _kind(self):
        e = engine()
        for k in self.kinds[:-1]:
            if e.branch(KINDS[k](self.t)):
                return k
        return self.kinds[-1]

    def concrete(self):
        if self._conc is not None:
            return self._conc[0]
        k = self._kind()
        e = engine()
        if k == 'none':
            v = None
        elif k == 'bool':
            v = e.branch(Val.b(self.t))
        elif k == 'int':
            v = e.concretize(Val.i(self.t), cap=8, why='int value')
        else:
            v = concrete_of(k, e.concretize(CODE[k](self.t), cap=8, why=k))
        self._conc = (v,)
        return v

    # observations ----------------------------------------------------------
    def __bool__(self):
        if self._conc is not None:
            return bool(self._conc[0])
        return engine().branch(val_truth(self.t))

    def eq_term(self, other):
        if isinstance(other, SymVal):
            return val_eq(self.t, other.t)
        if isinstance(other, SymBool):
            return val_eq(self.t, Val.VBool(other.t))
        if isinstance(other, SymInt):
            return val_eq(self.t, Val.VInt(other.t))
        o = z3_of(other)
        if o is None:
            return z3.BoolVal(False)
        return val_eq(self.t, o)

    def __eq__(self, other):
        if self._conc is not None:
            return self._conc[0] == other
        if not isinstance(other, Sym) and type(other) not in (bool, int, str, list, dict, type(None), Opaque):
            # let the other operand decide (ndarray, ItemView, ...)
            return NotImplemented
        return SymBool(z3.simplify(self.eq_term(other)))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        if isinstance(r, SymBool):
            return SymBool(z3.Not(r.t))
        return not r

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return f'<symval {self.name}>'

    def __str__(self):
        return f'<symval {self.name}>'

    def __format__(self, spec):
        return f'<symval {self.name}>'

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if name in ('_is_selector', '_is_item_view', '_pyfileconf_update_', 'section_path_str',
                    '_section_path_str', 'output_name', 'name'):
            raise AttributeError(name)
        return getattr(self.concrete(), name)

    # container / arithmetic protocol: act on the concrete value
    def __iter__(self): return iter(self.concrete())
    def __len__(self): return len(self.concrete())
    def __contains__(self, x): return x in self.concrete()
    def __getitem__(self, k): return self.concrete()[k]
    def __setitem__(self, k, v): self.concrete()[k] = v
    def __delitem__(self, k): del self.concrete()[k]
    def __add__(self, o): return self.concrete() + o
    def __radd__(self, o): return o + self.concrete()
    def __sub__(self, o): return self.concrete() - o
    def __mul__(self, o): return self.concrete() * o
    def __lt__(self, o): return self.concrete() < o
    def __le__(self, o): return self.concrete() <= o
    def __gt__(self, o): return self.concrete() > o
    def __ge__(self, o): return self.concrete() >= o
    def __call__(self, *a, **k): return self.concrete()(*a, **k)
    def __index__(self):
        import operator
        return operator.index(self.concrete())
    def __int__(self): return int(self.concrete())
    def keys(self): return self.concrete().keys()


def is_sym(x):
    return isinstance(x, Sym)


# ---------------------------------------------------------------------------
# generic symbolic equality used by the oracles
# ---------------------------------------------------------------------------
def eq_formula(a, b):
    """z3 Bool (or python bool) for python equality of two structures."""
    from symex.symstr import SymStr
    if a is b and type(a) in (SymVal, str, int, bool, type(None), Opaque):
        return True
    if isinstance(a, SymVal) and a._conc is not None:
        a = a._conc[0]
    if isinstance(b, SymVal) and b._conc is not None:
        b = b._conc[0]
    if isinstance(a, SymVal):
        return z3.simplify(a.eq_term(b)) if not isinstance(b, SymStr) else b.eq_term(a.concrete())
    if isinstance(b, SymVal):
        return eq_formula(b, a)
    if isinstance(a, SymStr):
        return a.eq_term(b)
    if isinstance(b, SymStr):
        return b.eq_term(a)
    if isinstance(a, (SymBool, SymInt)):
        r = a == b
        return r.t if isinstance(r, SymBool) else bool(r)
    if isinstance(b, (SymBool, SymInt)):
        return eq_formula(b, a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            return False
        return conj([eq_formula(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        return conj([eq_formula(a[k], b[k]) for k in a])
    r = a == b
    if isinstance(r, SymBool):
        return r.t
    return bool(r)


def conj(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return z3.simplify(z3.And(out))


def lift(b):
    if isinstance(b, SymBool):
        return b.t
    if z3.is_expr(b):
        return b
    return z3.BoolVal(bool(b))
