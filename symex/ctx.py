"""Harness context.  The same harness source runs in two modes:

* symbolic: inputs are solver variables, `check` asks the solver whether the
  assertion can fail under the path condition;
* concrete (replay): inputs come from a recorded assignment, the code under test
  is the plain, uninstrumented one, and `check` is an ordinary assertion.
"""
import os
import shutil
import sys
import tempfile

import z3

from symex import engine as E
from symex import symstr as S


class Violation(BaseException):
    def __init__(self, label, detail, assignment=None, known=None):
        super().__init__(label)
        self.label = label
        self.detail = detail
        self.assignment = assignment
        self.known = known


class PathEnd(BaseException):
    pass


def enc(v):
    """JSON encoding of a concrete input value"""
    if isinstance(v, E.Opaque):
        return {'__opaque__': v.code}
    if isinstance(v, (list, dict)):
        return {'__json__': v}
    return v


def dec(v):
    if isinstance(v, dict):
        if '__opaque__' in v:
            return E.opaque(v['__opaque__'])
        import copy
        return copy.deepcopy(v['__json__'])
    return v


class Ctx:
    def __init__(self, assignment=None, known=(), tier='quick'):
        self.symbolic = assignment is None
        self.assign = {} if assignment is None else dict(assignment)
        self.used = {}
        self.order = []
        self.syms = {}
        self.known = set(known)
        self.regions = []
        self.labels = {}
        self.obs = []
        self.steps = []
        self.tier = tier
        self._dirs = []
        self._closers = []
        self.perm_used = False

    # -- naming ---------------------------------------------------------------
    def _name(self, name):
        n = self.used.get(name, 0)
        self.used[name] = n + 1
        return name if n == 0 else f'{name}#{n}'

    # -- inputs ---------------------------------------------------------------
    def choose(self, name, options):
        """An arbitrary element of a finite list (a solver integer, forked)."""
        options = list(options)
        name = self._name(name)
        if not self.symbolic:
            i = self.assign.get(name, 0)
            i = i if isinstance(i, int) and 0 <= i < len(options) else 0
        else:
            e = E.ENGINE
            t = e.declare(name, z3.IntSort(), 'choice')
            e.add(z3.And(t >= 0, t < len(options)))
            i = e.choose(len(options), term=t)
            self.assign[name] = i
        self.order.append(name)
        self.steps.append(f'{name}={_short(options[i])}')
        return options[i]

    def flag(self, name):
        """An arbitrary boolean."""
        name = self._name(name)
        self.order.append(name)
        if not self.symbolic:
            return bool(self.assign.get(name, False))
        t = E.ENGINE.declare(name, z3.BoolSort(), 'bool')
        self.syms[name] = t
        return E.SymBool(t)

    def int(self, name, lo, hi):
        name = self._name(name)
        self.order.append(name)
        if not self.symbolic:
            return int(self.assign.get(name, lo))
        t = E.ENGINE.declare(name, z3.IntSort(), 'int')
        E.ENGINE.add(z3.And(t >= lo, t <= hi))
        self.syms[name] = t
        return E.SymInt(t)

    def val(self, name, kinds=('none', 'bool', 'int', 'str', 'list', 'dict', 'obj')):
        """An arbitrary configuration value."""
        name = self._name(name)
        self.order.append(name)
        kinds = tuple(kinds)
        if not self.symbolic:
            if name in self.assign:
                return dec(self.assign[name])
            return {'none': None, 'bool': False, 'int': 0, 'str': '', 'list': [], 'dict': {}, 'obj': E.opaque(0)}[kinds[0]]
        e = E.ENGINE
        t = e.declare(name, E.Val, 'val')
        e.add(E.val_domain(t, kinds))
        self.syms[name] = t
        return E.SymVal(t, kinds, name)

    def str(self, name, minlen, maxlen, alphabet):
        """An arbitrary string over a finite alphabet, length minlen..maxlen."""
        name = self._name(name)
        self.order.append(name)
        if not self.symbolic:
            return self.assign.get(name, alphabet[0] * minlen)
        e = E.ENGINE
        n = minlen if minlen == maxlen else minlen + e.choose(maxlen - minlen + 1, name + '.len')
        chars = []
        for i in range(n):
            c = e.declare(f'{name}[{i}]', z3.IntSort(), 'char')
            e.add(z3.Or([c == ord(a) for a in alphabet]))
            chars.append(c)
        self.syms[name] = chars
        return S.mk(chars)

    def assume(self, cond):
        if not self.symbolic:
            if not cond:
                raise PathEnd('assumption')
            return
        if cond is True:
            return
        if cond is False:
            raise E.PathAbort('assumption')
        f = E.lift(cond)
        E.ENGINE.add(f)
        if E.ENGINE.pos >= len(E.ENGINE.prefix) and E.ENGINE._check() != z3.sat:
            raise E.PathAbort('assumption')

    # -- assertions -------------------------------------------------------------
    def region(self, kf, cond=True):
        """Declares the inputs/history on which a recorded finding shows."""
        if kf in self.known:
            self.regions.append((kf, cond))

    def clear_regions(self):
        self.regions = []

    def check(self, cond, label, detail=''):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not self.symbolic:
            if not cond:
                raise Violation(label, _call(detail), known=self._known_concrete())
            return
        e = E.ENGINE
        e.checks += 1
        if isinstance(cond, (E.SymVal,)):
            cond = bool(cond)
        if cond is True:
            e.discharged += 1
            return
        f = z3.BoolVal(False) if cond is False else E.lift(cond)
        notf = z3.Not(f)
        regs = [E.lift(c) for _, c in self.regions]
        outside = z3.And([notf] + [z3.Not(r) for r in regs]) if regs else notf
        r = e._check(outside)
        if r == z3.sat:
            raise Violation(label, _call(detail), self.assignment(e.solver.model()))
        if r == z3.unknown:
            raise E.Unsupported('solver unknown on assertion ' + label)
        e.discharged += 1
        if regs:
            for kf, c in self.regions:
                if e._check(z3.And(notf, E.lift(c))) == z3.sat:
                    raise Violation(label, _call(detail), self.assignment(e.solver.model()), known=kf)
        if not z3.is_true(z3.simplify(f)):
            e.add(f)

    def _known_concrete(self):
        for kf, c in self.regions:
            if bool(c):
                return kf
        return None

    def eq(self, actual, expected, label, detail=''):
        self.observe(label, actual)
        if not self.symbolic:
            f = _pyeq(actual, expected)
        else:
            f = E.eq_formula(actual, expected)
        self.check(f, label, lambda: f'expected {_show(expected)}, got {_show(actual)} {_call(detail)}')

    def one_of(self, actual, options, label, detail=''):
        """equal to at least one of the options"""
        self.observe(label, actual)
        if not self.symbolic:
            f = any(_pyeq(actual, x) for x in options)
        else:
            fs = [E.eq_formula(actual, x) for x in options]
            f = True if any(x is True for x in fs) else z3.Or([E.lift(x) for x in fs])
        self.check(f, label, lambda: f'expected one of {[_show(x) for x in options]}, got {_show(actual)} {_call(detail)}')

    def fail(self, label, detail=''):
        self.check(False, label, detail)

    def text(self, x):
        """str(x), which may be symbolic"""
        if not self.symbolic:
            return str(x)
        from symex import rt
        return rt.m_str(x)

    def observe(self, label, value):
        self.obs.append((label, value))

    # -- bookkeeping ------------------------------------------------------------
    def assignment(self, model):
        out = dict(self.assign)
        for name, t in self.syms.items():
            if isinstance(t, list):
                out[name] = ''.join(chr(E.model_to_py(model, c)) for c in t)
            else:
                out[name] = enc(E.model_to_py(model, t))
        return out

    def observations(self, model=None):
        return [(l, _show(_eval(v, model))) for l, v in self.obs]

    def scratch(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        root = os.environ.get('SYMEX_SCRATCH') or base
        d = tempfile.mkdtemp(prefix='pfc', dir=root)
        self._dirs.append(d)
        return d

    def on_close(self, fn):
        self._closers.append(fn)

    def adopt(self, setup):
        """Take over the symbolic values a shared set-up introduced."""
        for name, kinds in setup.pending:
            self.val(name, kinds)
        self._dirs = []

    def cleanup(self):
        for f in self._closers[::-1]:
            f()
        self._closers = []
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


class SetupCtx(Ctx):
    """Runs a harness's set-up once, before the paths fork.  Values are solver
    variables from the start; nothing may branch on them during the set-up."""

    def __init__(self, known=(), tier='quick'):
        super().__init__({}, known=known, tier=tier)
        self.pending = []

    def val(self, name, kinds=('none', 'bool', 'int', 'str', 'list', 'dict', 'obj')):
        assert name not in [n for n, _ in self.pending]
        kinds = tuple(kinds)
        self.pending.append((name, kinds))
        return E.SymVal(z3.Const(name, E.Val), kinds, name)

    def _no(self, *a, **k):
        raise E.Unsupported('only val() may be used in a shared set-up')

    choose = flag = int = str = assume = check = eq = fail = _no


def _call(x):
    try:
        return x() if callable(x) else x
    except TypeError as e:
        # text of a symbolic string; the replay has the detail
        return f'<{e}>'


def _short(x):
    s = repr(x) if not callable(x) else getattr(x, '__name__', 'fn')
    return s if len(s) < 120 else s[:117] + '...'


def _pyeq(a, b):
    """python equality with the same structural rules as the symbolic oracle"""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(
            _pyeq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(_pyeq(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return bool(a == b)


def _eval(v, model):
    if isinstance(v, E.SymVal):
        if v._conc is not None:
            return v._conc[0]
        return E.model_to_py(model, v.t)
    if isinstance(v, (E.SymBool, E.SymInt)):
        return E.model_to_py(model, v.t)
    if isinstance(v, S.SymStr):
        return ''.join(c if isinstance(c, str) else chr(E.model_to_py(model, c)) for c in v.c)
    if isinstance(v, list):
        return [_eval(x, model) for x in v]
    if isinstance(v, tuple):
        return tuple(_eval(x, model) for x in v)
    if isinstance(v, dict):
        return {k: _eval(x, model) for k, x in v.items()}
    return v


def _show(v):
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(_show(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join(f'{k}: {_show(x)}' for k, x in sorted(v.items(), key=lambda i: str(i[0]))) + '}'
    if v is None or isinstance(v, (bool, int, float, str, E.Opaque, E.Sym)):
        return repr(v)
    return f'<{type(v).__name__}>'
