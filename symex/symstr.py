"""Symbolic strings: a vector of characters of known (forked) length.

Characters are either concrete one-character strings or z3 Int code points.
Operations that the code under test uses on section paths / file paths are
modelled exactly; anything else enumerates the remaining values.
"""
import z3

from symex import engine as E
from symex.engine import Sym, SymBool, Unsupported, engine, conj


def mk(chars):
    """Normalise: all-concrete vectors become real strings."""
    if all(isinstance(c, str) for c in chars):
        return ''.join(chars)
    return SymStr(tuple(chars))


def chars_of(x):
    if isinstance(x, SymStr):
        return x.c
    if isinstance(x, str):
        return tuple(x)
    if isinstance(x, E.SymVal):
        v = x.concrete()
        if isinstance(v, str):
            return tuple(v)
    raise TypeError(f'expected str, got {type(x).__name__}')


def ceq(a, b):
    """term for equality of two characters"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    ta = z3.IntVal(ord(a)) if isinstance(a, str) else a
    tb = z3.IntVal(ord(b)) if isinstance(b, str) else b
    return z3.simplify(ta == tb)


def br(t):
    if t is True or t is False:
        return t
    return engine().branch(t)


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return conj([_b(ceq(x, y)) for x, y in zip(a, b)])


def _b(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return t


class SymStr(Sym):
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = chars

    # -- comparison
    def eq_term(self, other):
        if isinstance(other, (SymStr, str)):
            return seq_eq(self.c, chars_of(other))
        return False

    def __eq__(self, other):
        t = self.eq_term(other)
        if t is True or t is False:
            return t
        return SymBool(t)

    def __ne__(self, other):
        r = self.__eq__(other)
        return SymBool(z3.Not(r.t)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        # constant hash per engine: equality (which forks) settles identity
        engine().symkeys = True
        return 7919

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __lt__(self, other):
        o = chars_of(other)
        for a, b in zip(self.c, o):
            if br(ceq(a, b)):
                continue
            ta = z3.IntVal(ord(a)) if isinstance(a, str) else a
            tb = z3.IntVal(ord(b)) if isinstance(b, str) else b
            return br(ta < tb)
        return len(self.c) < len(o)

    def __gt__(self, other): return not (self < other) and not bool(self == other)
    def __le__(self, other): return self < other or bool(self == other)
    def __ge__(self, other): return not self < other

    def __iter__(self):
        for ch in self.c:
            yield mk((ch,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            return mk(self.c[k])
        return mk((self.c[k],))

    def __add__(self, other): return mk(self.c + chars_of(other))
    def __radd__(self, other): return mk(chars_of(other) + self.c)
    def __mul__(self, n): return mk(self.c * n)

    def __contains__(self, sub):
        return self._find(chars_of(sub)) >= 0

    def __repr__(self):
        return '<symstr %s>' % ''.join(c if isinstance(c, str) else '?' for c in self.c)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def concrete(self):
        out = []
        for c in self.c:
            out.append(c if isinstance(c, str) else chr(engine().concretize(c, cap=300, why='char')))
        return ''.join(out)

    def __fspath__(self):
        return self.concrete()

    def __mod__(self, o): return self.concrete() % o
    def __index__(self): raise TypeError('not an int')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if hasattr(str, name):
            f = getattr(str, name)

            def call(*a, **k):
                return f(self.concrete(), *[x.concrete() if isinstance(x, SymStr) else x for x in a], **k)
            return call
        raise AttributeError(name)

    # -- modelled methods
    def _at(self, i, sub):
        return br(_b(conj([_b(ceq(x, y)) for x, y in zip(self.c[i:i + len(sub)], sub)])))

    def _find(self, sub, start=0, end=None):
        n, m = (len(self.c) if end is None else min(end, len(self.c))), len(sub)
        for i in range(start, n - m + 1):
            if self._at(i, sub):
                return i
        return -1

    def _rfind(self, sub, start=0, end=None):
        n, m = (len(self.c) if end is None else min(end, len(self.c))), len(sub)
        for i in range(n - m, start - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def find(self, sub, start=0, end=None): return self._find(chars_of(sub), start, end)
    def rfind(self, sub, start=0, end=None): return self._rfind(chars_of(sub), start, end)

    def index(self, sub, start=0, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=0, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub):
        s, i, n = chars_of(sub), 0, 0
        if not s:
            return len(self.c) + 1
        while True:
            j = self._find(s, i)
            if j < 0:
                return n
            n += 1
            i = j + len(s)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().split(None, maxsplit)
        s = chars_of(sep)
        if not s:
            raise ValueError('empty separator')
        out, i = [], 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._find(s, i)
            if j < 0:
                break
            out.append(mk(self.c[i:j]))
            i = j + len(s)
        out.append(mk(self.c[i:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().rsplit(None, maxsplit)
        s = chars_of(sep)
        out, end = [], len(self.c)
        while maxsplit < 0 or len(out) < maxsplit:
            j = self._rfind(s, 0, end)
            if j < 0:
                break
            out.append(mk(self.c[j + len(s):end]))
            end = j
        out.append(mk(self.c[:end]))
        return out[::-1]

    def partition(self, sep):
        s = chars_of(sep)
        j = self._find(s)
        if j < 0:
            return (self, '', '')
        return (mk(self.c[:j]), sep, mk(self.c[j + len(s):]))

    def rpartition(self, sep):
        s = chars_of(sep)
        j = self._rfind(s)
        if j < 0:
            return ('', '', self)
        return (mk(self.c[:j]), sep, mk(self.c[j + len(s):]))

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        s, body = chars_of(p), self.c[start:end]
        if len(s) > len(body):
            return False
        return br(_b(seq_eq(body[:len(s)], s)))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        s, body = chars_of(p), self.c[start:end]
        if len(s) > len(body):
            return False
        if not s:
            return True
        return br(_b(seq_eq(body[len(body) - len(s):], s)))

    def removesuffix(self, s):
        if s and self.endswith(s):
            return mk(self.c[:len(self.c) - len(s)])
        return self

    def removeprefix(self, s):
        if s and self.startswith(s):
            return mk(self.c[len(s):])
        return self

    def _inset(self, ch, cs):
        return br(_b(z3.Or([z3.BoolVal(t) if isinstance(t, bool) else t for t in (ceq(ch, x) for x in cs)])
                     if cs else False))

    def lstrip(self, cs=None):
        cs = ' \t\n\r\x0b\x0c' if cs is None else cs
        i = 0
        while i < len(self.c) and self._inset(self.c[i], chars_of(cs)):
            i += 1
        return mk(self.c[i:])

    def rstrip(self, cs=None):
        cs = ' \t\n\r\x0b\x0c' if cs is None else cs
        i = len(self.c)
        while i > 0 and self._inset(self.c[i - 1], chars_of(cs)):
            i -= 1
        return mk(self.c[:i])

    def strip(self, cs=None):
        r = self.lstrip(cs)
        return r.rstrip(cs) if isinstance(r, SymStr) else r.rstrip(cs)

    def replace(self, old, new, count=-1):
        o, nw = chars_of(old), chars_of(new)
        if not o:
            return self.concrete().replace(old, new, count)
        out, i, k = [], 0, 0
        while count < 0 or k < count:
            j = self._find(o, i)
            if j < 0:
                break
            out += list(self.c[i:j]) + list(nw)
            i = j + len(o)
            k += 1
        out += list(self.c[i:])
        return mk(out)

    def join(self, it):
        return join(self, it)

    def encode(self, *a): return self.concrete().encode(*a)


def join(sep, it):
    out, first = [], True
    s = chars_of(sep)
    for x in it:
        if not first:
            out += list(s)
        out += list(chars_of(x))
        first = False
    return mk(out)


# ---- posixpath on symbolic strings (straight transcription of CPython's) ----
def p_isabs(p):
    return mk(chars_of(p)).startswith('/')


def p_join(a, *ps):
    path = mk(chars_of(a))
    for b in ps:
        b = mk(chars_of(b))
        if b.startswith('/'):
            path = b
        elif not len(path) or path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


def p_split(p):
    p = mk(chars_of(p))
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if len(head) and bool(head != '/' * len(head)):
        head = head.rstrip('/')
    return head, tail


def p_basename(p): return p_split(p)[1]
def p_dirname(p): return p_split(p)[0]


def p_splitext(p):
    p = mk(chars_of(p))
    sep, dot = p.rfind('/'), p.rfind('.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if bool(p[i] != '.'):
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0]


def p_normpath(p):
    p = mk(chars_of(p))
    if not len(p):
        return '.'
    slashes = 0
    if p.startswith('/'):
        slashes = 2 if p.startswith('//') and not p.startswith('///') else 1
    new = []
    for comp in p.split('/'):
        if not len(comp) or bool(comp == '.'):
            continue
        if bool(comp != '..') or (not slashes and not new) or (new and bool(new[-1] == '..')):
            new.append(comp)
        elif new:
            new.pop()
    res = join('/', new)
    if slashes:
        res = '/' * slashes + res
    return res if len(res) else '.'


def p_abspath(p):
    import os
    p = mk(chars_of(p))
    if not p.startswith('/'):
        p = p_join(os.getcwd(), p)
    return p_normpath(p)


def p_relpath(path, start=None):
    if not len(chars_of(path)):
        raise ValueError('no path specified')
    start = '.' if start is None else start
    sl = [x for x in mk(chars_of(p_abspath(start))).split('/') if len(x)]
    pl = [x for x in mk(chars_of(p_abspath(path))).split('/') if len(x)]
    i = 0
    while i < len(sl) and i < len(pl) and bool(sl[i] == pl[i]):
        i += 1
    rel = ['..'] * (len(sl) - i) + pl[i:]
    if not rel:
        return '.'
    return join('/', rel)


def p_commonprefix(ps):
    ps = list(ps)
    if not ps:
        return ''
    m = min(len(x) for x in ps)
    out = []
    for i in range(m):
        c0 = chars_of(ps[0])[i]
        if all(br(_b(ceq(c0, chars_of(x)[i]))) for x in ps[1:]):
            out.append(c0)
        else:
            break
    return mk(out)


def p_commonpath(ps):
    parts = [[y for y in mk(chars_of(x)).split('/') if len(y) and bool(y != '.')] for x in ps]
    absol = [p_isabs(x) for x in ps]
    if len(set(absol)) > 1:
        raise ValueError("Can't mix absolute and relative paths")
    out = []
    for tup in zip(*parts):
        if all(bool(tup[0] == t) for t in tup[1:]):
            out.append(tup[0])
        else:
            break
    return ('/' if absol[0] else '') + join('/', out)
