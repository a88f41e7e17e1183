"""Runtime the instrumented code calls into.  With concrete operands every entry
point does exactly what the original expression did."""
import builtins
import logging
import os
import posixpath
import types

import z3

from symex import engine as E
from symex import symstr as S
from symex.engine import Sym, SymBool, SymInt, SymVal
from symex.symstr import SymStr

_isinstance, _type, _len = builtins.isinstance, builtins.type, builtins.len



_SYMT = {SymBool, SymInt, SymVal, SymStr}


def _isa(x, c):
    # never isinstance(): proxies such as ItemView run code in their __class__
    if c is Sym:
        return _type(x) in _SYMT
    return issubclass(_type(x), c)


seen_functions = set()


def fn(name):
    seen_functions.add(name)


# ---- models of builtins ----------------------------------------------------
def _flat(classinfo):
    import types
    if _isa(classinfo, tuple):
        out = []
        for c in classinfo:
            out += _flat(c)
        return out
    if _isinstance(classinfo, types.UnionType):
        return list(classinfo.__args__)
    return [classinfo]


def m_isinstance(x, classinfo):
    if not _isa(x, Sym):
        return _isinstance(x, classinfo)
    if _isa(x, SymStr):
        return issubclass(str, classinfo)
    if _isa(x, SymBool):
        return issubclass(bool, classinfo)
    if _isa(x, SymInt):
        return issubclass(int, classinfo)
    if x._conc is not None:
        return _isinstance(x._conc[0], classinfo)
    yes, no = [], []
    for k in x.kinds:
        (yes if _isinstance_kind(k, classinfo) else no).append(k)
    if not yes:
        return False
    if not no:
        return True
    return E.engine().branch(z3.Or([E.KINDS[k](x.t) for k in yes]))


def _isinstance_kind(k, classinfo):
    return any(_isinstance(_SAMPLE[k], c) for c in _flat(classinfo))


_SAMPLE = {'none': None, 'bool': True, 'int': 1, 'str': '', 'list': [], 'dict': {}, 'obj': E.opaque(0)}


def m_type(*a):
    if len(a) == 1 and _isa(a[0], Sym):
        x = a[0]
        if _isa(x, SymStr):
            return str
        if _isa(x, SymBool):
            return bool
        if _isa(x, SymInt):
            return int
        return E.PYTYPE[x._kind()] if x._conc is None else _type(x._conc[0])
    return _type(*a)


def m_len(x):
    return _len(x)


def m_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if _isa(x, SymStr):
            return x
        if issubclass(_type(x), (SymVal, SymInt, SymBool)):
            return str(x.concrete() if _isa(x, SymVal) else (x.__index__() if _isa(x, SymInt) else bool(x)))
        f = getattr(_type(x), '__str__', None)
        if _type(f) is types.FunctionType:
            # the class's own conversion may give a symbolic string
            out = f(x)
            return out if _isa(out, SymStr) else str(_Text(out))
    return str(*a, **k)


class _Text:
    """so that the result of a conversion is checked the way str() does"""
    def __init__(self, out):
        self.out = out

    def __str__(self):
        return self.out


def m_repr(x):
    if _isa(x, SymVal) or _isa(x, SymStr):
        return repr(x.concrete())
    return repr(x)


def m_callable(x):
    if _isa(x, Sym):
        return False
    return callable(x)


def m_hasattr(x, name):
    if _isa(x, SymVal):
        if x._conc is None:
            # only the type of these decides
            k = x._kind()
            if k in ('none', 'bool', 'int'):
                return hasattr({'none': None, 'bool': False, 'int': 0}[k], name)
        x = x.concrete()
    return hasattr(x, name)


def m_id(x):
    return id(x)


def m_bool(*a):
    return bool(*a)


def m_fspath(x):
    return x if _isa(x, SymStr) else os.fspath(x)


MODELS = {
    builtins.isinstance: m_isinstance, builtins.type: m_type, builtins.str: m_str, builtins.repr: m_repr,
    builtins.callable: m_callable, builtins.hasattr: m_hasattr,
    posixpath.join: S.p_join, posixpath.split: S.p_split, posixpath.basename: S.p_basename,
    posixpath.dirname: S.p_dirname, posixpath.normpath: S.p_normpath, posixpath.abspath: S.p_abspath,
    posixpath.relpath: S.p_relpath, posixpath.splitext: S.p_splitext, posixpath.isabs: S.p_isabs,
    posixpath.commonprefix: S.p_commonprefix, posixpath.commonpath: S.p_commonpath,
    os.fspath: m_fspath,
}


def _anysym(a, k):
    for x in a:
        t = _type(x)
        if t in _SYMT:
            return True
        if (t is list or t is tuple) and any(_type(y) in _SYMT for y in x):
            return True
    for x in k.values():
        if _type(x) in _SYMT:
            return True
    return False


def call(f, /, *a, **k):
    if (a or k) and E.ENGINE is not None:
        try:
            m = MODELS.get(f)
        except TypeError:
            m = None
        if m is not None and (_anysym(a, k) or f is str):
            return m(*a, **k)
        if E.ENGINE.set_perm and f in (builtins.list, builtins.tuple) and len(a) == 1 and \
                _type(a[0]) in (set, frozenset):
            return f(iter_(a[0]))
    return f(*a, **k)


_STRM = {n for n in dir(str) if not n.startswith('__')}
_DICTM = {'get', 'pop', 'setdefault', 'update'}


def callm(obj, name, /, *a, **k):
    """obj.name(*a, **k)"""
    if E.ENGINE is not None:
        t = _type(obj)
        if t is str and name in _STRM:
            if name == 'join' and a:
                items = list(iter_(a[0]))
                if any(_isa(x, Sym) for x in items):
                    return S.join(obj, items)
                return obj.join(items)
            if _anysym(a, k) or (a and _type(a[0]) is tuple and any(_isa(x, Sym) for x in a[0])):
                if name == 'format':
                    return obj.format(*a, **k)
                if hasattr(SymStr, name):
                    return getattr(SymStr(tuple(obj)), name)(*a, **k)
        elif _isa(obj, dict) and name in _DICTM and (E.ENGINE.symkeys or (a and _isa(a[0], Sym))):
            if _type(obj).__dict__.get(name) is None and name != 'update':
                key = find_key(obj, a[0])
                if name == 'get':
                    if key is _MISSING:
                        return a[1] if len(a) > 1 else k.get('default')
                    return dict.__getitem__(obj, key)
                if name == 'pop':
                    if key is _MISSING:
                        if len(a) > 1:
                            return a[1]
                        raise KeyError(a[0])
                    return dict.pop(obj, key)
                if name == 'setdefault':
                    if key is _MISSING:
                        setitem(obj, a[0], a[1] if len(a) > 1 else None)
                        return a[1] if len(a) > 1 else None
                    return dict.__getitem__(obj, key)
        elif _isa(obj, set) and name in ('add', 'discard', 'remove') and \
                (E.ENGINE.symkeys or (a and _isa(a[0], Sym))):
            key = find_key(obj, a[0])
            if name == 'add':
                if key is _MISSING:
                    set.add(obj, a[0])
                return None
            if key is _MISSING:
                if name == 'remove':
                    raise KeyError(a[0])
                return None
            return set.discard(obj, key)
    return call(getattr(obj, name), *a, **k)


_MISSING = object()


def find_key(d, key):
    """The stored key equal to `key` under python equality, forking as needed."""
    symk = _isa(key, Sym)
    if not symk:
        try:
            if key in set_or_keys(d):
                # present concretely
                for kk in d:
                    if not _isa(kk, Sym) and kk == key:
                        return kk
        except TypeError:
            raise
        if not E.ENGINE.symkeys:
            return _MISSING
        for kk in list(d):
            if _isa(kk, Sym) and bool(kk == key):
                return kk
        return _MISSING
    for kk in list(d):
        if type_compatible(kk, key) and bool(key == kk):
            return kk
    return _MISSING


def set_or_keys(d):
    return d.keys() if _isa(d, dict) else d


def type_compatible(a, b):
    return True


def contains(item, cont):
    """item in cont"""
    if E.ENGINE is not None:
        t = _type(cont)
        if t is str and _isa(item, Sym):
            if _isa(item, SymVal):
                item = item.concrete()
            return S.SymStr(tuple(cont)).__contains__(item)
        if (_isa(item, Sym) or E.ENGINE.symkeys) and (
                t in (set, frozenset, dict) or issubclass(_type(cont), (dict, {}.keys().__class__))) \
                and '__contains__' not in _type(cont).__dict__.keys() - dict.__dict__.keys():
            if t in (set, frozenset) or _isa(cont, dict):
                return find_key(cont, item) is not _MISSING
            return find_key({kk: None for kk in cont} if not E.ENGINE.symkeys else _keyset(cont), item) is not _MISSING
    return item in cont


class _keyset(list):
    pass


def is_(a, b):
    """a is b"""
    if a is b:
        return True
    if _type(a) in _SYMT or _type(b) in _SYMT:
        if not _isa(a, Sym):
            a, b = b, a
        if _isa(a, SymVal):
            if a._conc is not None:
                return a._conc[0] is b
            if b is None or b is True or b is False:
                tag = {None: 'none'}.get(b, 'bool') if b is None else 'bool'
                if tag not in a.kinds:
                    return False
                if b is None:
                    return E.engine().branch(E.KINDS['none'](a.t))
                return E.engine().branch(a.t == E.Val.VBool(z3.BoolVal(b)))
            if _isa(b, SymVal) and a.name == b.name:
                return True
            if _isa(b, E.Opaque) and 'obj' in a.kinds:
                return E.engine().branch(a.t == E.Val.VObj(z3.IntVal(b.code)))
            return False
        if _isa(a, SymBool):
            if b is True:
                return bool(a)
            if b is False:
                return not bool(a)
        return False
    return False


def getitem(o, k):
    if E.ENGINE is not None and (_isa(k, Sym) or E.ENGINE.symkeys) and _isa(o, dict) \
            and not _isa(k, slice):
        kk = find_key(o, k)
        if kk is not _MISSING:
            return dict.__getitem__(o, kk) if _type(o).__getitem__ is dict.__getitem__ else o[kk]
        if hasattr(_type(o), '__missing__'):
            if _isinstance(o, __import__('collections').defaultdict) and o.default_factory is not None:
                v = o.default_factory()
                dict.__setitem__(o, k, v)
                return v
        raise KeyError(k)
    return o[k]


def setitem(o, k, v):
    if E.ENGINE is not None and (_isa(k, Sym) or E.ENGINE.symkeys) and _isa(o, dict):
        kk = find_key(o, k)
        if kk is not _MISSING:
            k = kk
        o[k] = v
        return
    o[k] = v


def delitem(o, k):
    if E.ENGINE is not None and (_isa(k, Sym) or E.ENGINE.symkeys) and _isa(o, dict):
        kk = find_key(o, k)
        if kk is _MISSING:
            raise KeyError(k)
        del o[kk]
        return
    del o[k]


def fstring(*parts):
    """f-string; symbolic strings stay symbolic, other symbols print as placeholders"""
    if any(_isa(p, SymStr) for p in parts):
        return S.join('', [p if issubclass(_type(p), (str, SymStr)) else format(p) for p in parts])
    return ''.join(p if _isa(p, str) else format(p) for p in parts)


def fmt(value, conv, spec):
    if _isa(value, SymStr) and not spec and conv in (-1, 115):
        return value
    if conv in (-1, 115) and not spec and E.ENGINE is not None and \
            getattr(_type(value), '__format__', None) is object.__format__:
        return m_str(value)
    if conv == 114:
        value = repr(value)
    elif conv == 115:
        value = str(value)
    elif conv == 97:
        value = ascii(value)
    return format(value, spec)


def iter_(x):
    """iteration source; sets are visited in a symbolic order when asked for"""
    e = E.ENGINE
    if e is not None and e.set_perm and _type(x) in (set, frozenset) and _len(x) > 1:
        items = list(x)
        try:
            items.sort(key=lambda i: getattr(i, 'path_str', None) or str(i))
        except TypeError:
            return x
        out = []
        while items:
            out.append(items.pop(e.choose(_len(items), 'perm')))
        return out
    return x


def logon(lg, level):
    """Whether a logging call would emit; a disabled call is skipped (cut)."""
    if _type(lg) is logging.Logger:
        return lg.isEnabledFor(level)
    return True


def setitem_v(v, o, k):
    setitem(o, k, v)
