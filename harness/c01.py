"""C01: section paths are a faithful, compositional encoding of section lists."""
from symex.driver import H

ALPH = 'ab.'


def _sp():
    from pyfileconf.sectionpath.sectionpath import SectionPath
    return SectionPath


def _ref_split(s):
    """Reference: sections of a path string (independent of the code under test)."""
    out, cur = [], []
    for ch in s:
        if ch == '.':
            out.append(cur)
            cur = []
        else:
            cur.append(ch)
    out.append(cur)
    return [cat(x) for x in out]


def cat(parts):
    r = ''
    for p in parts:
        r = r + p
    return r


def dots(parts):
    r = ''
    for i, p in enumerate(parts):
        r = (r + '.' + p) if i else p
    return r


def h_parse(c):
    SP = _sp()
    s = c.str('s', 0, 6 if c.tier == 'thorough' else 5, ALPH)
    sp = SP(s)
    ref = _ref_split(s)
    c.eq(sp.path_str, s, 'path string kept')
    c.eq(list(sp), ref, 'iteration yields the sections')
    c.check(len(sp) == len(ref), 'len counts sections')
    c.eq([sp[i] for i in range(len(ref))], ref, 'indexing')
    c.eq([sp[-i - 1] for i in range(len(ref))], ref[::-1], 'negative indexing')
    c.eq(list(sp[1:]), ref[1:], 'slice tail')
    c.eq(list(sp[:-1]), ref[:-1], 'slice head')
    c.eq(SP.from_section_str_list(list(sp)).path_str, s, 'rebuilt from its sections')


def h_join(c):
    SP = _sp()
    n = 4 if c.tier == 'thorough' else 3
    a = c.str('a', 0, n, ALPH)
    b = c.str('b', 0, n, ALPH)
    ka = c.choose('form_a', ['str', 'sp'])
    kb = c.choose('form_b', ['str', 'sp'])
    j = SP.join(SP(a) if ka == 'sp' else a, SP(b) if kb == 'sp' else b)
    c.eq(j.path_str, dots([a, b]), 'join is dotted concatenation')
    c.eq(list(j), _ref_split(a) + _ref_split(b), 'join concatenates sections')


def h_join_assoc(c):
    SP = _sp()
    a, b, d = (c.str(x, 0, 2, ALPH) for x in 'abd')
    left = SP.join(SP.join(a, b), d)
    right = SP.join(a, SP.join(b, d))
    c.eq(left.path_str, right.path_str, 'join associative')
    c.check(left == right, 'join associative (==)')


def h_eq(c):
    SP = _sp()
    n = 4 if c.tier == 'thorough' else 3
    a, b = c.str('a', 0, n, 'ab.'), c.str('b', 0, n, 'ab.')
    x, y = SP(a), SP(b)
    same = bool(a == b)
    c.check(bool(x == y) == same, 'equality is equality of path strings')
    c.check(bool(x != y) == (not same), 'inequality is its negation')
    if same:
        c.check(hash(x) == hash(y), 'equal paths hash equal')
        c.check(len({x, y}) == 1, 'set of equal paths has one element')
    else:
        c.check(len({x, y}) == 2, 'set of distinct paths has two elements')
    c.check(not (x == 5) and not (x == None), 'never equal to other kinds of object')  # noqa: E711


def h_endswith(c):
    SP = _sp()
    n = 5 if c.tier == 'thorough' else 4
    a, b = c.str('a', 0, n, 'ab.'), c.str('b', 0, n - 1, 'ab.')
    ra, rb = _ref_split(a), _ref_split(b)
    got = SP(a).endswith(SP(b))
    if len(rb) > len(ra):
        exp = False
    else:
        tail = ra[len(ra) - len(rb):]
        exp = all(bool(x == y) for x, y in zip(tail, rb))
    c.check(bool(got) == exp, 'endswith compares whole trailing sections',
            lambda: f'{a!r}.endswith({b!r})')


class FakeView:
    """anything that announces itself as an item view"""

    def __init__(self, s):
        self.section_path_str = s
        self._is_item_view = True


def h_ambiguous(c):
    SP = _sp()
    form = c.choose('form', ['str', 'sp', 'view'])
    s = c.str('s', 1, 4, ALPH)
    strip = c.choose('strip', [False, True])
    base = c.str('base', 1, 2, ALPH) if c.choose('has_base', [False, True]) else None
    item = {'str': lambda: s, 'sp': lambda: SP(s), 'view': lambda: FakeView(s)}[form]()
    got = SP.from_ambiguous(item, strip_manager_from_iv=strip, base_section_path_str=base)
    secs = _ref_split(s)
    if form == 'view' and strip:
        if len(secs) == 1:
            return   # a view always names an item inside a manager
        secs = secs[1:]
    exp = dots(secs)
    if base is not None:
        exp = dots([base, exp])
    c.eq(got.path_str, exp, 'from_ambiguous normalises str/SectionPath/ItemView')


def h_list(c):
    SP = _sp()
    shape = c.choose('shape', ['single', 'list', 'tuple', 'empty'])
    base = c.str('base', 1, 1, 'ab') if c.choose('has_base', [False, True]) else None
    n = {'single': 1, 'list': 3, 'tuple': 2, 'empty': 0}[shape]
    strs, items = [], []
    for i in range(n):
        s = c.str(f's{i}', 1, 2, 'ab.')
        f = c.choose(f'f{i}', ['str', 'sp'])
        strs.append(s)
        items.append(s if f == 'str' else SP(s))
    arg = items[0] if shape == 'single' else tuple(items) if shape == 'tuple' else items
    got = SP.list_from_ambiguous(arg, base_section_path_str=base)
    exp = [dots([base, s]) if base is not None else s for s in strs]
    c.eq([g.path_str for g in got], exp, 'list_from_ambiguous keeps order and length')


HARNESSES = [
    H('parse', h_parse, 'one path string, length 0..5 (thorough 6) over {a,b,.}', isolate=False),
    H('join', h_join, 'two path strings, length 0..3 (thorough 4) over {a,b,.}, each as str or SectionPath', isolate=False),
    H('join_assoc', h_join_assoc, 'three path strings of length 0..2', isolate=False),
    H('eq_hash', h_eq, 'two path strings of length 0..3 (thorough 4)', isolate=False),
    H('endswith', h_endswith, 'two path strings of length 0..4 and 0..3', isolate=False),
    H('from_ambiguous', h_ambiguous, 'string of length 1..4 as str, SectionPath or item view; optional base of length 1..2', isolate=False),
    H('list_from_ambiguous', h_list, 'up to 3 items of length 1..2, list/tuple/single', isolate=False),
]
ASSUMPTIONS = ['an item view passed with strip_manager_from_iv names an item inside a manager (at least two sections)']
