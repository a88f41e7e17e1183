"""C02: section paths and config file paths map one-to-one."""
from symex.driver import H

SEC = 'apy'      # 'py' can be a section, so can 'y.py'-like tails be built


def _sp():
    from pyfileconf.sectionpath.sectionpath import SectionPath
    return SectionPath


def secs(c, name, nmax, lmax):
    n = c.choose(name + '.n', list(range(1, nmax + 1)))
    return [c.str(f'{name}{i}', 1, lmax, SEC) for i in range(n)]


def cat(sep, parts):
    r = parts[0]
    for p in parts[1:]:
        r = r + sep + p
    return r


def base_of(c):
    form = c.choose('base', ['rel', 'abs', 'dots', 'free'])
    if form == 'rel':
        b = c.str('b', 1, 2, 'ap')
    elif form == 'abs':
        b = '/' + c.str('b', 1, 3, 'ap/')
    elif form == 'dots':
        b = c.choose('b', ['.', '..', './a', '../a', 'a/../p', '/a/./p', '/', 'a.b', 'x.py', 'x.py/defaults'])
    else:
        b = c.str('b', 1, 4 if c.tier == 'thorough' else 3, 'a/.')
    if c.choose('slash', [False, True]):
        b = b + '/'
    return b


def h_round(c):
    SP = _sp()
    b = base_of(c)
    ss = secs(c, 's', 3 if c.tier == 'thorough' else 2, 2)
    path = cat('.', ss)
    sp = SP(path)
    fp = sp.to_filepath(b)
    c.eq(SP.from_filepath(b, fp).path_str, path, 'without the .py ending')
    c.eq(SP.from_filepath(b, fp + '.py').path_str, path, 'with the .py ending')
    # the same file named from another spelling of the base
    other = b[:-1] if bool(b[-1] == '/') and len(b) > 1 else b + '/'
    c.eq(SP.from_filepath(other, fp + '.py').path_str, path, 'base with and without a trailing slash')


def h_under(c):
    SP = _sp()
    b = base_of(c)
    ss = secs(c, 's', 2, 2)
    fp = SP(cat('.', ss)).to_filepath(b)
    sep = '' if bool(b[-1] == '/') else '/'
    c.eq(fp, b + sep + cat('/', ss), 'the file lies under the base, one component per section')


def h_injective(c):
    SP = _sp()
    b = c.choose('base', ['p', '/p', 'p/', '.', '/'])
    x, y = secs(c, 'x', 2, 2), secs(c, 'y', 2, 2)
    px, py = cat('.', x), cat('.', y)
    same_file = bool(SP(px).to_filepath(b) == SP(py).to_filepath(b))
    c.check(same_file == bool(px == py), 'different section paths have different files', lambda: f'{px} {py}')


def h_inverse(c):
    """every file under the base names one section path, and leads back to that file"""
    SP = _sp()
    b = c.choose('base', ['p', '/p/a', 'p/', './p', '..'])
    parts = secs(c, 's', 3, 2)
    sep = '' if b[-1] == '/' else '/'
    f = b + sep + cat('/', parts)
    ext = c.choose('ext', ['', '.py'])
    sp = SP.from_filepath(b, f + ext)
    c.eq(list(sp), parts, 'one section per path component')
    c.eq(sp.to_filepath(b), f, 'back to the same file')


HARNESSES = [
    H('round_trip', h_round, 'base: relative, absolute, with . and .. components, or any string of length 1..3 (thorough 4) over '
      '{a,/,.}, with or without trailing slash; 1..2 (thorough 3) sections of 1..2 characters over {a,p,y}', isolate=False, share=2),
    H('under_base', h_under, 'same bases, 1..2 sections of 1..2 characters', isolate=False),
    H('injective', h_injective, 'two section paths of 1..2 sections of 1..2 characters, 5 bases', isolate=False),
    H('inverse', h_inverse, 'file paths of 1..3 components of 1..2 characters under 5 bases, with or without .py', isolate=False),
]
ASSUMPTIONS = ['sections are non-empty and contain neither dots nor path separators']
NOTE = 'the working directory is the one the check runs in; symbolic links are outside the bounds'
