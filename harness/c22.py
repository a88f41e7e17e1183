"""C22: files and section paths are attributed to the manager that owns them."""
import os
import sys

from symex.driver import H
from harness.common import World

# folder names sharing prefixes, nested folders, spellings with trailing slash or dots
FOLDERS = ['a', 'ab', 'abc', 'a/b', 'a/', './ab', 'b.a', 'b']


def norm(rel):
    return os.path.normpath(rel)


def make(c, w, name, rel, **kw):
    from pyfileconf import PipelineManager
    return PipelineManager(folder=os.path.join(w.root, rel), name=name, **kw)


def owner_oracle(root, folders, path):
    """names of the managers whose folder contains `path` (characters may be symbolic)"""
    import posixpath
    from symex import rt, engine as E
    absp = rt.call(posixpath.abspath, path) if E.ENGINE is not None else os.path.abspath(path)
    out = []
    for name, rel in folders.items():
        pre = os.path.join(root, norm(rel)) + '/'
        if len(absp) > len(pre) and bool(absp[:len(pre)] == pre):
            out.append(name)
    return out


def h_file(c):
    from pyfileconf import PipelineManager
    w = World(c)
    n = c.choose('managers', [0, 1, 2] + ([3] if c.tier == 'thorough' else []))
    folders = {}
    left = list(FOLDERS)
    for i in range(n):
        rel = c.choose(f'folder{i}', left)
        left = [x for x in left if norm(x) != norm(rel)]
        folders[f'm{i}'] = rel
        w.pms[f'm{i}'] = make(c, w, f'm{i}', rel)
    tail = c.str('file', 1, 5 if c.tier == 'quick' else 6, 'ab/')
    path = os.path.join(w.root, '') + tail
    lookup(c, w, folders, path)


def lookup(c, w, folders, path):
    from pyfileconf import PipelineManager
    from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForFilepathException
    owners = owner_oracle(w.root, folders, path)
    try:
        got = PipelineManager.get_manager_by_filepath(path)
    except NoPipelineManagerForFilepathException:
        got = None
    if got is None:
        c.check(not owners, 'a file in a manager folder is attributed to a manager', lambda: f'{path} {folders}')
    else:
        c.check(any(got is w.pms[o] for o in owners), 'the manager found is one whose folder contains the file',
                lambda: f'{path} -> {got.name} {folders}')


def h_relative(c):
    """relative spellings of folder and file, dots included"""
    from pyfileconf import PipelineManager
    w = World(c)
    os.makedirs(os.path.join(w.root, 'cwd'))
    old = os.getcwd()
    os.chdir(os.path.join(w.root, 'cwd'))
    try:
        rel = c.choose('folder', ['a', 'ab', './a', '../cwd/a', '../a'])
        w.pms['m'] = PipelineManager(folder=rel, name='m')
        tail = c.str('file', 1, 5, 'a/.')
        path = c.choose('pre', ['', './', '../cwd/']) + tail
        lookup(c, w, {'m': os.path.join('cwd', rel)}, path)
    finally:
        os.chdir(old)


NAMES = ['a', 'ab', 'b', 'a_b']


def h_section(c):
    from pyfileconf import PipelineManager
    from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForSectionPathException
    w = World(c)
    names = [n for n in NAMES if c.choose('has_' + n, [False, True])]
    for i, n in enumerate(names):
        w.pms[n] = make(c, w, n, f'f{i}')
    path = c.str('path', 1, 4, 'ab._')
    first = []
    for ch in path:
        if bool(ch == '.'):
            break
        first.append(ch)
    exp = None
    for n in names:
        if len(n) == len(first) and all(bool(x == y) for x, y in zip(first, n)):
            exp = n
    try:
        got = PipelineManager.get_manager_by_section_path_str(path)
    except NoPipelineManagerForSectionPathException:
        got = None
    if exp is None:
        c.check(got is None, 'no manager has that first section', lambda: f'{path} -> {got and got.name}')
    else:
        c.check(got is w.pms[exp], 'the manager named by the first section', lambda: f'{path}')


def h_registry(c):
    """creating, failing to create, replacing and destroying managers in any order"""
    import pyfileconf
    from pyfileconf import PipelineManager
    from pyfileconf.exceptions.pipelinemanager import NoPipelineManagerForSectionPathException
    w = World(c)
    exp = {}
    made = []
    n = 4 if c.tier == 'quick' else 5
    for i in range(n):
        op = c.choose(f'op{i}', ['new x', 'new y', 'bad x'] + [f'destroy {k}' for k in range(min(len(made), 3))])
        kind, arg = op.split()
        if kind == 'new':
            pm = make(c, w, arg, f'f{i}')
            made.append(pm)
            exp[arg] = pm
        elif kind == 'bad':
            try:
                make(c, w, arg, f'f{i}', auto_pdb=True, force_continue=True)
                c.fail('contradicting options are rejected')
            except ValueError:
                pass
        else:
            pm = made.pop(int(arg))
            pm.__del__()
            if exp.get(pm.name) is pm:
                del exp[pm.name]
            del pm
        active = pyfileconf.context.active_managers
        c.check(sorted(active) == sorted(exp), 'exactly the live managers are registered', f'{sorted(active)} {sorted(exp)}')
        for name, pm in exp.items():
            c.check(active[name] is pm, 'a name refers to the latest manager of that name')
            c.check(PipelineManager.get_manager_by_section_path_str(name + '.s.f') is pm, 'found by section path')
            c.check(PipelineManager.get_manager_by_filepath(os.path.join(pm.folder, 'defaults', 's', 'f.py')) is pm,
                    'found by file path')
        for name in 'xy':
            if name not in exp:
                try:
                    PipelineManager.get_manager_by_section_path_str(name + '.s')
                    c.fail('a destroyed manager is not found any more')
                except NoPipelineManagerForSectionPathException:
                    pass


HARNESSES = [
    H('by_file', h_file, '0..2 (thorough 3) managers with folders from ' + repr(FOLDERS) + ', absolute file path with any tail of '
      'length 1..5 (thorough 6) over {a,b,/}', share=2, isolate=False),
    H('relative', h_relative, 'one manager with one of 5 relative folders; relative file path with any tail of length 1..5 over {a,/,.}', isolate=False),
    H('by_section', h_section, 'any subset of the managers ' + repr(NAMES) + ', path of length 1..4 over {a,b,.,_}', isolate=False),
    H('registry', h_registry, 'any sequence of 4 (thorough 5) creations, failing creations and destructions over two names', isolate=False),
]
ASSUMPTIONS = ['destroying a manager is modelled by its finaliser being called']
