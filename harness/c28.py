"""C28: contradictory or ambiguous projects are rejected, others accepted;
a missing project is created around what exists."""
import os

from symex.driver import H
from harness.common import World, fn_src, class_src, conf_src, FEW, KINDS

UM = fn_src('f') + fn_src('g') + class_src('S', key='name') + class_src('T', key='name') + class_src('K', args=('a',))


def rejected(c, do, want, what):
    """runs do(); the result, or None if it raised, which it must exactly if wanted"""
    try:
        out = do()
    except Exception as e:
        c.check(want, 'a project without contradictions is accepted', f'{what}: {type(e).__name__} {e}')
        return None
    c.check(not want, 'a contradictory project is rejected', f'{what}: accepted')
    return out


def h_options(c):
    """debugging and continuing on errors"""
    w = World(c, UM)
    w.project('p', "{'s': [f]}", {'s/f': {'a': 'symvals.x', 'b': '2'}}, um_names='f')
    x = w.val('x', FEW)
    kw = {}
    for name in ('auto_pdb', 'force_continue'):
        kind = c.choose(name, ['omitted', 'symbolic', 'callable', 'False', 'True'])
        if kind == 'symbolic':
            kw[name] = w.val(name, ('none', 'bool', 'int', 'obj'))
        elif kind != 'omitted':
            kw[name] = {'callable': (lambda *a, **k: None), 'False': False, 'True': True}[kind]
    other = w.manager('p') if c.flag('another manager') else None
    both = True if kw.get('auto_pdb') else False
    both = both and (True if kw.get('force_continue') else False)
    pm = rejected(c, lambda: w.manager('p', **kw), both, f'{sorted(kw)}')
    if pm is not None:
        c.eq(w.received(pm, 's.f')['a'], x, 'an accepted project runs', 'options')
    elif other is not None:
        from pyfileconf import context
        c.check(context.active_managers['p'] is other, 'a rejected manager does not replace another', '')
        c.eq(w.received(other, 's.f')['a'], x, 'a rejected manager does not replace another', '')


TOP = ['s', 't', 'sc', 'td', 'get', 'name']
NAMES = ['sc', 'td', 's', 't', 'get', 'basepath', 'name', 'scaffold_config', 'p', 'general', 'defaults', 'run', 'load', 'config', 'update', 'runner', 'items', 'f', 'x', 'S', 'um']
FORM = {'list': '[f]', 'dict': "{'x': [f]}", 'empty list': '[]', 'empty dict': '{}', 'same below': "{'NAME': [f, g]}"}


def names_project(c, w, names, top, form, inner='x'):
    d = '{' + ', '.join(f'{t!r}: ' + FORM[form].replace('NAME', names[0] if names else 'x') for t in top) + '}'
    w.project('p', d, um_names='f, g')
    for n in names:
        w.write(f'p/{n}_dict.py', f'class_dict = {{{inner!r}: ["one"]}}\n')
    return [{'class': w.um.S if i != 1 else w.um.T, 'name': n} for i, n in enumerate(names)]


def accepted(c, w, pm, names, top, form, inner='x'):
    for i, n in enumerate(names):
        w.rec.take()
        pm.run(f'{n}.{inner}.one')
        c.check([k[0] for k in w.rec.take()] == ['ST'[i == 1] + ':one'], 'an accepted project runs', f'{n}.{inner}.one of {names} {top}')
    for t in top:
        path = {'list': 'f', 'dict': 'x.f', 'same below': f'{names[0] if names else "x"}.g'}.get(form)
        if path:
            w.rec.take()
            pm.run(f'{t}.{path}')
            c.check([k[0] for k in w.rec.take()] == [path[-1]], 'an accepted project runs', f'{t}.{path} of {names} {top}')


def h_names(c):
    """names of up to 3 class dictionaries against each other and the top-level sections"""
    w = World(c, UM)
    n = c.choose('dictionaries', [1, 2, 3])
    few = ['sc', 'td', 's', 'f']
    names = [c.choose(f'name{i}', few) for i in range(n)]
    top = c.choose('top', [[], ['s'], ['t', 's'], ['sc'], ['td', 't'], ['s', 'sc', 'td']])
    form = c.choose('form', list(FORM)) if n == 1 or c.tier != 'quick' else 'list'
    conf = names_project(c, w, names, top, form)
    clash = len(set(names)) < n or bool(set(names) & set(top))
    pm = rejected(c, lambda: w.manager('p', specific_class_config_dicts=conf), clash, f'{names} beside {top} {form}')
    if pm is not None:
        accepted(c, w, pm, names, top, form)


def h_any_name(c):
    """any name for the dictionary, its section and the top-level section"""
    w = World(c, UM)
    name = c.choose('name', NAMES)
    top = c.choose('top', [[], ['s'], ['get'], ['name'], ['basepath'], [name]])
    inner = c.choose('inner', ['x', name, 's', 'get'])
    form = c.choose('form', ['list', 'same below'])
    conf = names_project(c, w, [name], top, form, inner)
    pm = rejected(c, lambda: w.manager('p', specific_class_config_dicts=conf), name in top, f'{name} beside {top}')
    if pm is not None:
        accepted(c, w, pm, [name], top, form, inner)


def h_keys(c):
    """what a class dictionary's definition lacks or has"""
    w = World(c, UM)
    n = c.choose('dictionaries', [1, 2])
    w.project('p', "{'s': [f]}", um_names='f')
    conf, lacks = [], False
    for i in range(n):
        name = ('sc', 'td')[i]
        w.write(f'p/{name}_dict.py', "class_dict = {'x': ['one']}\n")
        d = {}
        for key, v in (('name', name), ('class', (w.um.S, w.um.T)[i])):
            kind = c.choose(f'{key}{i}', ['given', 'None', 'missing'])
            lacks = lacks or kind != 'given'
            if kind != 'missing':
                d[key] = v if kind == 'given' else None
        for key, v in (('key_attr', 'name'), ('execute_attr', '__call__'), ('always_import_strs', ['import os']), ('always_assign_strs', ['b = 5'])):
            if i == 0 and c.choose(key, [False, True] if c.tier != 'quick' or key[0] != 'a' else [False]):
                d[key] = v
        if i == 0 and c.choose('none given', [False, True]):
            d.update({k: None for k in ('always_import_strs', 'always_assign_strs') if k not in d})
        conf.append(d)
    before = [dict(d) for d in conf]
    pm = rejected(c, lambda: w.manager('p', specific_class_config_dicts=conf), lacks, f'{[sorted(k for k, v in d.items() if v is not None) for d in conf]}')
    c.check(conf == before, 'the definitions of the user stay', '')
    if pm is not None:
        accepted(c, w, pm, [d['name'] for d in conf], ['s'], 'list')


def h_later(c):
    """a contradiction which comes or goes before the next load"""
    w = World(c, UM)
    names = ['sc', 'td']
    top = c.choose('before', [['s'], ['sc'], ['s', 'td']])
    conf = names_project(c, w, names, top, 'list')
    clash = bool(set(names) & set(top))
    pm = w.manager('p', load=False, specific_class_config_dicts=conf)
    rejected(c, pm.load, clash, f'{names} beside {top}')
    then = c.choose('after', [['s'], ['td'], ['t', 'sc'], []])
    names_project(c, w, names, then, 'list')
    clash = bool(set(names) & set(then))
    again = c.choose('again', ['load', 'reload', 'new manager'])
    if again == 'new manager':
        pm2 = rejected(c, lambda: w.manager('p', specific_class_config_dicts=conf), clash, f'{then} later')
    else:
        rejected(c, getattr(pm, again), clash, f'{then} later')
        pm2 = pm
    if not clash:
        accepted(c, w, pm2, names, then, 'list')


HAVE = {
    'p/pipeline_dict.py': ['from um import f\npipeline_dict = {"s": [f]}\n', '# mine\npipeline_dict = {}\n', ''],
    'p/sc_dict.py': ['class_dict = {"x": ["one"]}\n', ''],
    'p/td_dict.py': ['class_dict = {}  # mine\n'],
    'p/defaults/s/f.py': ['import symvals\na = symvals.x\nb = 2\nfrom pyfileconf import Selector\ns = Selector()\n'],
    'p/defaults/other.txt': ['other\n'],
    'p/README': ['read me\n'],
}


def h_create(c):
    """what exists of a project, and what is made"""
    import pyfileconf
    w = World(c, UM)
    w.val('x', FEW)
    have = {}
    if not c.flag('no folder'):
        os.makedirs(os.path.join(w.root, 'p'))
        for rel, texts in HAVE.items():
            k = c.choose('has ' + rel, [None] + (texts if c.tier != 'quick' else [t for t in texts if t[:1] != '#'] if rel[2:4] not in ('td', 'RE') else []))
            if k is not None:
                have[rel] = k
                w.write(rel, k)
    name = c.choose('config folder', ['defaults', 'conf'])
    log = c.choose('log folder', [None, 'p/logs', 'logs'])
    # also when the other way to make a project comes first
    first = c.choose('create_project first', [False, True]) if name == 'defaults' else False
    if log:
        pyfileconf.options.set_option('log_folder', os.path.join(w.root, log))
        w.c.check(os.path.isdir(os.path.join(w.root, log)), 'the missing folder is made', log)
        if c.choose('log folder gone', [False, True]):
            for f in os.listdir(os.path.join(w.root, log)):
                os.unlink(os.path.join(w.root, log, f))
            os.rmdir(os.path.join(w.root, log))
    conf = [{'class': w.um.S, 'name': 'sc'}, {'class': w.um.T, 'name': 'td'}][:c.choose('dictionaries', [0, 1, 2])]
    if first:
        from pyfileconf.main import create_project
        create_project(os.path.join(w.root, 'p'), os.path.join(w.root, log) if log else None, conf)
    kw = {} if name == 'defaults' else {'default_config_folder_name': name}
    stamps = {r: os.stat(os.path.join(w.root, r)).st_mtime_ns for r in have}
    pm = w.manager('p', load=False, specific_class_config_dicts=conf, **kw)
    needed = ['p/pipeline_dict.py'] + [f'p/{d["name"]}_dict.py' for d in conf]
    files = {k: v.decode() for k, v in w.files().items() if k not in ('um.py',) and not k.endswith('.log')}
    made = sorted(set(files) - set(have))
    c.check(made == sorted(set(needed) - set(have)), 'exactly the missing files are made', f'{made} beside {sorted(have)}')
    for rel, text in have.items():
        c.check(files.get(rel) == text and os.stat(os.path.join(w.root, rel)).st_mtime_ns == stamps[rel], 'an existing file is not touched', rel)
    folders = {os.path.relpath(os.path.join(d, s), w.root) for d, ss, _ in os.walk(w.root) for s in ss if s != '__pycache__'}
    want = {'p', f'p/{name}'} | {os.path.dirname(r) for r in have if r.count('/') > 1} | ({log} if log else set())
    extra = {'p/defaults', 'p/conf'} if name == 'conf' else set()
    c.check(want - extra <= folders <= want | extra | {'p/defaults/s'} & folders, 'exactly the missing folders are made', f'{sorted(folders)} instead of {sorted(want)}')
    pm.load()
    c.check(os.path.isdir(os.path.join(w.root, 'p', name)), 'the missing folder is made', name)
    for rel, text in have.items():
        c.check(w.read(rel) == text, 'an existing file is not touched', f'{rel} after the load')
    if 's": [f]' in have.get('p/pipeline_dict.py', ''):
        got = w.received(pm, 's.f')
        if name == 'defaults' and 'p/defaults/s/f.py' in have:
            c.eq(got['a'], w.sv.x, 'the project made is used', '')
        else:
            c.eq(got['a'], None, 'the project made is used', '')
    if conf and '"one"' in have.get('p/sc_dict.py', ''):
        w.rec.take()
        pm.run('sc.x.one')
        c.check([k[0] for k in w.rec.take()] == ['S:one'], 'the project made is used', 'sc')
    now = set(w.files())
    pm2 = w.manager('p', specific_class_config_dicts=conf, **kw)
    c.check(set(w.files()) == now, 'a complete project is left as it is', f'{sorted(set(w.files()) ^ now)}')


HARNESSES = [
    H('options', h_options, 'every pair of 5 ways to give auto_pdb and force_continue, arbitrary values', share=1),
    H('names', h_names, '1..3 class dictionaries named from 4 names beside 6 sets of top-level sections', share=2),
    H('any name', h_any_name, f'{len(NAMES)} names (attributes of managers and registrars, manager, functions) beside 6 tops and 4 inner sections'),
    H('keys', h_keys, '1 or 2 class dictionaries, name and class each given, None or missing, optional keys given or not'),
    H('later', h_later, 'a clash before or after, 3 ways to load again'),
    H('create', h_create, f'any subset of {len(HAVE)} files in place, log folder none, inside or outside, 0..2 class dictionaries, 2 config folder names', share=2),
]
ASSUMPTIONS = [
    'no class dictionary is named section (reserved for section.py) or pipeline (its file would be the pipeline dictionary)',
    'with another default_config_folder_name a folder named defaults may be made too (an existing test requires it), and the named one is made at load',
    'the content of log files is not considered',
]
