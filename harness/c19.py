"""C19: creating an entry adds exactly that entry, durably."""
import importlib
import os
import sys

from symex.driver import H
from harness.common import World, fn_src, class_src, FEW

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
NEW = fn_src('n') + class_src('N') + fn_src('d', sig='a=1, b="x"')

HEADS = ['from um import f, g, K\n', 'from um import f, g\nfrom um import K\n', 'from um import (\n    f,\n    g,\n    K,\n)\n', 'import os\nfrom um import *\nfrom um import f, g, K\n',
         '# import\nfrom um import f, g, K  # these\nfrom os import path\n\n\n', 'from um import f, g, K\nfrom nu import n\n',
         'from um import K\nfrom um import g\nfrom um import f\nimport um\n', 'from nu import n as other\nfrom um import f, g, K\n',
         'import um.f as x\nfrom um import f, g, K\n'[len('import um.f as x\n'):]]
# dictionary source -> entries in order
DICTS = ["{}", "{'s': [f, g]}", "{'s': {'t': [f], 'u': [K]}, 'v': [g]}", "{'v': [K], 's': {'t': {'w': [f]}, 'u': []}}",
         "{'s': [f, {'u': [g], 'x': {'y': [K]}}], 'v': [f]}", "{'v': [g, f, K]}", "{'s': [f], 'v': {'t': [g],}}",
         "{'v': [], 's': [K, g, f], 'a': [f]}", '{"s": [f,], # note\n  "a b": [g], "it\'s": [K]}']
ENTRIES = [[], ['s.f', 's.g'], ['s.t.f', 's.u.K', 'v.g'], ['v.K', 's.t.w.f'], ['s.f', 's.u.g', 's.x.y.K', 'v.f'], ['v.g', 'v.f', 'v.K'],
           ['s.f', 'v.t.g'], ['s.K', 's.g', 's.f', 'a.f'], ['s.f', 'a b.g', "it's.K"]]
WHERE = ['s', 'new', 's.t', 's.new', 'new.deep.er', 'v', 's.u', 's.t.w', 's.t.new.er', 'v.new']
WHAT = ['n', 'N', 'f', 'd', 'K']


def refused(entries, where, sections=()):
    """a section which has only sections, each in a dictionary"""
    if where in sections:
        return 'holds sections'
    inside = [e[len(where) + 1:] for e in entries if e.startswith(where + '.')]
    if inside and all('.' in e for e in inside):
        return 'holds sections'
    if any(where == e or where.startswith(e + '.') for e in entries):
        return 'is an item'
    return None


def config(w, path, values, pm='p'):
    w.write(f'{pm}/defaults/{path.replace(".", "/")}.py', 'import symvals\n' + ''.join(f'{k} = symvals.{v}\n' for k, v in values.items()))


def snapshot(c, w, pm, entries):
    return {e: w.received(pm, e) for e in entries}


def same_configs(c, w, pm, before, what):
    for e, old in before.items():
        now = w.received(pm, e)
        for k in old:
            c.eq(now[k], old[k], 'existing entries keep their configuration', f'{what}: {e}.{k}')
        c.check(set(now) == set(old), 'existing entries keep their configuration', f'{what}: {e}')


def order(w, pm):
    """all entries in definition order, as running everything shows them"""
    from pyfileconf.basemodels.collection import Collection
    from pyfileconf.pipelines.models.registrar import PipelineRegistrar
    out = []

    def visit(items, prefix):
        for item in items:
            if isinstance(item, Collection):
                visit(item, prefix + item.name + '.')
            else:
                out.append(prefix + item.name)
    general, = [x for x in vars(pm).values() if type(x) is PipelineRegistrar]
    visit(general.collection, '')
    return out


def dictionary(w, rel='p/pipeline_dict.py', name='pipeline_dict'):
    """what the dictionary file itself says, evaluated by Python"""
    ns = {}
    exec(compile(w.read(rel), rel, 'exec'), ns)
    out = []

    def visit(d, prefix):
        if isinstance(d, dict):
            for k, v in d.items():
                visit(v, prefix + k + '.')
        else:
            for x in d:
                if isinstance(x, dict):
                    visit(x, prefix)
                else:
                    out.append((prefix + (x if isinstance(x, str) else x.__name__), x))
    visit(ns[name], '')
    return out


def set_up(c, what=None):
    w = World(c, UM)
    w.nu = w.module('nu', 'from symrec import hit\n\n' + NEW)
    return w


def in_order(got, entries, full):
    """the old entries in their order, and the new one at the end of its section"""
    where = full.rpartition('.')[0]
    if full in entries:
        return got == entries
    if got.count(full) != 1 or [e for e in got if e != full] != entries:
        return False
    at = got.index(full)
    if any(e.startswith(where + '.') for e in got[at + 1:]):
        return False
    for n in range(1, where.count('.') + 2):
        prefix = '.'.join(where.split('.')[:n]) + '.'
        mine = [i for i, e in enumerate(got) if e.startswith(prefix)]
        if mine != list(range(mine[0], mine[-1] + 1)):
            return False
    return True


def create(c, i, first=None, head=HEADS[0], wheres=WHERE, whats=WHAT, kinds=FEW):
    entries = list(ENTRIES[i])
    w = set_up(c)
    w.write('p/pipeline_dict.py', f'{head}\npipeline_dict = {DICTS[i]}\n')
    for e in entries[:1]:
        w.val('v0', kinds)
        config(w, e, {'a': 'v0'})
    pm = w.manager('p')
    if entries:
        pm.update({'b': w.val('v1', kinds)}, entries[-1])
    before = snapshot(c, w, pm, entries)
    where = c.choose('where', wheres)
    what = c.choose('what', whats)
    obj = getattr(w.nu, what, None) or getattr(w.um, what)
    full = f'{where}.{what}'
    c.assume(full not in entries)
    files = w.files('p')
    try:
        pm.create(where, obj)
    except (ValueError, TypeError) as e:
        c.check(refused(entries, where), 'an entry can be created', f'{full} in {DICTS[i]}: {e}')
        c.check(w.files('p') == files, 'a refused creation changes no file', full)
        same_configs(c, w, pm, before, 'refused')
        return None
    c.check(not refused(entries, where), 'what a dictionary cannot hold is refused', f'{full} in {DICTS[i]}')
    wanted = check_created(c, w, pm, files, full, entries, obj, before)
    return w, pm, where, what, obj, full, wanted, before


DEFAULTS = {'n': {'a': None, 'b': None}, 'N': {'a': None, 'b': None}, 'f': {'a': None, 'b': None}, 'g': {'a': None, 'b': None}, 'd': {'a': 1, 'b': 'x'},
            'K': {'a': None, 'b': None}}


def check_created(c, w, pm, files, full, entries, obj, before):
    c.check(w.received(pm, full) == DEFAULTS[full.split('.')[-1]], 'the new entry runs with its defaults', full)
    same_configs(c, w, pm, before, 'after creating')
    wanted = check_dictionary(c, w, full, entries, obj)
    after = w.files('p')
    mine = f'p/defaults/{full.replace(".", "/")}.py'
    c.check(mine in after, 'the new entry has a config file', f'{sorted(after)}')
    for k, v in files.items():
        if k != 'p/pipeline_dict.py' and k != mine:
            c.check(after.get(k) == v, 'files of other entries stay', k)
    for k in after:
        if k not in files and k != mine:
            c.check(k.endswith('section.py'), 'no other files are made', k)
    return wanted


def check_dictionary(c, w, full, entries, obj):
    try:
        items = dictionary(w)
    except Exception as e:
        c.fail('the dictionary file can be evaluated', f'{w.read("p/pipeline_dict.py")!r}: {type(e).__name__} {e}')
    got = [k for k, _ in items]
    c.check(in_order(got, entries, full), 'the dictionary has the old entries in their order and the new one', f'{got} for {entries} and {full}')
    for k, x in items:
        own = obj if k == full else getattr(w.um, k.split('.')[-1], None) or getattr(w.nu, k.split('.')[-1])
        c.check(x is own, 'every entry is imported from its own module', k)
    return got


def check_again(c, w, how, full, wanted, before, persisted):
    from pyfileconf import PipelineManager
    pm = w.pms['p']
    if how == 'reload':
        pm.reload()
    else:
        pm = PipelineManager(folder=os.path.join(w.root, 'p'), name='p')
        pm.load()
    c.check(order(w, pm) == wanted, 'after loading again all entries are there, in order', f'{order(w, pm)}')
    c.check(w.received(pm, full) == DEFAULTS[full.split('.')[-1]], 'the new entry runs with its defaults', f'{full} after {how}')
    for e, old in before.items():
        now = w.received(pm, e)
        for k in old:
            c.eq(now[k], old[k] if (e, k) not in persisted else None, 'existing entries keep their configuration', f'after {how}: {e}.{k}')
    return pm


def h_main(c):
    """any entry into any dictionary"""
    i = c.choose('dictionary', list(range(len(DICTS))))
    out = create(c, i, wheres=WHERE, whats=WHAT[:3] if c.tier == 'quick' else WHAT)
    if out is None:
        return
    w, pm, where, what, obj, full, wanted, before = out
    persisted = {(ENTRIES[i][-1], 'b')} if ENTRIES[i] else set()
    check_again(c, w, c.choose('again', ['reload', 'new manager']), full, wanted, before, persisted)


def h_head(c):
    """the imports of the dictionary file"""
    head = c.choose('head', HEADS)
    out = create(c, c.choose('dictionary', [1, 2]), head=head, wheres=['s', 'new.deep', 's.t'], whats=['n', 'f', 'N'])
    if out is None:
        return
    w, pm, where, what, obj, full, wanted, before = out
    i = 1 if 's.g' in wanted else 2
    check_again(c, w, 'new manager', full, wanted, before, {(ENTRIES[i][-1], 'b')})


def h_repeat(c):
    """two entries one after another, the second possibly the same"""
    i = c.choose('dictionary', [0, 2, 4] if c.tier == 'quick' else list(range(8)))
    some = ['s', 'new', 's.t', 'new.deep']
    out = create(c, i, wheres=some, whats=['n', 'f', 'N'], kinds=('obj',))
    if out is None:
        return
    w, pm, where, what, obj, full, wanted, before = out
    v = w.val('v2', ('none', 'int'))
    pm.update({'a': v}, full)
    if c.choose('loaded again', [False, True]):
        pm.reload()
        before = snapshot(c, w, pm, wanted)
    else:
        before = snapshot(c, w, pm, wanted)
    where2 = c.choose('where2', some)
    what2 = c.choose('what2', ['n', 'f', 'g'])
    obj2 = getattr(w.nu, what2, None) or getattr(w.um, what2)
    full2 = f'{where2}.{what2}'
    files = w.files('p')
    try:
        pm.create(where2, obj2)
    except (ValueError, TypeError) as e:
        c.check(refused(wanted, where2), 'an entry can be created', f'{full2} after {full}: {e}')
        c.check(w.files('p') == files, 'a refused creation changes no file', full2)
        return
    if full2 in wanted:
        c.check([k for k, _ in dictionary(w)] == wanted, 'creating an entry that exists adds none', full2)
        now = w.files('p')
        c.check({k: v for k, v in now.items() if k != 'p/pipeline_dict.py'} == {k: v for k, v in files.items() if k != 'p/pipeline_dict.py'}, 'creating an entry that exists changes no other file', full2)
        c.check(order(w, pm) == wanted, 'creating an entry that exists adds none', full2)
        same_configs(c, w, pm, {k: v for k, v in before.items() if k != full2}, 'after creating again')
        w.rec.take()
        pm.run(where2)
        calls = w.rec.take()
        c.check(len(calls) == len([e for e in wanted if e.startswith(where2 + '.')]), 'creating an entry that exists adds none', f'{calls}')
        return
    wanted2 = check_created(c, w, pm, files, full2, wanted, obj2, before)
    from pyfileconf import PipelineManager
    pm = PipelineManager(folder=os.path.join(w.root, 'p'), name='p')
    pm.load()
    c.check(order(w, pm) == wanted2, 'after loading again all entries are there, in order', f'{order(w, pm)}')


SPECS = [('{}', []), ("{'x': ['one']}", ['x.one']), ("{'x': ['one', 'two'], 'y': {'z': ['one'], 'w': ['q']}}", ['x.one', 'x.two', 'y.z.one', 'y.w.q']),
         ("{'y': {'z': ['one']}, 'x': ['a b', \"it's\"]}", ['y.z.one', 'x.a b', "x.it's"]), ("{'y': {'z': []}, 'x': []}", []),
         ("{'x': ['one', {'y': ['two']}]}", ['x.one', 'x.y.two'])]
SPEC_NEW = ['x.new', 'new.one', 'y.z.new', 'y.new.er', 'new.deep.er.one', 'x.y.new', 'y.new', "x.it's", 'x.one']


def h_specific(c):
    """entries of specific-class dictionaries"""
    src, entries = c.choose('dictionary', SPECS)
    w = World(c, UM)
    w.project('p', "{'s': [f]}", None, {'sc': src, 'other': "{'x': ['one']}"}, 'f')
    kinds = FEW
    w.val('v0', kinds)
    for e in entries[:1]:
        config(w, 'sc.' + e, {'a': 'v0'})
    conf = [{'class': w.um.S, 'name': 'sc'}]
    if c.choose('second dictionary', [False, True]):
        w.um2 = w.module('um2', 'from symrec import hit\n\n' + class_src('T', key='name'))
        conf.append({'class': w.um2.T, 'name': 'other'})
    pm = w.manager('p', specific_class_config_dicts=conf)
    all_ = ['s.f'] + ['sc.' + e for e in entries] + (['other.x.one'] if len(conf) > 1 else [])
    last = all_[-1]
    pm.update({'b': w.val('v1', kinds)}, last)
    before = snapshot(c, w, pm, all_)
    new = c.choose('new', SPEC_NEW)
    full = 'sc.' + new
    files = w.files('p')
    try:
        pm.create(full)
    except (ValueError, TypeError) as e:
        c.check(refused(entries, new.rpartition('.')[0], ('y',) if "'y': {" in src else ()), 'an entry can be created', f'{new} in {src}: {e}')
        c.check(w.files('p') == files, 'a refused creation changes no file', full)
        same_configs(c, w, pm, before, 'refused')
        return
    if new in entries:
        now = w.files('p')
        c.check({k: v for k, v in now.items() if k != 'p/sc_dict.py'} == {k: v for k, v in files.items() if k != 'p/sc_dict.py'}, 'creating an entry that exists changes no other file', full)
        del before[full]
    else:
        c.check(not refused(entries, new.rpartition('.')[0], ('y',) if "'y': {" in src else ()), 'what a dictionary cannot hold is refused', f'{new} in {src}')
    same_configs(c, w, pm, before, 'after creating')
    after = w.files('p')
    mine = f'p/defaults/{full.replace(".", "/")}.py'
    c.check(mine in after, 'the new entry has a config file', f'{sorted(after)}')
    for k, v in files.items():
        c.check(k in ('p/sc_dict.py', mine) or after.get(k) == v, 'files of other entries stay', k)
    for k in after:
        c.check(k in files or k == mine, 'no other files are made', k)
    items = [k for k, _ in dictionary(w, 'p/sc_dict.py', 'class_dict')]
    c.check(in_order(items, entries, new), 'the dictionary has the old entries in their order and the new one', f'{items} for {entries}')
    name = new.rsplit('.', 1)[1]
    if new not in entries:
        check_new(c, w, pm, full, name)
    if c.choose('again', ['reload', 'new manager']) == 'reload':
        pm.reload()
    else:
        from pyfileconf import PipelineManager
        pm = PipelineManager(folder=os.path.join(w.root, 'p'), name='p', specific_class_config_dicts=conf)
        pm.load()
    if new not in entries:
        check_new(c, w, pm, full, name)
    for e, old in before.items():
        now = w.received(pm, e)
        for k in old:
            c.eq(now[k], old[k] if (e, k) != (last, 'b') else None, 'existing entries keep their configuration', f'after loading again: {e}.{k}')


def check_new(c, w, pm, full, name):
    obj = pm.get(full)
    c.check(type(obj) is w.um.S and obj.name == name and obj.a is None and obj.b is None, 'the new entry has its name and defaults', full)
    w.rec.take()
    pm.run(full)
    (got,) = w.rec.take()
    c.check(got[0] == f'S:{name}', 'the new entry runs', f'{got}')


def h_origin(c):
    """where a function is imported from, when more than one module has it"""
    w = set_up(c)
    w.write('p/pipeline_dict.py', "from um import f\npipeline_dict = {'s': [f]}\n")
    kind = c.choose('what', ['n', 'N'])
    how = c.choose('elsewhere', ['nowhere', 'main', 'temporary module', 'alias in another', 'package', 'private', 'method', 'wrapped'])
    pm = w.manager('p')
    obj = getattr(w.nu, kind)
    origin = 'nu'
    if how == 'main':
        main = sys.modules['__main__']
        setattr(main, kind, obj)
        c.on_close(lambda: delattr(main, kind))
    elif how == 'temporary module':
        import types
        m = types.ModuleType('gone')
        setattr(m, kind, obj)
        sys.modules['gone'] = m
        c.on_close(lambda: sys.modules.pop('gone', None))
        for k in list(sys.modules):
            if k != 'gone':
                sys.modules[k] = sys.modules.pop(k)
    elif how == 'alias in another':
        w.module('al', f'from nu import {kind} as other\n')
    elif how == 'package':
        w.write('pk/__init__.py', f'from .sub import {kind}\n')
        w.write('pk/sub.py', 'from symrec import hit\n\n' + NEW)
        importlib.invalidate_caches()
        pk = importlib.import_module('pk')
        obj = getattr(pk, kind)
    elif how == 'private':
        w.module('al', f'from nu import {kind}\n__all__ = []\n')
    elif how == 'wrapped':
        c.assume(kind == 'n')
        w.wr = w.module('wr', 'import functools\nfrom symrec import hit\n\n\ndef deco(fn):\n    @functools.wraps(fn)\n    def w(*a, **k):\n        return fn(*a, **k)\n    return w\n\n\n@deco\n'
                        + fn_src('n'))
        obj = w.wr.n
    before = snapshot(c, w, pm, ['s.f'])
    pm.create('t.u', obj)
    c.check(w.received(pm, f't.u.{kind}') == DEFAULTS[kind], 'the new entry runs with its defaults', how)
    sys.modules.pop('gone', None)
    main = sys.modules['__main__']
    held = main.__dict__.pop(kind, None)
    try:
        items = dictionary(w)
    except Exception as e:
        c.fail('the dictionary file can be evaluated', f'{w.read("p/pipeline_dict.py")!r}: {type(e).__name__} {e}')
    c.check([k for k, _ in items] == ['s.f', f't.u.{kind}'] and items[1][1] is obj, 'every entry is imported from its own module', f'{items}')
    from pyfileconf import PipelineManager
    pm = PipelineManager(folder=os.path.join(w.root, 'p'), name='p')
    pm.load()
    c.check(w.received(pm, f't.u.{kind}') == DEFAULTS[kind], 'the new entry runs with its defaults', how + ' loaded again')
    same_configs(c, w, pm, before, how)
    if held is not None:
        setattr(main, kind, held)


def h_wrong(c):
    """what cannot be created leaves everything as it was"""
    w = World(c, UM)
    w.nu = w.module('nu', 'from symrec import hit\n\n' + NEW + fn_src('f').replace("hit('f'", "hit('other f'") + 'def make():\n    def inner(a=1):\n        return a\n    return inner\n')
    w.project('p', "{'s': [f], 't': {'u': [g]}}", None, {'sc': "{'x': ['one']}"}, 'f, g')
    pm = w.manager('p', specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    all_ = ['s.f', 't.u.g', 'sc.x.one']
    pm.update({'a': w.val('v0', FEW)}, c.choose('updated', all_))
    before = snapshot(c, w, pm, all_)
    case = c.choose('case', ['no function', 'function for specific', 'short', 'shorter', 'local function', 'lambda', 'value', 'other of the name', 'section', 'item as section',
                             'specific section', 'specific item as section'])
    args = {'no function': ('s',), 'function for specific': ('sc.x.two', w.nu.n), 'short': ('sc.x',), 'shorter': ('sc',), 'local function': ('s', w.nu.make()),
            'lambda': ('new.t', lambda a=1: a), 'value': ('s', 3), 'other of the name': ('new', w.nu.f), 'section': ('t', w.nu.n), 'item as section': ('s.f', w.nu.n),
            'specific section': ('sc.x',), 'specific item as section': ('sc.x.one.y',)}[case]
    files = w.files('p')
    try:
        pm.create(*args)
    except Exception:
        pass
    else:
        c.fail('what cannot be created is refused', case)
    c.check(w.files('p') == files, 'a refused creation changes no file', lambda: f'{case}: ' + repr(sorted(k for k in set(files) | set(w.files("p")) if files.get(k) != w.files("p").get(k))))
    same_configs(c, w, pm, before, case)
    c.check(order(w, pm) == ['s.f', 't.u.g'], 'a refused creation adds nothing', f'{case}: {order(w, pm)}')
    pm.create('s', w.nu.n)
    pm.create('sc.x.more')
    c.check(order(w, pm) == ['s.f', 's.n', 't.u.g'], 'entries can still be created', f'{case}')
    pm.reload()
    pm.run(['s', 't', 'sc', 's.n', 'sc.x.more'])


HARNESSES = [
    H('main', h_main, f'{len(DICTS)} dictionaries times {len(WHERE)} sections times 3 (5) functions and classes, loaded again by either way, arbitrary values', share=2),
    H('head', h_head, f'{len(HEADS)} forms of imports, 2 dictionaries, 3 sections, 3 functions and classes'),
    H('repeat', h_repeat, '3 (8) dictionaries, two entries into any of 4 sections one after another, with or without loading in between', share=2),
    H('specific', h_specific, f'{len(SPECS)} specific-class dictionaries times {len(SPEC_NEW)} entries, alone or with a dictionary of another class', share=2),
    H('origin', h_origin, 'functions and classes which 8 kinds of other modules have too'),
    H('wrong', h_wrong, '12 entries which cannot be created'),
]
ASSUMPTIONS = ['the names of the functions and classes of a dictionary are unique within it: another one of the same name is refused',
               'a section which is a dictionary of sections is not given items: this is refused']
