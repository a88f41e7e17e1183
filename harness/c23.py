"""C23: a failed load leaves nothing behind and can be retried."""
import os
import sys

from symex.driver import H
from harness.common import World, fn_src, class_src, FEW

UM = class_src('S', key='name').replace('        self.name = name\n', '        self.name = name\n        hit("init", name=name)\n')
DICT = "from fm import f, g\npipeline_dict = {'s': [f], 't': {'u': [g]}}\n"
SC = "class_dict = {'x': ['one']}\n"
FM = 'from symrec import hit\n\n' + fn_src('f') + fn_src('g')
GOOD = {
    'fm.py': FM,
    'vm.py': 'import symvals\nimport vm2\nX = symvals.x\n',
    'vm2.py': 'import symvals\nY = symvals.y\n',
    'p/pipeline_dict.py': DICT,
    'p/sc_dict.py': SC,
    'p/defaults/s/section.py': 'import vm\na = vm.X\n',
    'p/defaults/t/section.py': 'from vm2 import Y as a\n',
    'p/defaults/t/u/section.py': '\n',
    'p/defaults/s/f.py': 'import symvals\na = None\nb = symvals.own  # mine\n',
    'p/defaults/sc/x/one.py': "import symvals\nname = 'one'\na = symvals.own\nb = None\n",
}
RAISE = 'import symvals\nsymvals.fail()\n'
# where it fails: file -> broken content (None: removed, bytes: as they are)
FAULTS = {
    'dictionary syntax': {'p/pipeline_dict.py': "from fm import f, g\npipeline_dict = {'s': [f\n"},
    'dictionary not imported': {'p/pipeline_dict.py': "from fm import f, g\npipeline_dict = {'s': [f], 't': {'u': [h]}}\n"},
    'dictionary module': {'p/pipeline_dict.py': "from fm import g\nfrom nowhere import f\npipeline_dict = {'s': [f], 't': {'u': [g]}}\n"},
    'dictionary function': {'p/pipeline_dict.py': "from fm import f, zz\npipeline_dict = {'s': [f], 't': {'u': [zz]}}\n"},
    'module syntax': {'fm.py': FM + 'def ('},
    'function gone': {'fm.py': FM.replace('def g', 'def gg')},
    'class dictionary syntax': {'p/sc_dict.py': 'class_dict = {'},
    'class dictionary of others': {'p/sc_dict.py': 'class_dict = {"x": [undefined_name.one()]}\n'},
    'item syntax': {'p/defaults/s/f.py': 'import symvals\na = None\nb = (symvals.own\n'},
    'item bytes': {'p/defaults/s/f.py': b'a = "\xff\xfe"\n'},
    'class item syntax': {'p/defaults/sc/x/one.py': "name = 'one'\na = [1\n"},
    'section syntax': {'p/defaults/s/section.py': 'import vm\na = vm.X)\n'},
    'section module': {'p/defaults/s/section.py': 'import vm\nimport nowhere\na = vm.X\n'},
    'section name': {'p/defaults/s/section.py': 'import vm\na = vm.Z\n'},
    'name clash': {'p/pipeline_dict.py': DICT.replace("'t'", "'sc'")},
}
# where the user's own code raises
RAISING = {
    'section raises': {'p/defaults/s/section.py': 'import vm\n' + RAISE + 'a = vm.X\n'},
    'last section raises': {'p/defaults/t/u/section.py': RAISE},
    'main section raises': {'p/defaults/section.py': 'import vm\n' + RAISE},
    'module raises': {'vm.py': GOOD['vm.py'] + RAISE},
    'inner module raises': {'vm2.py': GOOD['vm2.py'] + RAISE},
    'class raises': {},
}
EXC = ['ValueError', 'ImportError', 'KeyError', 'AttributeError', 'StopIteration', 'RecursionError', 'SystemExit', 'KeyboardInterrupt']


def put(w, files):
    for rel, text in files.items():
        path = os.path.join(w.root, rel)
        if text is None:
            if os.path.exists(path):
                os.unlink(path)
        elif isinstance(text, bytes):
            w.write(rel, '')
            with open(path, 'wb') as f:
                f.write(text)
        else:
            w.write(rel, text)


def state():
    from pyfileconf import context, options
    return len(list(context.stack)), context.file_is_currently_being_loaded, context.currently_running_section_path_str


def user_modules(w):
    return {k: m for k, m in sys.modules.items() if str(getattr(m, '__file__', None)).startswith(w.root)}


def results(c, w, pm, x, y, own, what):
    want = {'s.f': {'a': x, 'b': own}, 't.u.g': {'a': y, 'b': None}, 'sc.x.one': {'a': own, 'b': None}}
    for path, args in want.items():
        w.rec.take()
        pm.run(path)
        calls = [k for k in w.rec.take() if k[0] != 'init']
        c.check([k[0] for k in calls] == [{'s.f': 'f', 't.u.g': 'g'}.get(path, 'S:one')], 'the retry gives the result of a first load', f'{path} {what}: {calls}')
        for k, v in args.items():
            c.eq(calls[0][1][k], v, 'the retry gives the result of a first load', f'{path}.{k} {what}')


def make(c, others=True):
    w = World(c, UM)
    put(w, GOOD)
    w.x, w.y, w.own = w.val('x', FEW), w.put('y', 'y'), w.val('own', ('int', 'obj'))
    w.conf = [{'class': w.um.S, 'name': 'sc'}]

    def fail():
        raise w.exc
    w.sv.fail = fail
    w.sv.q = 'of q'
    w.write('qm.py', 'import symvals\nQ = symvals.q\n' + FM)
    w.project('q', '{}')
    w.write('q/pipeline_dict.py', "from qm import f\npipeline_dict = {'s': [f]}\n")
    w.write('q/defaults/s/section.py', 'import qm\na = qm.Q\n')
    q = w.manager('q')
    c.check(w.received(q, 's.f')['a'] == 'of q', 'another manager is as before', 'first')
    return w


def spoil(c, w, fault, exc=None):
    put(w, {**FAULTS, **RAISING}[fault])
    if fault in RAISING:
        kind = exc or c.choose('exception', EXC)
        w.exc = getattr(__import__('builtins'), kind)('broken by ' + kind)
        if fault == 'class raises':
            w.rec.on['init'] = lambda **k: w.sv.fail()
    else:
        w.exc = None


def attempt(c, w, pm, how, fault):
    """a load which fails, and what it leaves"""
    modules = set(sys.modules)
    files = w.files()
    others = {k: m for k, m in user_modules(w).items() if k in ('qm', 'um')}
    if how == 'reload':
        modules -= {'vm', 'vm2'}
    try:
        pm.reload() if how == 'reload' else pm.load()
    except BaseException as e:
        c.check(isinstance(e, Exception) or e is w.exc, 'the exception reaches the caller', f'{fault}: {type(e).__name__} {e}')
        if w.exc is not None:
            c.check(e is w.exc, 'the exception reaches the caller', f'{fault}: {type(e).__name__} {e} instead of {w.exc!r}')
    else:
        c.fail('the exception reaches the caller', f'{fault}: none raised')
    left = set(user_modules(w)) - modules
    c.check(not left, 'no module of the failed load stays', f'{fault}: {sorted(left)}')
    c.check(state() == (0, False, None), 'nothing is considered running or loading', f'{fault}: {state()}')
    c.check({k: user_modules(w).get(k) for k in others} == others, 'modules loaded before stay', fault)
    now = w.files()
    for k, v in files.items():
        if k.startswith('p/defaults/') and k.endswith('.py'):
            kept = [x.strip() for x in v.splitlines() if x.strip()]
            c.check(k in now and [x.strip() for x in now[k].splitlines() if x.strip() in kept] == kept, 'no config file loses its content', f'{fault}: {k} {now.get(k)}')
        else:
            c.check(now.get(k) == v, 'no other file changes', f'{fault}: {k}')


def repair(c, w, fault, new=True):
    broken = {**FAULTS, **RAISING}[fault]
    w.rec.on.pop('init', None)
    put(w, {k: GOOD.get(k) for k in broken})
    if new:
        w.x, w.y = w.put('x', w.c.val('x2', FEW)), w.put('y', 'y2')


def retry(c, w, pm, how):
    from pyfileconf import PipelineManager
    if how == 'new manager':
        pm = PipelineManager(folder=os.path.join(w.root, 'p'), name='p', specific_class_config_dicts=w.conf)
        pm.load()
    elif how == 'reload':
        pm.reload()
    else:
        pm.load()
    return pm


def after(c, w, pm, what):
    results(c, w, pm, w.x, w.y, w.own, what)
    c.check(w.received(w.pms['q'], 's.f')['a'] == 'of q', 'another manager is as before', what)
    v = w.put('v', 'updated')
    pm.update({'b': v}, 's.f')
    c.check(w.received(pm, 's.f')['b'] is v, 'the manager works after the retry', what)
    # what the modules say is read again at every reload
    w.x, w.y = w.put('x', 'x of reload'), w.put('y', 'y of reload')
    pm.reload()
    results(c, w, pm, w.x, w.y, w.own, what + ', then reloaded')


def h_first(c):
    """the first load fails"""
    w = make(c)
    fault = c.choose('fault', list(FAULTS) + list(RAISING))
    pm = w.manager('p', load=False, specific_class_config_dicts=w.conf)
    spoil(c, w, fault)
    for i in range(c.choose('failures', [1, 2])):
        attempt(c, w, pm, 'load', fault)
    repair(c, w, fault)
    pm = retry(c, w, pm, c.choose('retry', ['load', 'reload', 'new manager']))
    after(c, w, pm, fault)


def h_again(c):
    """a reload, or another load, fails"""
    w = make(c)
    fault = c.choose('fault', list(FAULTS) + list(RAISING))
    pm = w.manager('p', specific_class_config_dicts=w.conf)
    results(c, w, pm, w.x, w.y, w.own, 'at first')
    pm.update({'b': w.put('v', 'before')}, 's.f')
    how = c.choose('how', ['reload', 'load'])
    # another load does not import what is loaded already
    c.assume(how == 'reload' or fault not in ('module raises', 'inner module raises'))
    spoil(c, w, fault, exc='ValueError' if c.tier == 'quick' else None)
    attempt(c, w, pm, how, fault)
    repair(c, w, fault)
    again = c.choose('retry', ['load', 'reload', 'new manager'])
    if how == 'load' and again != 'reload':
        pm = retry(c, w, pm, again)
        pm = retry(c, w, pm, 'reload') if again == 'load' else pm
        c.assume(again == 'load')
    else:
        pm = retry(c, w, pm, again)
    after(c, w, pm, fault + ' by ' + how)


def h_two(c):
    """two causes, repaired one after the other"""
    w = make(c)
    points = ['dictionary syntax', 'class dictionary syntax', 'module syntax', 'item syntax', 'section raises', 'last section raises', 'module raises', 'inner module raises', 'class raises', 'main section raises']
    one, two = c.choose('fault', points), c.choose('other fault', points)
    c.assume(one != two)
    pm = w.manager('p', load=False, specific_class_config_dicts=w.conf)
    if c.choose('loaded', [False, True]):
        pm.load()
        results(c, w, pm, w.x, w.y, w.own, 'at first')
    spoil(c, w, one, 'ValueError')
    spoil(c, w, two, 'ValueError')
    w.exc = None
    w.sv.fail = lambda: (_ for _ in ()).throw(ValueError('broken'))
    attempt(c, w, pm, 'reload' if 'runner' in vars(pm) else 'load', one + ' and ' + two)
    repair(c, w, one)
    if two == 'class raises':
        w.rec.on['init'] = lambda **k: w.sv.fail()
    attempt(c, w, pm, 'load', two)
    repair(c, w, two)
    pm.load()
    after(c, w, pm, one + ' and ' + two)


def h_loads(c):
    """histories of loads: a reload imports again what any of them imported"""
    w = make(c)
    pm = w.manager('p', specific_class_config_dicts=w.conf)
    for i in range(3):
        step = c.choose(f'step{i}', ['load', 'more', 'failed load', 'run', 'failed reload', 'other'])
        if step == 'load':
            pm.load()
        elif step == 'more':
            # a load which imports a module that no earlier one has
            put(w, {'vm3.py': 'import symvals\nZ = symvals.y\n', 'p/defaults/t/u/section.py': 'from vm3 import Z as a\n'})
            pm.load()
        elif step == 'run':
            pm.run(['s.f', 'sc.x.one'])
        elif step == 'other':
            w.pms['q'].reload()
        else:
            spoil(c, w, 'last section raises', 'ValueError')
            attempt(c, w, pm, step.split()[-1], 'last section raises')
            repair(c, w, 'last section raises', new=False)
    w.x, w.y = w.put('x', w.c.val('x2', FEW)), w.put('y', 'y2')
    pm.reload()
    after(c, w, pm, 'history')


# forms of importing what is in a package: lines for section.py
FORMS = {
    'from package.module': 'from pk.sub import S\na = S\n',
    'import package.module': 'import pk.sub\na = pk.sub.S\n',
    'from package': 'from pk import sub\na = sub.S\n',
    'as': 'import pk.sub as other\na = other.S\n',
    'deeper': 'from pk.inner.deep import D as a\n',
    'from inner package': 'from pk.inner import deep\na = deep.D\n',
    'relative': 'from pk.rel import R as a\n',
    'of the package': 'from pk import A as a\n',
}
PACKAGE = {
    'pk/__init__.py': 'import symvals\nA = symvals.x\n',
    'pk/sub.py': 'import symvals\nS = symvals.x\n',
    'pk/rel.py': 'from . import sub\nR = sub.S\n',
    'pk/inner/__init__.py': '\n',
    'pk/inner/deep.py': 'import symvals\nD = symvals.x\n',
    'lone/__init__.py': '\n',
    'lone/mod.py': 'import symvals\nL = symvals.y\n',
}
BEFORE = {'nothing': [], 'package': ['pk'], 'module': ['pk', 'pk.sub'], 'inner package': ['pk', 'pk.inner'], 'inner module': ['pk', 'pk.inner', 'pk.inner.deep']}


def h_packages(c):
    """modules of packages, some of which are imported before"""
    import importlib
    w = make(c)
    put(w, PACKAGE)
    form = c.choose('form', list(FORMS))
    before = c.choose('imported before', list(BEFORE))
    by = c.choose('by', ['user', 'other manager']) if before != 'nothing' else 'user'
    put(w, {'p/defaults/s/section.py': FORMS[form], 'p/defaults/t/section.py': 'from lone.mod import L as a\n'})
    known = dict.fromkeys(BEFORE[before])
    w.x = w.put('x', 'at first')
    if by == 'user':
        for n in known:
            importlib.import_module(n)
    else:
        w.write('q/defaults/s/section.py', 'import qm\n' + ''.join(f'import {n}\n' for n in known) + 'a = qm.Q\n')
        w.pms['q'].reload()
    for n in known:
        known[n] = sys.modules[n]
    # what is imported already is not imported again
    part = {'of the package': 'pk', 'deeper': 'pk.inner.deep', 'from inner package': 'pk.inner.deep'}.get(form, 'pk.sub')
    fixed = part in known

    def values(x, y):
        if not fixed:
            w.x = x
        w.put('x', x)
        w.y = w.put('y', y)

    def left(what, gone):
        now = {k: m for k, m in sys.modules.items() if k.split('.')[0] in ('pk', 'lone')}
        if gone:
            c.check(set(now) == set(known), 'no module of the failed load stays', f'{what}: {sorted(now)} instead of {sorted(known)}')
        for k, m in known.items():
            c.check(now.get(k) is m, 'modules loaded before stay', f'{what}: {k}')
        if gone and 'pk' in known:
            names = [n for n in ('sub', 'rel', 'inner') if hasattr(known['pk'], n)]
            c.check(names == [n for n in ('sub', 'rel', 'inner') if 'pk.' + n in known], 'no module of the failed load stays', f'{what}: {names} are reached by their package')
    pm = w.manager('p', load=False, specific_class_config_dicts=w.conf)
    first = c.choose('first', ['fails', 'loads'])
    x2 = w.c.val('x2', FEW)
    if first == 'loads':
        values('of a load', 'of a load')
        pm.load()
        results(c, w, pm, w.x, w.y, w.own, 'at first')
        left('loaded', False)
    fault = c.choose('fault', ['last section raises', 'main section raises', 'item syntax', 'section itself'])
    if fault == 'section itself':
        put(w, {'p/defaults/s/section.py': FORMS[form] + RAISE})
        w.exc = ValueError('broken')
    else:
        spoil(c, w, fault, 'ValueError')
    values('of the failed', 'of the failed')
    attempt(c, w, pm, 'reload' if first == 'loads' else 'load', fault)
    left('failed', True)
    put(w, {'p/defaults/s/section.py': FORMS[form], 'p/defaults/section.py': None, **{k: GOOD[k] for k in ('p/defaults/s/f.py', 'p/defaults/t/u/section.py')}})
    values(x2, 'y2')
    pm.load()
    left('repaired', False)
    after_packages(c, w, pm, form + ' after ' + before, values)


def after_packages(c, w, pm, what, values):
    results(c, w, pm, w.x, w.y, w.own, what)
    values('of reload', 'of reload')
    pm.reload()
    results(c, w, pm, w.x, w.y, w.own, what + ', then reloaded')


HARNESSES = [
    H('first', h_first, f'{len(FAULTS)} faults of files and {len(RAISING)} points where user code raises any of {len(EXC)} exceptions, once or twice, 3 ways to retry', share=2),
    H('again', h_again, f'the same on a reload or another load of a loaded manager', share=2),
    H('two', h_two, '90 pairs of faults repaired one after the other, on a first or a later load'),
    H('packages', h_packages, f'{len(FORMS)} forms of importing from a package of which {len(BEFORE)} parts are imported before by the user or another manager, first or later load'),
    H('loads', h_loads, 'histories of 3 loads, loads that import more, failed loads, failed reloads, runs and reloads of another manager'),
]
ASSUMPTIONS = ['user modules are plain modules: importing them again has no effects of its own']
