"""C32: an operation that is refused or fails in the user's code leaves nothing behind."""
import os

from symex.driver import H
from harness.common import World, fn_src, class_src, view, FEW

# the constructors and update methods can be made to raise: before they do anything or between two attributes
UM = '''
class K:
    def __init__(self, a=None, b=None):
        hit('set', who=type(self).__name__)
        self.a = a
        hit('set', who=type(self).__name__)
        self.b = b
    def __call__(self):
        return hit('K', a=self.a, b=self.b)

class M(K):
    def __init__(self, a=None, b=None):
        super().__init__(a, b)
    def _pyfileconf_update_(self, a=None, b=None):
        hit('set', who='M')
        self.a = a
        hit('set', who='M')
        self.b = b

class S:
    def __init__(self, name=None, a=None, b=None):
        hit('set', who=name)
        self.name = name
        self.a = a
        hit('set', who=name)
        self.b = b
    def __call__(self):
        return hit(self.name, a=self.a, b=self.b)

class V(S):
    def __init__(self, name=None, a=None, b=None):
        super().__init__(name, a, b)
    def _pyfileconf_update_(self, **kwargs):
        for k, v in kwargs.items():
            hit('set', who=self.name)
            setattr(self, k, v)

''' + fn_src('f') + fn_src('g') + fn_src('h')
WHO = {'K': 't.K', 'M': 't.M', 'S1': 'sc.x.S1', 'V1': 'sv.x.V1'}
PATHS = {**WHO, 'f': 's.f', 'g': 's.g', 'h': 's.h', 'S2': 'sc.x.S2'}


class Oops(Exception):
    pass


class Halt(BaseException):
    """like KeyboardInterrupt: not an ordinary exception"""


def failure(c, points=(0, 1)):
    """what is raised, and at which step"""
    if c.tier != 'quick':
        return c.choose('exception', [Oops, Halt])('here'), c.choose('at', list(points))
    kind, at = c.choose('exception', [(Oops, 0), (Oops, 1), (Halt, 1)])
    return kind('here'), at


def idle(c, when):
    from pyfileconf import context
    c.check(not list(context.stack.frames) and not context.file_is_currently_being_loaded
            and context.currently_running_section_path_str is None, 'nothing is running or loading afterwards', when)


class Setup:
    """items with symbolic values a in their files; g reads the a of `read`"""

    def __init__(self, c, read=None, reader='g', load=True, kinds=('int', 'obj')):
        self.c = c
        self.w = w = World(c, UM)
        conf, self.file = {}, {}
        for name, path in PATHS.items():
            src = 'import symvals\nfrom pyfileconf import Selector\n\ns = Selector()\n'
            if path[:2] in ('sc', 'sv'):
                src += f'name = {name!r}\n'
            if read and name == reader:
                src += f'a = s.p.{PATHS[read]}.a\n'
                self.file[name] = {'b': w.put(f'{name}_b', f'file {name} b')}
            else:
                src += f'a = symvals.{name}_a\n'
                a = w.val(f'{name}_a', kinds) if name in (read, reader) else w.put(f'{name}_a', f'file {name} a')
                self.file[name] = {'a': a, 'b': w.put(f'{name}_b', f'file {name} b')}
            conf[path.replace('.', '/')] = src + f'b = symvals.{name}_b\n'
        w.project('p', "{'s': [f, g, h], 't': [K, M]}", conf, {'sc': "{'x': ['S1', 'S2']}", 'sv': "{'x': ['V1']}"}, 'f, g, h, K, M')
        self.pm = self.manager(load)
        self.fails = None

    def manager(self, load=True):
        um = self.w.um
        return self.w.manager('p', load=load, specific_class_config_dicts=[{'class': um.S, 'name': 'sc'}, {'class': um.V, 'name': 'sv'}])

    def fail(self, who, exc, nth):
        """the nth step of configuring `who` raises, from now on"""
        n = [0]

        def step(who=None, want=who):
            if who == want:
                n[0] += 1
                if n[0] > nth:
                    raise exc
        self.w.rec.on['set'] = step

    def mend(self):
        self.w.rec.on.pop('set', None)

    def value(self, name):
        self.w.rec.take()
        self.pm.run(PATHS[name])
        calls = [x for x in self.w.rec.take() if x[0] != 'set']
        self.c.check(len(calls) == 1, 'one run of an item calls it once', lambda: f'{name}: {calls}')
        return calls[0][1]

    def attempt(self, fn, exc, what):
        """whether it raised: then nothing but the exception of the user's code"""
        files = self.w.files('p')
        raised = False
        try:
            fn()
        except BaseException as e:
            if isinstance(e, (Oops, Halt)):
                raised = True
                self.c.check(e is exc, "the exception of the user's code reaches the caller", lambda: f'{what}: {e!r}')
            else:
                raise
        self.c.check(self.w.files('p') == files, 'a failed operation changes no file', what)
        idle(self.c, what)
        return raised

    def others(self, changed, when):
        for n in PATHS:
            if n not in changed:
                self.c.eq(self.value(n), self.file[n], 'other items are not affected', lambda: f'{n} {when}')


OPS = ['update', 'both', 'view', 'no persist', 'refresh', 'reset', 'section', 'batch', 'product']
THEN = ['run', 'again', 'other', 'refresh', 'reset']


def h_apply(c):
    """the object in use cannot take its new configuration"""
    who = c.choose('who', list(WHO))
    op = c.choose('operation', OPS)
    s = Setup(c, read=who)
    w, pm, path = s.w, s.pm, PATHS[who]
    file = dict(s.file[who])
    old, kept_old = dict(file), {}
    c.eq(s.value(who), old, 'the item runs with its configuration', 'first use')
    c.eq(s.value('g')['a'], old['a'], 'the item runs with its configuration', 'g')
    x = w.val('x', ('int', 'obj'))
    if op in ('reset', 'section') or c.tier != 'quick' and c.choose('updated before', [False, True]):
        y = w.val('y', ('int', 'obj'))
        pm.update(section_path_str=path, a=y)
        old, kept_old = {**old, 'a': y}, {'a': y}
    new, kept = {**old, 'a': x}, {**kept_old, 'a': x}
    if op == 'both':
        new, kept = {'a': x, 'b': 'new b'}, {'a': x, 'b': 'new b'}
    elif op == 'no persist':
        kept = kept_old
    elif op == 'refresh':
        w.put(f'{who}_a', x)
        w.put(f'{who}_b', 'new b')
        file = {'a': x, 'b': 'new b'}
        new, kept = {**file, **kept_old}, kept_old
    elif op in ('reset', 'section'):
        new, kept = dict(file), {}
    elif op in ('batch', 'product'):
        new, kept = {**old, 'a': x}, {**kept_old, 'a': x}
    do = {
        'update': lambda: pm.update(section_path_str=path, a=x),
        'both': lambda: pm.update({'b': 'new b'}, section_path_str=path, a=x),
        'view': lambda: setattr(view(c, w, 'p', path), 'a', x),
        'no persist': lambda: pm.update(section_path_str=path, pyfileconf_persist=False, a=x),
        'refresh': lambda: pm.refresh(path),
        'reset': lambda: pm.reset(path),
        'section': lambda: pm.reset(path.rsplit('.', 1)[0]),
        'batch': lambda: pm.update_batch([dict(section_path_str=path, a=x)]),
        'product': lambda: pm.run_product('s.h', [dict(section_path_str=path, a=x)]),
    }[op]
    exc, at = failure(c)
    s.fail(who, exc, at)
    if s.attempt(do, exc, op):
        if (c.tier != 'quick' or at == 0) and c.choose('twice', [False, True]):
            s.attempt(do, exc, op + ' again')
            s.attempt(lambda: pm.run(path), exc, 'run while it fails')
        states = [(old, kept_old), (new, kept)]
        if op == 'product':
            # sets every argument of the item
            states.append((new, new))
    else:
        states = [(new, kept), (new, new)] if op == 'product' else [(new, kept)]
    s.mend()
    then = c.choose('then', THEN)
    if then == 'again':
        do()
        states = states[1:] or states
    elif then == 'other':
        pm.update(section_path_str=path, b='other b')
        states = [({**now, 'b': 'other b'}, {**k, 'b': 'other b'}) for now, k in states]
    elif then == 'refresh':
        pm.refresh(path)
        states = [({**file, **k}, k) for now, k in states]
    elif then == 'reset':
        pm.reset(path)
        states = [(dict(file), {})]
    what = f'{who} {op} {then}'
    got = s.value(who)
    c.one_of(got, [now for now, k in states], 'the item runs with one of the configurations, before or after the failed operation', what)
    c.eq(s.value('g')['a'], got['a'], 'what depends on the item agrees with it', what)
    c.eq(pm.get(path).a, got['a'], 'a lookup agrees with a run', what)
    pm.refresh(path)
    c.one_of(s.value(who), [{**file, **k} for now, k in states], 'later operations are not affected', lambda: what + ' refresh')
    pm.update(section_path_str=path, a='last')
    c.eq(s.value(who)['a'], 'last', 'later operations are not affected', lambda: what + ' update')
    c.eq(s.value('g')['a'], 'last', 'what depends on the item agrees with it', lambda: what + ' update')
    s.others((who, 'g'), what)


def h_first(c):
    """the first use of an item fails"""
    who = c.choose('who', list(WHO))
    s = Setup(c, read=who)
    w, pm, path = s.w, s.pm, PATHS[who]
    x = w.val('x', ('int', 'obj'))
    want = dict(s.file[who])
    if c.choose('updated before', [False, True]):
        pm.update(section_path_str=path, a=x)
        want['a'] = x
    use = {'run': lambda: pm.run(path), 'get': lambda: pm.get(path), 'section': lambda: pm.get(path.rsplit('.', 1)[0]),
           'list': lambda: pm.run(['s.f', path, 's.h']), 'view': lambda: view(c, w, 'p', path).a,
           'dependent': lambda: pm.run('s.g'), 'product': lambda: pm.run_product(['s.g', path], [dict(section_path_str='s.h', a=1)])}
    how = c.choose('use', list(use))
    exc, at = failure(c)
    s.fail(who, exc, at)
    s.attempt(use[how], exc, how)
    s.mend()
    then = c.choose('then', ['run', 'update', 'reset'] + (['use'] if c.tier != 'quick' else []))
    if then == 'update':
        pm.update(section_path_str=path, b='new b')
        want['b'] = 'new b'
    elif then == 'reset':
        pm.reset(path)
        want = dict(s.file[who])
    elif then == 'use':
        use[how]()
    what = f'{who} {how} {then}'
    c.eq(s.value(who), want, 'an item whose first use failed is like a new one', what)
    c.eq(s.value('g')['a'], want['a'], 'what depends on the item agrees with it', what)
    s.others((who, 'g', 'h') if how == 'product' else (who, 'g'), what)


def h_dependent(c):
    """an object in use cannot take what its file reads from the changed item, or the file cannot be evaluated"""
    who = c.choose('who', list(WHO))
    why = c.choose('why', ['object', 'file'])
    s = Setup(c, read='S2', reader=who)
    w, pm, path = s.w, s.pm, PATHS[who]
    rel = 'p/defaults/' + path.replace('.', '/') + '.py'
    good = w.read(rel)
    old = s.file['S2']['a']
    for n in ('S2', who):
        c.eq(s.value(n)['a'], old, 'the item runs with its configuration', n)
    # another one which depends on the same item
    w.config('p', 's/h', good.replace(f'{who}_b', 'h_b').replace(f'name = {who!r}\n', ''))
    pm.refresh('s.h')
    c.eq(s.value('h')['a'], old, 'the item runs with its configuration', 'h')
    x = w.val('x', ('int', 'obj'))
    exc = c.choose('exception', [Oops, Halt])('here')
    if why == 'object':
        s.fail(who, exc, c.choose('at', [0, 1]))
    else:
        def bad():
            raise exc
        w.sv.bad = bad
        w.write(rel, good + 'symvals.bad()\n')
    raised = s.attempt(lambda: pm.update(section_path_str=PATHS['S2'], a=x), exc, 'update')
    s.mend()
    w.write(rel, good)
    what = f'{who} {why}'
    f = s.value('S2')
    c.one_of(f['a'], [old, x], 'the item runs with one of the configurations, before or after the failed operation', what)
    if not raised:
        c.eq(f['a'], x, 'an operation that does not fail takes effect', what)
    c.one_of(s.value(who), [{'a': a, 'b': s.file[who]['b']} for a in (old, x)],
             'what depends on the item has a value from before or after the failed operation', what)
    for p in (path, 's.h'):
        pm.refresh(p)
    for n in (who, 'h'):
        c.eq(s.value(n), {'a': f['a'], 'b': s.file[n]['b']}, 'what depends on the item agrees with it after a refresh', lambda: f'{what} {n}')
    pm.update(section_path_str=PATHS['S2'], a='last')
    for n in ('S2', who, 'h'):
        c.eq(s.value(n)['a'], 'last', 'later operations are not affected', lambda: f'{what} {n}')
    s.others((who, 'S2', 'h'), what)


def h_file(c):
    """the config file of the item itself cannot be evaluated"""
    who = c.choose('who', ['f', 'K', 'M', 'S1', 'V1'])
    s = Setup(c, read=who if who != 'f' else None)
    w, pm, path = s.w, s.pm, PATHS[who]
    rel = 'p/defaults/' + path.replace('.', '/') + '.py'
    good = w.read(rel)
    used = c.choose('used before', [True, False])
    want = dict(s.file[who])
    if used:
        c.eq(s.value(who), want, 'the item runs with its configuration', 'first use')
        if who != 'f':
            c.eq(s.value('g')['a'], want['a'], 'the item runs with its configuration', 'g')
    kept = {}
    if used and c.choose('updated before', [False, True]):
        y = w.val('y', ('int', 'obj'))
        pm.update(section_path_str=path, a=y)
        kept = {'a': y}
        want.update(kept)
    how = c.choose('file', ['raises', 'syntax', 'raises first'])
    exc = c.choose('exception', [Oops, Halt])('here') if how == 'raises' or c.tier != 'quick' else Oops('here')

    def bad():
        raise exc
    w.sv.bad = bad
    w.write(rel, good + {'raises': 'symvals.bad()\n', 'syntax': 'def (\n', 'raises first': ''}[how])
    if how == 'raises first':
        w.write(rel, good.replace('import symvals\n', 'import symvals\nsymvals.bad()\n'))
    files = w.files('p')
    op = c.choose('operation', ['refresh', 'reset', 'section', 'run', 'update'])
    try:
        {'refresh': lambda: pm.refresh(path), 'reset': lambda: pm.reset(path), 'section': lambda: pm.reset(path.rsplit('.', 1)[0]),
         'run': lambda: pm.run(path), 'update': lambda: pm.update(section_path_str=path, b='file b')}[op]()
        if op != 'update':
            c.check(used and op == 'run', 'a broken file is an error', lambda: f'{who} {op}')
        elif used:
            want['b'] = kept['b'] = 'file b'
    except (Oops, Halt, SyntaxError) as e:
        c.check(not used or op in ('refresh', 'reset', 'section'), 'an item in use does not need its file', lambda: f'{who} {op}')
        if how != 'syntax':
            c.check(e is exc, "the exception of the user's code reaches the caller", lambda: f'{who} {op} {e!r}')
    what = f'{who} {how} {op}'
    c.check(w.files('p') == files, 'a failed operation changes no file', what)
    idle(c, what)
    if used:
        c.eq(s.value(who), want, 'an item in use stays as it was when its file is broken', what)
    w.write(rel, good)
    x = w.val('x', ('int', 'obj'))
    w.put(f'{who}_a', x)
    file = {**s.file[who], 'a': x}
    if c.choose('then', ['refresh', 'reset']) == 'refresh':
        pm.refresh(path)
        c.eq(s.value(who), {**file, **kept}, 'once the file is good the operation works', what)
    else:
        pm.reset(path)
        c.eq(s.value(who), file, 'once the file is good the operation works', what)
    if who != 'f':
        c.eq(s.value('g')['a'], s.value(who)['a'], 'what depends on the item agrees with it', what)
    s.others((who, 'g') if who != 'f' else (who,), what)


HOOKS = ['pre_run', 'post_run', 'pre_update', 'post_update', 'pre_config_changed', 'post_config_changed',
         'pre_update_batch', 'post_update_batch', 'iter_get_cases', 'iter_modify_cases', 'iter_update_for_case']
HOOK_ARGS = {'pre_run': 'section_path_str_or_list, pm', 'post_run': 'results, runner',
             'pre_update': 'pm, d_, section_path_str, kwargs', 'post_update': 'pm, d_, section_path_str, kwargs',
             'pre_config_changed': 'manager, orig_config, updates, section_path_str',
             'post_config_changed': 'manager, new_config, updates, section_path_str',
             'pre_update_batch': 'pm, updates', 'post_update_batch': 'pm, updates', 'iter_get_cases': 'config_updates, runner',
             'iter_modify_cases': 'cases, runner', 'iter_update_for_case': 'case, runner'}


def h_hook(c):
    """a plugin raises"""
    from pyfileconf.plugin.manager import plm
    from pyfileconf.plugin.impl import hookimpl
    hook = c.choose('hook', HOOKS)
    s = Setup(c, read='K')
    w, pm = s.w, s.pm
    old = s.file['K']['a']
    for n in ('K', 'g'):
        c.eq(s.value(n)['a'], old, 'the item runs with its configuration', n)
    x = w.val('x', ('int', 'obj'))
    exc = c.choose('exception', [Oops, Halt])('here')
    ns = {'exc': exc}
    exec(f'def pyfileconf_{hook}({HOOK_ARGS[hook]}):\n    raise exc\n', ns)
    plugin = type('P', (), {f'pyfileconf_{hook}': staticmethod(hookimpl(ns[f'pyfileconf_{hook}']))})()
    ops = {'run': lambda: pm.run('t.K'), 'list': lambda: pm.run(['s.f', 't.K']),
           'update': lambda: pm.update(section_path_str='t.K', a=x), 'view': lambda: setattr(view(c, w, 'p', 't.K'), 'a', x),
           'batch': lambda: pm.update_batch([dict(section_path_str='t.K', a=x)]),
           'refresh': lambda: (w.put('K_a', x), pm.refresh('t.K')), 'reset': lambda: (w.put('K_a', x), pm.reset('t.K')),
           'product': lambda: pm.run_product('t.K', [dict(section_path_str='t.K', a=x)])}
    op = c.choose('operation', list(ops))
    plm.register(plugin)
    w.rec.take()
    raised = s.attempt(ops[op], exc, f'{hook} {op}')
    ran = [n for n, a in w.rec.take() if n != 'set']
    plm.unregister(plugin)
    what = f'{hook} {op}'
    must = {'pre_run': ('run', 'list', 'product'), 'post_run': ('run', 'list', 'product'), 'pre_update': ('update', 'view'),
            'post_update': ('update', 'view'), 'pre_config_changed': (), 'post_config_changed': (),
            'pre_update_batch': ('batch', 'product'), 'post_update_batch': ('batch', 'product')}.get(hook, ('product',))
    if op in must:
        c.check(raised, 'the exception of a plugin reaches the caller', what)
    elif hook not in ('pre_config_changed', 'post_config_changed'):
        c.check(not raised, 'a plugin is not called for other operations', what)
    got = s.value('K')['a']
    if not raised:
        c.eq(got, old if op in ('run', 'list') else x, 'an operation that does not fail takes effect', what)
    elif hook in ('pre_run', 'pre_update', 'pre_config_changed', 'pre_update_batch', 'iter_get_cases', 'iter_modify_cases') \
            and not (hook == 'pre_run' and op == 'product'):
        c.eq(got, old, 'an operation stopped before it starts changes nothing', what)
        c.check(not ran, 'an operation stopped before it starts runs nothing', lambda: f'{what}: {ran}')
    else:
        c.one_of(got, [old, x], 'the item runs with one of the configurations, before or after the failed operation', what)
    for p in ('t.K', 's.g'):
        pm.refresh(p)
    c.eq(s.value('g')['a'], s.value('K')['a'], 'what depends on the item agrees with it after a refresh', what)
    r = ops[op]()
    got = s.value('K')['a']
    c.eq(got, old if op in ('run', 'list') else x, 'without the plugin the operation works', what)
    c.eq(s.value('g')['a'], got, 'what depends on the item agrees with it', what)
    s.others(('K', 'g'), what)


KNOWN = {'s': 'section', 's.f': 'f', 's.x': 'section', 's.x.f': 'f', 's.x.c': 'c', 'x': 'section', 'x.s': 's', 'c': 'section',
         'c.s': 'section', 'c.s.f': 'S:f'}


def small(c, load=True):
    """a project with equal names everywhere"""
    w = World(c, fn_src('f') + fn_src('s') + fn_src('c') + fn_src('n') + class_src('S', key='name') + class_src('NoInit').split('    def __init__')[0]
              + '    def __call__(self):\n        pass\n\n' + OBJECTS)
    conf, own = {}, {}
    for path, kind in KNOWN.items():
        if kind != 'section':
            k = path.replace('.', '_')
            own[path] = w.put(k, f'file {path}')
            conf[path.replace('.', '/')] = f'import symvals\n\n' + ("name = 'f'\n" if path == 'c.s.f' else '') + f'a = symvals.{k}\nb = None\n'
    w.project('p', "{'s': [f, {'x': [f, c]}], 'x': [s]}", conf, {'c': "{'s': ['f']}"}, 'f, s, c')
    w.own = own
    return w, again(w, load)


def again(w, load=True):
    import pyfileconf
    w.pms.clear()
    pyfileconf.context.reset()
    return w.manager('p', load=load, specific_class_config_dicts=[{'class': w.um.S, 'name': 'c'}])


def same(c, w, pm, what):
    for path, a in w.own.items():
        c.eq(w.received(pm, path), {'a': a, 'b': None}, 'other items are not affected', lambda: f'{path} {what}')


UNKNOWN = {
    'run': lambda pm, p: pm.run(p),
    'list': lambda pm, p: pm.run([p]),
    'get': lambda pm, p: pm.get(p),
    'update': lambda pm, p: pm.update(section_path_str=p, a=1),
    'update dict': lambda pm, p: pm.update({'a': 1}, section_path_str=p),
    'update nothing': lambda pm, p: pm.update(section_path_str=p),
    'batch': lambda pm, p: pm.update_batch([dict(section_path_str=p, a=1)]),
    'reset': lambda pm, p: pm.reset(p),
    'refresh': lambda pm, p: pm.refresh(p),
    'product': lambda pm, p: pm.run_product('s.f', [dict(section_path_str=p, a=1)]),
    'product of': lambda pm, p: pm.run_product(p, [dict(section_path_str='s.f', b=None)]),
}


def h_unknown(c):
    """operations on paths which are not in the dictionaries"""
    op = c.choose('operation', list(UNKNOWN))
    w, pm = small(c)
    if c.choose('in use', [False, True]):
        same(c, w, pm, 'before')
    n = 4 if c.tier == 'quick' else 5
    p = c.str('path', 0, n, 'sxcf.')
    for k, kind in KNOWN.items():
        c.assume(p != k)
        if kind == 'section':
            # the config of the section itself
            c.assume(p != k + '.' + k.rsplit('.', 1)[-1])
    files = w.files('p')
    w.rec.take()
    try:
        UNKNOWN[op](pm, p)
    except Exception:
        pass
    else:
        c.fail('an operation on a path which is not in the dictionaries is refused', op)
    c.check(not w.rec.take(), 'a refused operation runs nothing', op)
    c.check(w.files('p') == files, 'a failed operation changes no file', op)
    idle(c, op)
    same(c, w, pm, op)


def h_early(c):
    """operations before the manager is loaded"""
    w, pm = small(c, load=False)
    op = c.choose('operation', list(UNKNOWN) + ['create', 'create spec', 'reload'])
    p = c.choose('path', ['s.f', 's', 'c.s.f', 'nope'])
    c.check({'load', 'run', 'update'} <= set(dir(pm)), 'a manager which is not loaded lists its methods', op)
    files = w.files('p')
    try:
        if op == 'create':
            pm.create(p, w.um.n)
        elif op == 'create spec':
            pm.create('c.s.' + p)
        elif op == 'reload':
            pm.reload()
        else:
            UNKNOWN[op](pm, p)
    except Exception:
        c.check(w.files('p') == files, 'a failed operation changes no file', op)
    else:
        c.check(op == 'reload', 'an operation before loading is refused', lambda: f'{op} {p}')
    idle(c, op)
    pm.load()
    same(c, w, pm, op)
    pm.create('s.x', w.um.n)
    c.eq(w.received(pm, 's.x.n'), {'a': None, 'b': None}, 'later operations are not affected', op)


# what cannot be an entry: it cannot be imported by its name from its module, or has no definition to take arguments from
OBJECTS = """
import functools as _functools
from os.path import join

def make(name):
    def local(a=None, b=None):
        return hit(name, a=a, b=b)
    class Local:
        def __init__(self, a=None, b=None):
            pass
        def __call__(self):
            pass
    return {'local': local, 'Local': Local}[name]

class Outer:
    class Inner:
        def __init__(self, a=None, b=None):
            pass
        def __call__(self):
            pass
    def method(self, a=None, b=None):
        return None
    @staticmethod
    def n(a=None, b=None):
        return None

kept = make('local')
bound = Outer().method
static = Outer.n
alias = Outer.Inner
lam = lambda a=None, b=None: None
part = _functools.partial(n, a=1)
"""
BAD = {
    'local': lambda w: w.um.make('local'), 'local class': lambda w: w.um.make('Local'), 'kept': lambda w: w.um.kept,
    'inner': lambda w: w.um.Outer.Inner, 'bound': lambda w: w.um.bound, 'static': lambda w: w.um.static, 'alias': lambda w: w.um.alias,
    'lambda': lambda w: w.um.lam, 'partial': lambda w: w.um.part, 'builtin': lambda w: len, 'type': lambda w: dict, 'c function': lambda w: __import__('math').sqrt,
    'no init': lambda w: w.um.NoInit, 'number': lambda w: 5, 'text': lambda w: 'um.n', 'none': lambda w: None, 'instance': lambda w: w.um.Outer(),
    'other f': lambda w: w.other.f,
}


def created(c, w, pm, what):
    """the project is as before: now, for another process, and for later creates"""
    same(c, w, pm, what)
    pm = again(w)
    same(c, w, pm, what + ', loaded again')
    pm.create('s.x', w.um.n)
    c.eq(w.received(pm, 's.x.n'), {'a': None, 'b': None}, 'later operations are not affected', what)
    pm = again(w)
    c.eq(w.received(pm, 's.x.n'), {'a': None, 'b': None}, 'later operations are not affected', what + ', loaded again')


def tree(pm, path=''):
    """all paths the manager lists"""
    from pyfileconf import Selector
    return sorted(x for x in dir(getattr_path(Selector(), 'p' + ('.' + path if path else ''))) if not x.startswith('_'))


def getattr_path(obj, path):
    for x in path.split('.'):
        obj = getattr(obj, x)
    return obj


def refused(c, w, pm, do, what):
    files = w.files('p')
    trees = [tree(pm, p) for p in ('s', 's.x', 'x')]
    try:
        do()
    except Exception:
        pass
    else:
        c.fail('what cannot be an entry is refused', what)
    c.check(w.files('p') == files, 'a failed operation changes no file', lambda: f'{what}: {set(w.files("p").items()) ^ set(files.items())}')
    c.check([tree(pm, p) for p in ('s', 's.x', 'x')] == trees, 'a refused entry is not listed', what)
    idle(c, what)
    created(c, w, pm, what)


def h_create(c):
    """creating what cannot be an entry"""
    kind = c.choose('kind', list(BAD))
    where = c.choose('section', ['s', 's.x', 'x', 'new', 's.new.er'])
    w, pm = small(c)
    w.other = w.module('other', 'def f(a=1):\n    return a\n')
    if c.choose('in use', [False, True]):
        same(c, w, pm, 'before')
    obj = BAD[kind](w)
    refused(c, w, pm, lambda: pm.create(where, obj), f'{kind} in {where}')


def h_create_path(c):
    """creating at paths where no entry can be"""
    spec = c.choose('specific', [False, True])
    w, pm = small(c)
    n = 4 if c.tier == 'quick' else 5
    p = c.str('path', 0, n, 'sxf.')
    empty = c.choose('empty name', [True, False])
    parts = p.split('.')
    if empty:
        c.assume(any(x == '' for x in parts))
    else:
        # an item, or below one
        c.assume(any(p[:len(k)] == k and (len(p) == len(k) or p[len(k)] == '.') for k in (['s.f'] if spec else ['s.f', 'x.s', 's.x.f'])))
        c.assume(all(x != '' for x in parts))
        if spec:
            c.assume(p != 's.f')
    if spec:
        refused(c, w, pm, lambda: pm.create('c.' + p), 'spec')
    else:
        refused(c, w, pm, lambda: pm.create(p, w.um.n), 'main')


HARNESSES = [
    H('apply', h_apply, 'a class or specific-class item with and without update method and a dependent, 9 operations with a symbolic value, raising an '
      'ordinary or other exception at 2 points, 5 continuations', share=4),
    H('first', h_first, 'first use of an item in 7 ways, raising at 2 points', share=2),
    H('dependent', h_dependent, 'an update whose dependent cannot take it or be evaluated, one other dependent'),
    H('file', h_file, 'the file of an item broken in 3 ways, 5 operations', share=2),
    H('hook', h_hook, 'each of 11 hooks raising in 8 operations'),
    H('unknown', h_unknown, 'any path up to 4 (5) characters over 5 which is not in the dictionaries, 11 operations', share=2.5),
    H('early', h_early, '14 operations before the load'),
    H('create', h_create, '18 objects which cannot be an entry, in 5 sections'),
    H('create path', h_create_path, 'any path up to 4 (5) characters with an empty section name or at or under an item'),
]
ASSUMPTIONS = ['exceptions come from the user\'s constructors, update methods, config files and plugins; failing writes are C31, failing loads C23',
               'after a product run was stopped, the item may keep all values of the case it was stopped in',
               'a dependent may need a refresh if the operation was stopped by another dependent']
