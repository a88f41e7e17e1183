"""C12: the running-item stack is balanced and attributes to the innermost item."""
from symex.driver import H
from harness.common import World, fn_src, class_src, view

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
PATHS = {'f': 's.f', 'g': 's.g', 'K': 't.K', 'S:one': 'sc.grp.one', 'S:two': 'sc.grp.two'}


class Stop(Exception):
    pass


class Halt(BaseException):
    """like KeyboardInterrupt: not an ordinary exception"""


STOPS = (Stop, Halt)


def build(c, load=True, bad=None):
    w = World(c, UM)
    w.sv.tick = lambda path: w.tick(path)
    w.tick = lambda path: None
    for m in 'pq':
        conf = {}
        for path in PATHS.values():
            name = f"name = {path.rsplit('.', 1)[1]!r}\n" if path.startswith('sc.') else ''
            conf[path.replace('.', '/')] = f'import symvals\n\n{name}a = symvals.tick({(m + "." + path)!r})\nb = None\n'
        conf['s/section'] = f'import symvals\n\nzzz = symvals.tick({(m + ".s")!r})\n'
        w.project(m, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
        w.manager(m, load=load, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w


def stack():
    from pyfileconf import context
    return list(context.stack.frames)


def idle(c, w, before, when):
    from pyfileconf import context
    c.check(stack() == before, 'the stack is as it was before the call', f'{when}: {stack()}')
    c.check(not context.file_is_currently_being_loaded and context.stack.currently_loading_file_section_path is None,
            'no file is considered to be loading', when)


def running(c, path, when):
    from pyfileconf import context
    c.check(context.currently_running_section_path_str == path, 'the running item is the innermost one',
            f'{when}: {context.currently_running_section_path_str} instead of {path}')


ACTIONS = ['return', 'raise', 'halt', 'run g', 'run one', 'run section', 'run list', 'get K', 'cross', 'view', 'force', 'update g']
INNER = ['return', 'raise', 'halt', 'run g', 'run one', 'cross', 'force']


def act(c, w, m, action):
    pm, other = w.pms[m], w.pms['q' if m == 'p' else 'p']
    if action == 'raise':
        raise Stop('here')
    elif action == 'halt':
        raise Halt('here')
    elif action == 'run g':
        pm.run('s.g')
    elif action == 'run one':
        pm.run('sc.grp.one')
    elif action == 'run section':
        pm.run('sc.grp')
    elif action == 'run list':
        pm.run(['t.K', 's.g'])
    elif action == 'get K':
        pm.get('t.K')
    elif action == 'cross':
        other.run('t.K')
    elif action == 'view':
        pm.run(view(c, w, m, 's.g'))
    elif action == 'force':
        pm.force_continue = True
        try:
            pm.run(['s.g', 'sc.grp.two'])
        finally:
            pm.force_continue = False
    elif action == 'update g':
        pm.update(section_path_str='s.g', b=1)


def h_nest(c, w):
    """items run items, to depth 3, returning or raising, with or without catching"""
    w.c = c
    depth = [0]
    maxdepth = 2 if c.tier == 'quick' else 3
    busy = []
    budget = [2 if c.tier == 'quick' else 3]

    def handler(name):
        def h(a=None, b=None):
            m = w.active[-1]
            me = f'{m}.{PATHS[name]}'
            running(c, me, 'at the start')
            mine = stack()
            if len(w.active) > maxdepth or budget[0] == 0:
                return name
            first = budget[0] == (2 if c.tier == 'quick' else 3)
            budget[0] -= 1
            action = c.choose('action', ACTIONS if first else INNER)
            if action == 'return':
                return name
            catch = action not in ('raise', 'halt') and c.choose('catch', [False, True])
            w.active.append('q' if (m == 'p') == (action == 'cross') else 'p')
            try:
                act(c, w, m, action)
            except STOPS:
                if not catch:
                    raise
            finally:
                w.active.pop()
                running(c, me, f'after {action}')
                c.check(stack() == mine, 'the stack is as it was before the call', f'{action}: {stack()}')
            return name
        return h
    for n in PATHS:
        w.rec.on[n] = handler(n)
    w.active = ['p']
    start = c.choose('start', ['s.f', 't.K', 's', ['sc.grp.two', 's.g']])
    try:
        w.pms['p'].run(start)
    except STOPS:
        pass
    idle(c, w, [], f'run of {start}')
    running(c, None, 'at the end')


def h_files(c, w):
    """config files that fail or succeed, loaded on demand inside or outside of runs"""
    w.c = c
    from pyfileconf import context
    fails = {}
    seen = []

    def tick(path):
        if path.count('.') == 1:
            return None
        seen.append(path)
        c.check(context.file_is_currently_being_loaded, 'a file being executed is considered loading', path)
        c.check(context.stack.currently_loading_file_section_path.path_str == path,
                'the loading file is the one being executed', f'{path} {context.stack}')
        k = fails.get(path, 0)
        if k < 2:
            fails[path] = k + 1
            what = c.choose(f'load {path}', ['ok', 'raise' if path == 'p.s.g' else 'halt', 'nested'] if path in ('p.s.g', 'p.sc.grp.one') else ['ok', 'nested'])
            if what == 'raise':
                raise Stop(path)
            if what == 'halt':
                raise Halt(path)
            if what == 'nested' and path != 'p.t.K':
                mine = stack()
                try:
                    w.pms['p'].get('t.K' if path != 'p.s.f' else 's.g')
                except STOPS:
                    if c.choose('catch', [True, False]) is False:
                        raise
                c.check(stack() == mine, 'the stack is as it was before the call', str(stack()))
                c.check(context.stack.currently_loading_file_section_path.path_str == path,
                        'the loading file is the one being executed', f'{path} {context.stack}')
        return path
    w.tick = tick

    def f(a=None, b=None):
        running(c, 'p.s.f', 'in f')
        mine = stack()
        try:
            w.pms['p'].run(c.choose('inner', ['s.g', 'sc.grp.one']))
        except STOPS:
            pass
        c.check(stack() == mine, 'the stack is as it was before the call', str(stack()))
        running(c, 'p.s.f', 'in f again')
        c.check(not context.file_is_currently_being_loaded, 'no file is considered to be loading')
        return 1
    w.rec.on['f'] = f
    for i in range(2):
        before = stack()
        what = c.choose(f'op{i}', ['run s.f', 'get s.f', 'get s.g', 'run sc.grp', 'update s.g', 'refresh sc.grp.one', 'reset s.g'])
        op, path = what.split()
        pm = w.pms['p']
        try:
            if op == 'update':
                pm.update(section_path_str=path, b=i)
            else:
                getattr(pm, op)(path)
        except STOPS:
            pass
        idle(c, w, before, what)
        running(c, None, what)


def h_load(c):
    """loading and reloading a manager, succeeding or failing in a section's file, also inside a run"""
    w = build(c, load=False)
    w.c = c
    from pyfileconf import context
    n = [0]
    pm = w.pms['p']
    inside = c.choose('inside', [False, True])
    if inside:
        w.pms['q'].load()

    def tick(path):
        if path == 'p.s':
            c.check(context.file_is_currently_being_loaded, 'a file being executed is considered loading', path)
            if c.choose(f'fails{n[0]}', [False, True]):
                n[0] += 1
                raise Stop(path)
            n[0] += 1
        return None
    w.tick = tick

    def loads(*a, **k):
        before = stack()
        for i in range(2):
            op = 'load' if i == 0 else c.choose('op', ['load', 'reload'])
            try:
                if op == 'reload' and hasattr(pm, '_loaded_modules'):
                    pm.reload()
                else:
                    pm.load()
            except STOPS:
                pass
            idle(c, w, before, op)
    if inside:
        w.rec.on['f'] = loads
        w.pms['q'].run('s.f')
    else:
        loads()
    idle(c, w, [], 'end')
    running(c, None, 'end')


HARNESSES = [
    H('nest', h_nest, 'runs started from runs to depth 3 (thorough 4), 3 (4) actions in all of 12 kinds (run of an item, section, list, '
      'item view, other manager, with force_continue, get, update, raise), failures caught at any level', setup=build),
    H('files', h_files, '2 operations that load config files on demand, each file succeeding, failing or loading another item',
      setup=build),
    H('load', h_load, 'two loads or reloads of a manager whose section file fails or not, outside or inside a run of another manager'),
]
ASSUMPTIONS = ['items are run through a manager (calling an item view directly is not a tracked run)']
