"""C07: the pre/post change hooks fire exactly when the configuration changes."""
from symex.driver import H
from harness.common import attrs_of, view, KINDS, FEW
from harness.c05 import build, ITEMS, ALL, set_file

UPDATES = ['keep_a', 'keep_ab', 'drop_b', 'set_a', 'batch']


class Hooks:
    def __init__(self, w):
        self.w = w
        self.pre, self.post, self.loaded = [], [], ()

    def install(self):
        from pyfileconf.plugin import manager
        from pyfileconf.plugin.impl import hookimpl
        me = self

        class P:
            @hookimpl
            def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
                me.on_pre(manager, orig_config, updates, section_path_str)

            @hookimpl
            def pyfileconf_post_config_changed(self, manager, new_config, updates, section_path_str):
                me.on_post(manager, new_config, updates, section_path_str)
        manager.plm.register(P())

    def visible(self, path):
        return attrs_of(self.w.pms['p'].get(path), 'ab')

    def on_pre(self, manager, config, updates, path):
        loaded = path in self.loaded
        self.pre.append((manager, {x: config[x] for x in 'ab'}, dict(updates), path, self.visible(path) if loaded else None))

    def on_post(self, manager, config, updates, path):
        self.post.append((manager, {x: config[x] for x in 'ab'}, dict(updates), path, self.w.received(self.w.pms['p'], path)))

    def take(self):
        r = self.pre, self.post
        self.pre, self.post = [], []
        return r


def operate(c, w, model, hooks, i, path, op, loaded, kinds=FEW):
    """performs op and checks the hook calls it made"""
    pm = w.pms['p']
    hooks.loaded = loaded
    affected = [path]
    if op == 'file_a':
        set_file(w, model, path, 'a', c.val(f'n{i}', kinds))
        return
    if op == 'run':
        w.received(pm, path)
        model[path].touch()
        loaded.add(path)
        p, q = hooks.take()
        c.check(not p and not q, 'looking at an item calls no change hook', lambda: f'{p} {q}')
        return
    if op == 'reset_section':
        sec = path.rsplit('.', 1)[0]
        affected = [x for x in ALL if x.startswith(sec + '.')]
    old = {x: dict(model[x].touch()) for x in affected}
    hooks.take()
    if op in UPDATES:
        d = {'a': c.val(f'n{i}', kinds)} if op in ('keep_a', 'set_a', 'batch') else {'b': c.val(f'n{i}', kinds)}
        if op == 'keep_ab':
            d['a'] = c.val(f'u{i}', FEW)
        if op == 'keep_a':
            pm.update(section_path_str=path, **d)
        elif op == 'keep_ab':
            pm.update(d, section_path_str=path)
        elif op == 'drop_b':
            pm.update(d, section_path_str=path, pyfileconf_persist=False)
        elif op == 'set_a':
            view(c, w, 'p', path).a = d['a']
        else:
            pm.update_batch([dict(d, section_path_str=path)])
        model[path].update(d, op != 'drop_b')
    elif op == 'refresh':
        pm.refresh(path)
        model[path].refresh()
    elif op == 'reset':
        pm.reset(path)
        model[path].reset()
    elif op == 'reset_section':
        pm.reset(sec)
        for x in affected:
            model[x].reset()
    pre, post = hooks.take()
    for x in affected:
        mine = [h for h in pre if h[3] == x]
        mine_post = [h for h in post if h[3] == x]
        new = model[x].cur
        same = all(bool(old[x][k] == new[k]) for k in 'ab')
        what = f'{op} of {x}, same={same}: {mine} {mine_post}'
        c.check(len(mine) == (0 if same else 1), 'the pre-change hook is called exactly when a value changes', what)
        c.check(len(mine_post) == (0 if same or x not in loaded else 1),
                'the post-change hook is called exactly when a value of an item in use changes', what)
        for m, conf, upd, _, vis in mine:
            c.check(m is pm.config, 'hooks get the config manager of the item')
            c.eq(conf, old[x], 'the pre-change hook sees the configuration before the change', what)
            if vis is not None:
                c.eq(vis, old[x], 'the item is unchanged when the pre-change hook runs', what)
            check_updates(c, upd, old[x], new, what)
        for m, conf, upd, _, rec in mine_post:
            c.check(m is pm.config, 'hooks get the config manager of the item')
            c.eq(conf, new, 'the post-change hook sees the new configuration', what)
            c.eq(rec, new, 'runs see the new configuration when the post-change hook is called', what)
            check_updates(c, upd, old[x], new, what)
    rest = [h for h in pre + post if h[3] not in affected]
    c.check(not rest, 'no change hook for any other item', lambda: str(rest))


def check_updates(c, upd, old, new, what):
    for k in 'ab':
        if k in upd:
            c.eq(upd[k], new[k], 'hooks get the values being applied', what)
        else:
            c.eq(old[k], new[k], 'hooks get every value being changed', what)


def start(c, state):
    w, model = state
    w.c = c
    hooks = Hooks(w)
    hooks.install()
    return w, model, hooks


def h_seq(c, state):
    w, model, hooks = start(c, state)
    path = ITEMS[c.choose('item', list(ITEMS))]
    loaded = set()
    if c.choose('loaded', [True, False]):
        operate(c, w, model, hooks, 0, path, 'run', loaded)
    n = 2 if c.tier == 'quick' else 3
    for i in range(n):
        op = c.choose(f'op{i}', ['keep_a', 'keep_ab', 'drop_b', 'refresh', 'reset', 'reset_section', 'file_a'])
        operate(c, w, model, hooks, i + 1, path, op, loaded)
    op = c.choose('last', ['keep_a', 'refresh', 'reset', 'set_a', 'batch'])
    operate(c, w, model, hooks, 8, path, op, loaded)


def h_kinds(c, state):
    w, model, hooks = start(c, state)
    path = ITEMS[c.choose('item', list(ITEMS))]
    loaded = set()
    if c.choose('loaded', [True, False]):
        operate(c, w, model, hooks, 0, path, 'run', loaded)
    operate(c, w, model, hooks, 1, path, c.choose('op', UPDATES), loaded, KINDS)
    if c.choose('file', [False, True]):
        operate(c, w, model, hooks, 2, path, 'file_a', loaded, KINDS)
    operate(c, w, model, hooks, 3, path, c.choose('last', ['refresh', 'reset', 'keep_a']), loaded, KINDS)
    operate(c, w, model, hooks, 4, path, c.choose('again', ['refresh', 'reset']), loaded)


HARNESSES = [
    H('seq', h_seq, 'an item (function, class, specific class), in use or not; 2 (thorough 3) of 7 operations and one of 5 last '
      'ones; values None/int/object', setup=build),
    H('kinds', h_kinds, 'an update by each route, a change of the file, then refresh, reset or update and again refresh or reset; '
      'values of every kind', setup=lambda c: build(c, KINDS)),
]
ASSUMPTIONS = ['no section, project or local settings apply to the items', 'updates name arguments of the item only']
