"""C26: plugins see every operation, and what they contribute is applied."""
from symex.driver import H
from harness.common import World, fn_src, class_src, attrs_of, view, FEW
from harness.model import Item

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
PATHS = ['s.f', 's.g', 't.K', 'sc.grp.one', 'sc.grp.two']


def build(c):
    w = World(c, UM)
    model = {}
    for m in 'pq':
        conf = {}
        for path in PATHS:
            d = conf[path.replace('.', '/')] = {x: repr(f'file {path} {x}') for x in 'ab'}
            if path.startswith('sc.'):
                d['name'] = repr(path.rsplit('.', 1)[1])
            model[f'{m}.{path}'] = Item({x: f'file {path} {x}' for x in 'ab'})
        w.project(m, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one', 'two']}"}, 'f, g, K')
        w.manager(m, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
    return w, model


def register(**hooks):
    """a plugin with the given hook implementations"""
    from pyfileconf.plugin import manager
    from pyfileconf.plugin.impl import hookimpl
    P = type('P', (), {k: staticmethod(hookimpl(f)) for k, f in hooks.items()})
    p = P()
    manager.plm.register(p)
    return p


def reset():
    from pyfileconf.plugin.manager_utils import reset_plugins
    reset_plugins()


def check_all(c, w, model, only='pq'):
    for full, m in model.items():
        if full[0] in only:
            c.eq(w.received(w.pms[full[0]], full[2:]), m.touch(), 'run sees the configuration', full)


def flat(w, req):
    out = []
    for r in req if isinstance(req, list) else [req]:
        out += ['s.f', 's.g'] if r == 's' else [r]
    return out


WHO = {'s.f': 'f', 's.g': 'g', 't.K': 'K', 'sc.grp.one': 'S:one', 'sc.grp.two': 'S:two'}


def result(path):
    return [['ret', 'f'], ['ret', 'g']] if path == 's' else ['ret', WHO[path]]


def h_run(c, state):
    """items and results contributed by up to two plugins"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    n = c.choose('plugins', [0, 1, 2])
    pre = [c.choose(f'pre{i}', ['none', 'str', 'list', 'view', 'in place', 'empty'] if i == 0 else ['none', 'list', 'section'])
           for i in range(n)]
    post = [c.choose(f'post{i}', ['none', 'value', 'in place'] if i == 0 else ['none', 'value']) for i in range(n)]
    vals = [c.val(f'r{i}', FEW) for i in range(n)]
    seen = []
    gone = c.choose('reset', [False, True]) if n else False

    def mk(i):
        def pyfileconf_pre_run(section_path_str_or_list, pm):
            seen.append(('pre', i, section_path_str_or_list if isinstance(section_path_str_or_list, str)
                         else list(section_path_str_or_list), pm))
            if pre[i] == 'in place' and isinstance(section_path_str_or_list, list):
                section_path_str_or_list.append('t.K')
            return {'str': 's.g', 'list': ['sc.grp.two', 's.g'], 'view': view(c, w, 'p', 'sc.grp.one'), 'section': 's',
                    'empty': []}.get(pre[i])

        def pyfileconf_post_run(results, runner):
            seen.append(('post', i, results, runner))
            if post[i] == 'in place':
                results.append('mine')
            return vals[i] if post[i] == 'value' else None
        register(pyfileconf_pre_run=pyfileconf_pre_run, pyfileconf_post_run=pyfileconf_post_run)
    for i in range(n):
        mk(i)
    if gone:
        reset()
        n = 0
    req = c.choose('request', ['s.f', ['s.f'], ['t.K', 's.f'], 's'])
    sent = list(req) if isinstance(req, list) else req
    got, calls = w.run(pm, sent)
    items = list(req) if isinstance(req, list) else [req]
    extra = []
    for i in reversed(range(n)):  # the plugin registered last is called first
        if pre[i] == 'in place' and isinstance(req, list):
            items.append('t.K')
        extra += {'str': ['s.g'], 'list': ['sc.grp.two', 's.g'], 'view': ['sc.grp.one'], 'section': ['s']}.get(pre[i], [])
    many = isinstance(req, list) or bool(extra)
    items += extra
    c.eq([x[0] for x in calls], [WHO[p] for p in flat(w, items)], 'the requested items run, then the contributed ones')
    res = [result(p) for p in items] if many else result(items[0])
    added = []
    for i in reversed(range(n)):
        if post[i] == 'in place':
            res = res + ['mine']
        if post[i] == 'value' and vals[i] is not None:
            added.append(vals[i])
    if added:
        res = res + added if many else [res] + added
    c.eq(got, res, 'real results, then the contributed ones')
    pres = [x for x in seen if x[0] == 'pre']
    c.check([x[1] for x in pres] == list(reversed(range(n))), 'each plugin is called before the run', str(pres))
    c.check([x[1] for x in seen if x[0] == 'post'] == list(reversed(range(n))), 'each plugin is called after the run')
    for x in pres:
        if 'in place' not in pre[:n]:
            c.check(x[2] == req, 'with the actual request', f'{x[2]} {req}')
        c.check(x[3] is pm, 'with the manager')
    for x in seen:
        if x[0] == 'post':
            c.check(x[3] is pm.runner, 'with the runner')


def h_force(c, state):
    """with force_continue too"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    pm.force_continue = True
    seen = []
    add = c.choose('add', [None, 's.g', ['s.g', 'sc.grp.one']])

    def pyfileconf_pre_run(section_path_str_or_list, pm):
        seen.append(section_path_str_or_list)
        return add
    register(pyfileconf_pre_run=pyfileconf_pre_run)
    fail = c.choose('fails', ['f', 'g', 'nothing'])

    def h(name):
        def f(a=None, b=None):
            if name == fail:
                raise ValueError(name)
            return name
        return f
    for k in 'fg':
        w.rec.on[k] = h(k)
    w.rec.on['S:one'] = lambda a=None, b=None: 'one'
    req = c.choose('request', ['s.f', ['s.f', 's.g']])
    got, calls = w.run(pm, list(req) if isinstance(req, list) else req)
    items = (req if isinstance(req, list) else [req]) + ([] if add is None else [add] if isinstance(add, str) else add)
    c.eq([x[0] for x in calls], [WHO[p] for p in items], 'the requested items run, then the contributed ones')
    res = [WHO[p].split(':')[-1] for p in items if WHO[p] != fail]
    if not isinstance(req, list) and add is None:
        res = res[0] if res else []
    c.eq(got, res, 'results of those that succeeded')
    c.check(seen == [req], 'the plugin sees the run once', str(seen))


def h_update(c, state):
    """values contributed to updates"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    n = c.choose('plugins', [0, 1, 2] if c.tier != 'quick' else [1, 2])
    what = [c.choose(f'plugin{i}', ['none', 'a', 'b', 'ab', 'd_ in place', 'kwargs in place', 'empty'] if i == 0 else ['none', 'a', 'b'])
            for i in range(n)]
    on = c.choose('on', ['s.f', 'sc.grp.one'])
    vals = [(c.val(f'pa{i}', FEW), f'pb{i}') for i in range(n)]
    seen = []

    def mk(i):
        def pyfileconf_pre_update(pm, d_, section_path_str, kwargs):
            seen.append(('pre', i, section_path_str, None if d_ is None else dict(d_), dict(kwargs), pm))
            if section_path_str != on:
                return None
            va, vb = vals[i]
            if what[i] == 'd_ in place' and d_ is not None:
                d_['b'] = vb
            if what[i] == 'kwargs in place':
                kwargs['b'] = vb
            return {'a': {'a': va}, 'b': {'b': vb}, 'ab': {'a': va, 'b': vb}, 'empty': {}}.get(what[i])

        def pyfileconf_post_update(pm, d_, section_path_str, kwargs):
            seen.append(('post', i, section_path_str, None if d_ is None else dict(d_), dict(kwargs), pm))
            seen_values.append(w.received(pm, section_path_str))
        register(pyfileconf_pre_update=pyfileconf_pre_update, pyfileconf_post_update=pyfileconf_post_update)
    for i in range(n):
        mk(i)
    form = c.choose('form', ['kwargs', 'dict', 'both'])
    v = c.val('v', FEW)
    d = {'a': v} if form != 'kwargs' else None
    kw = {'a': v} if form == 'kwargs' else {'b': 'own'} if form == 'both' else {}
    d0 = None if d is None else dict(d)
    if c.choose('loaded', [False, True]):
        check_all(c, w, model, 'p')
    other = {'s.f': 's.g', 'sc.grp.one': 't.K'}[on]
    for target in (on, other, on) if c.tier != 'quick' else (on, other):
        seen_values = []
        seen.clear()
        pm.update(d, section_path_str=target, **kw)
        new = {**(d0 or {}), **kw}
        if target == on:
            for i in reversed(range(n)):
                if what[i] == 'd_ in place' and d is not None and 'b' not in kw:
                    new['b'] = vals[i][1]
                if what[i] == 'kwargs in place':
                    new['b'] = vals[i][1]
            ret = {}
            for i in reversed(range(n)):
                ret.update({'a': {'a': vals[i][0]}, 'b': {'b': vals[i][1]}, 'ab': {'a': vals[i][0], 'b': vals[i][1]}}.get(what[i], {}))
            new.update(ret)
        model['p.' + target].update(new)
        pres = [x for x in seen if x[0] == 'pre']
        c.check([x[1] for x in pres] == list(reversed(range(n))), 'each plugin sees the update once, before it', str(seen))
        c.check([x[1] for x in seen if x[0] == 'post'] == list(reversed(range(n))), 'each plugin sees the update once, after it')
        for x in seen:
            c.check(x[2] == target and x[5] is pm, 'with the path and manager', f'{x[2]} {target}')
        if pres and 'd_ in place' not in what and 'kwargs in place' not in what:
            c.eq(pres[0][3], d0, 'with the actual updates')
            c.eq(pres[0][4], kw, 'with the actual updates')
        for got in seen_values:
            c.eq(got, model['p.' + target].touch(), 'the post hook comes after the update')
        c.check(d is None or list(d) == list(d0) and all(d[k] is d0[k] for k in d0), "the caller's dictionary is untouched", str(d))
        check_all(c, w, model, 'p')
    if c.choose('end', ['refresh', 'reset plugins']) == 'refresh':
        for p in (on, other):
            pm.refresh(p)
            model['p.' + p].refresh()
    else:
        reset()
        pm.update({'a': 1}, section_path_str=on)
        model['p.' + on].update({'a': 1})
    check_all(c, w, model, 'p')


def h_batch(c, state):
    """updates contributed to batches, through a manager or an updater"""
    w, model = state
    w.c = c
    from pyfileconf.batch import BatchUpdater
    how = c.choose('how', ['pm', 'updater'])
    pre = '' if how == 'pm' else 'p.'
    n = c.choose('plugins', [0, 1, 2])
    what = [c.choose(f'plugin{i}', ['none', 'one', 'two', 'generator', 'empty'] if i == 0 else ['none', 'one']) for i in range(n)]
    vals = [c.val(f'u{i}', FEW) for i in range(n)]
    seen = []

    def mk(i):
        def pyfileconf_pre_update_batch(pm, updates):
            seen.append(('pre', i, updates, pm))
            one = dict(section_path_str=pre + 's.g', a=vals[i], b='other')
            two = dict(section_path_str=pre + ['s.f', 't.K'][i], b=vals[i])
            return {'one': [one], 'two': (one, two), 'generator': (x for x in (one, two)), 'empty': []}.get(what[i])

        def pyfileconf_post_update_batch(pm, updates):
            seen.append(('post', i, updates, pm))
        register(pyfileconf_pre_update_batch=pyfileconf_pre_update_batch,
                 pyfileconf_post_update_batch=pyfileconf_post_update_batch)
    for i in range(n):
        mk(i)
    v = c.val('v', FEW)
    updates = [dict(section_path_str=pre + 's.f', a=v), dict(section_path_str=pre + 'sc.grp.one', a=1, d_={'b': v})]
    (w.pms['p'].update_batch if how == 'pm' else BatchUpdater().update)(updates)
    for i in reversed(range(n)):
        if what[i] in ('one', 'two', 'generator'):
            model['p.s.g'].update(dict(a=vals[i], b='other'))
        if what[i] in ('two', 'generator'):
            model['p.' + ['s.f', 't.K'][i]].update(dict(b=vals[i]))
    model['p.s.f'].update({'a': v})
    model['p.sc.grp.one'].update({'a': 1, 'b': v})
    c.check([x[:2] for x in seen] == [(k, i) for k in ('pre', 'post') for i in reversed(range(n))],
            'each plugin sees the batch once before and once after it', str([x[:2] for x in seen]))
    for x in seen:
        c.check(x[2] is updates, 'with the actual updates')
    check_all(c, w, model)


def h_cases(c, state):
    """cases contributed to and modified in product runs"""
    w, model = state
    w.c = c
    pm = w.pms['p']
    v = [c.val(f'v{i}', FEW) for i in range(3)]
    kind = c.choose('get_cases', ['none', 'same item', 'other item', 'two items', 'nothing'])
    mod = c.choose('modify', ['none', 'drop first', 'drop all', 'reverse', 'change', 'add'])
    second = c.choose('second item', [False, True])
    extra = {'same item': [(dict(section_path_str='s.f', a=v[2]),)],
             'other item': [(dict(section_path_str='s.g', b=v[2]),)],
             'two items': [(dict(section_path_str='s.f', b=v[2]), dict(section_path_str='t.K', a=5))],
             'nothing': []}.get(kind)

    def modify(cases):
        if mod == 'drop first':
            del cases[0]
        elif mod == 'drop all':
            del cases[:]
        elif mod == 'reverse':
            cases.reverse()
        elif mod == 'change':
            cases[-1] = (dict(section_path_str='t.K', b=v[2]),)
        elif mod == 'add':
            cases.append(())

    seen = []

    def pyfileconf_iter_get_cases(config_updates, runner):
        seen.append(config_updates)
        return extra

    def pyfileconf_iter_modify_cases(cases, runner):
        modify(cases)
    register(pyfileconf_iter_get_cases=pyfileconf_iter_get_cases, pyfileconf_iter_modify_cases=pyfileconf_iter_modify_cases)
    ups = [dict(section_path_str='s.f', a=v[0]), dict(section_path_str='s.f', a=v[1], b='own')]
    cases = [(ups[0],), (ups[1],)]
    if second:
        ups.append(dict(section_path_str='sc.grp.one', b=9))
        cases = [x + (ups[2],) for x in cases]
    cases = (extra or []) + cases
    modify(cases)
    runs = ['s.f', 's.g', 't.K', 'sc.grp.one']
    form = c.choose('form', ['list', 'generator'])
    w.rec.take()
    if form == 'list':
        got = pm.run_product(list(runs), ups)
    else:
        got = list(pm.run_product_gen(list(runs), ups))
    calls = w.rec.take()
    c.check(len(seen) == 1 and seen[0] is ups, 'the plugin sees the updates')
    c.eq([g[0] for g in got], cases, 'the contributed or modified cases are the ones executed')
    exp = []
    for case in cases:
        for p in runs:
            a = dict(model['p.' + p].touch())
            for u in case:
                if u['section_path_str'] == p:
                    a.update({k: x for k, x in u.items() if k != 'section_path_str'})
            exp.append((WHO[p], a))
    c.eq([x[0] for x in calls], [x[0] for x in exp], 'each case runs all items')
    for x, y in zip(calls, exp):
        c.eq(x[1], y[1], 'each run sees exactly its case', x[0])


HARNESSES = [
    H('run', h_run, '0-2 plugins whose run hooks return nothing, a path, a list, an item view, a section or an empty list, or change '
      'the request or the results in place, any result values; 4 requests; plugins reset or not', setup=build, share=2),
    H('force', h_force, 'with force_continue, one of the items failing', setup=build),
    H('update', h_update, '1-2 (thorough 0-2) plugins returning or setting in place any of two arguments for one of two items, updates '
      'as keywords, dict or both, of values None/int/object; 2 (3) updates with the same dict', setup=build, share=2),
    H('batch', h_batch, '0-2 plugins contributing nothing, one or two updates as list, tuple or generator', setup=build),
    H('cases', h_cases, '5 kinds of contributed cases (of the same and other items) times 6 modifications of the case list', setup=build),
]
ASSUMPTIONS = ['plugins are called in pluggy order (last registered first)']
