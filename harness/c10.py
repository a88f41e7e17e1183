"""C10: force_continue isolates failures; otherwise the first failure propagates."""
import sys

from symex.driver import H
from harness.common import KINDS, view
from harness.c09 import build, Runs, leaves, shape, same, Leaf, TREE

PATHS = ['s.f', 't.u.K', 'sc.grp.one', 's', 'm', 'sc.grp']


class Odd(Exception):
    def __init__(self, x, y):
        super().__init__(x)
        self.y = y

    def __str__(self):
        return '{} %s %d \u00e9'


EXC = {'value': lambda: ValueError('bad'), 'key': lambda: KeyError('k'), 'attr': lambda: AttributeError('x'),
       'odd': lambda: Odd(1, 2), 'stop': lambda: StopIteration(3), 'recursion': lambda: RecursionError(),
       'group': lambda: ExceptionGroup('g', [ValueError(1)])}


def plan(c, paths, kinds, limit=None):
    """which of the calls raise"""
    raised = {}
    n = sum(len(leaves(p)) for p in paths)
    fails = [c.choose(f'fail{i}', [False, True]) if limit is None or i < limit else False for i in range(n)]
    kind = c.choose('exception', kinds) if any(fails) else None

    def fail(k, a):
        if fails[index[k]]:
            e = EXC[kind]()
            raised[k] = e
            raise e
    index = []
    return fails, fail, raised, index


def request(c, n):
    return [c.choose(f'path{i}', PATHS) for i in range(n)]


def h_force(c, w):
    w.c = c
    pm = w.pms['p']
    n = c.choose('n', [0, 1, 2, 3] if c.tier != 'quick' else [0, 1, 2])
    paths = request(c, n) if n < 3 else [c.choose(f'path{i}', ['s.f', 'sc.grp.one', 's']) for i in range(3)]
    fails, fail, raised, index = plan(c, paths, ['value', 'odd'] if c.tier == 'quick' else list(EXC))
    runs = Runs(c, w, fail)
    # within one request, a section stops at its first failure
    calls, ok = [], []
    k = 0
    for p in paths:
        good = True
        for x in leaves(p):
            if good:
                calls.append((x, TREE[x]))
                index.append(k)
                if fails[k]:
                    good = False
            k += 1
        ok.append(good)
    single = n == 1 and c.choose('single', [False, True])
    try:
        res = pm.run(paths[0] if single else list(paths))
    except Exception as e:
        c.fail('a run with force_continue never raises', repr(e))
    got = [(d[0], d[1]) for d in runs.done]
    c.check(got == calls, 'every item is executed whichever of them fail', f'expected {calls} got {got}')
    from pyfileconf import context
    c.check(not context.stack.frames, 'nothing is considered running afterwards', str(context.stack))
    j, want = 0, []
    for p, good in zip(paths, ok):
        cnt = 0
        vals = []
        for x in leaves(p):
            vals.append(runs.done[j][2])
            j += 1
            if not good and j - 1 in raised:
                break
        if good:
            want.append(shape(p, iter([Leaf(v) for v in vals])))
    if single:
        want = want[0] if want else []
    c.check(same(res, want), 'the results are those of the requests that succeeded, in order', lambda: f'{paths} {fails}: {res}')
    # the manager works normally afterwards
    runs = Runs(c, w)
    r = pm.run('s.g')
    c.check(r is runs.done[0][2], 'later runs are not affected')


def h_plain(c, w):
    w.c = c
    pm = w.pms['p']
    n = c.choose('n', [1, 2, 3] if c.tier != 'quick' else [1, 2])
    paths = request(c, n)
    total = sum(len(leaves(p)) for p in paths)
    first = c.choose('first', range(total))
    kind = c.choose('exception', list(EXC))
    exc = EXC[kind]()

    def fail(k, a):
        if k == first:
            raise exc
    runs = Runs(c, w, fail)
    try:
        pm.run(paths[0] if n == 1 and c.choose('single', [False, True]) else list(paths))
        c.fail('the exception of a failing item propagates')
    except Exception as e:
        c.check(e is exc, 'the exception of a failing item propagates unchanged', repr(e))
    want = [(x, TREE[x]) for p in paths for x in leaves(p)][:first + 1]
    got = [(d[0], d[1]) for d in runs.done]
    c.check(got == want, 'items after the failing one are not executed', f'{got} {want}')


def setup_pdb(c):
    w = build(c)
    return w


def h_pdb(c, w):
    """a debug function is called while the exception of the item is being handled"""
    w.c = c
    pm = w.pms['p']
    seen = []
    pm.auto_pdb = lambda *a, **k: seen.append(sys.exc_info()[1])
    paths = request(c, c.choose('n', [1, 2]))
    total = sum(len(leaves(p)) for p in paths)
    first = c.choose('first', [None] + list(range(total)))
    exc = EXC[c.choose('exception', list(EXC))]()

    def fail(k, a):
        if k == first:
            raise exc
    runs = Runs(c, w, fail)
    res = pm.run(list(paths))
    if first is None:
        vals = iter([Leaf(d[2]) for d in runs.done])
        c.check(same(res, [shape(p, vals) for p in paths]), 'with no failure auto_pdb changes nothing')
        c.check(not seen, 'the debug function is called for failures only')
    else:
        c.check(len(seen) == 1 and seen[0] is exc, 'the debug function gets the exception of the failing item', str(seen))
        want = [(x, TREE[x]) for p in paths for x in leaves(p)][:first + 1]
        c.check([(d[0], d[1]) for d in runs.done] == want, 'items after the failing one are not executed')


def h_missing(c, w):
    """requests that cannot be resolved count as failures of their own"""
    w.c = c
    pm = w.pms['p']
    runs = Runs(c, w)
    good = ['s.f', 'sc.grp']
    paths = [c.choose(f'path{i}', good + ['s.nope', 'nope', 'sc.grp.nope']) for i in range(2 if c.tier == 'quick' else 3)]
    res = pm.run(list(paths))
    ok = [p for p in paths if p in good]
    c.check([(d[0], d[1]) for d in runs.done] == [(x, TREE[x]) for p in ok for x in leaves(p)],
            'every item is executed whichever of them fail', f'{paths} {runs.done}')
    vals = iter([Leaf(d[2]) for d in runs.done])
    c.check(same(res, [shape(p, vals) for p in ok]), 'the results are those of the requests that succeeded, in order')


HARNESSES = [
    H('force', h_force, 'lists of 0..2 (thorough 3) items or sections with force_continue; every subset of the calls fails, 2 (7) '
      'exception types; results of every kind', setup=lambda c: build(c, force_continue=True), share=3),
    H('plain', h_plain, 'lists of 1..2 (3) items or sections without it; every call as the failing one; 7 exception types',
      setup=build),
    H('pdb', h_pdb, 'the same with a debug function', setup=build),
    H('missing', h_missing, 'lists of 2 (3) paths of which some do not exist, with force_continue',
      setup=lambda c: build(c, force_continue=True)),
]
