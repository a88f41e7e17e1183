"""C14: captured standard output is logged once and always given back."""
import logging
import sys

from symex.driver import H
from harness.common import World, fn_src, class_src, view

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
PATHS = {'f': 's.f', 'g': 's.g', 'K': 't.K', 'S:one': 'sc.grp.one'}


class Stop(Exception):
    pass


class Halt(BaseException):
    pass


class Out:
    """a standard output that records what reaches it"""

    def __init__(self):
        self.got = []

    def write(self, text):
        self.got.append(text)

    def flush(self):
        pass


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage() if record.args else record.msg)


def build(c):
    w = World(c, UM)
    for m in 'pq':
        conf = {}
        for name, path in PATHS.items():
            conf[path.replace('.', '/')] = ("name = 'one'\n" if name[0] == 'S' else '') + 'a = 1\nb = None\n'
        w.project(m, "{'s': [f, g], 't': [K]}", conf, {'sc': "{'grp': ['one']}"}, 'f, g, K')
        w.manager(m, specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])
        for path in PATHS.values():
            w.pms[m].get(path)
    return w


def begin(c, w):
    import pyfileconf
    from pyfileconf.logger.logger import logger
    w.c = c
    w.handler = Collect()
    w.out = Out()
    w.texts = []
    w.quiet = False
    old = sys.stdout, logger.handlers, logger.level
    logger.handlers = [w.handler]
    logger.setLevel(logging.INFO)
    sys.stdout = w.out

    def close():
        sys.stdout, logger.handlers, logger.level = old
        logger.setLevel(old[2])
    c.on_close(close)
    w.on = c.val('log_stdout', ('bool',))
    pyfileconf.options.set_option('log_stdout', w.on)
    w.on = bool(w.on)


def say(c, w, how, text):
    if w.quiet:
        return
    if how == 'write':
        sys.stdout.write(text)
        w.texts.append(text)
    elif how == 'print':
        print(text, 'end')
        w.texts += [text, ' ', 'end']
    elif how == 'newline':
        print()
    sys.stdout.flush()


def joined(texts):
    out = ''
    for t in texts:
        if isinstance(t, str):
            t = t.replace('\n', '')
        out = out + t if isinstance(t, str) or not isinstance(out, str) else t.__radd__(out)
    return out


def extra(got, base):
    """what is logged beyond the library's own messages"""
    out, i = [], 0
    for msg in got:
        if isinstance(msg, (str, Exception)) and i < len(base) and str(msg) == base[i]:
            i += 1
        elif isinstance(msg, Exception):
            out.append(str(msg))
        else:
            out.append(msg)
    return out, i == len(base)


def top(c, w, op, pm):
    if op == 'run f':
        pm.run('s.f')
    elif op == 'run list':
        pm.run(['t.K', 's.f', 's.g'])
    elif op == 'run section':
        pm.run('s')
    elif op == 'run class':
        pm.run('sc.grp.one')
    elif op == 'view':
        pm.run(view(c, w, 'p', 's.f'))
    elif op == 'product':
        pm.run_product('s.f', [dict(section_path_str='s.f', b=1), dict(section_path_str='s.f', b=2)])
    elif op == 'gen':
        for _ in pm.run_product_gen('s.f', [dict(section_path_str='s.f', b=1), dict(section_path_str='s.f', b=2)]):
            same(c, w, 'between the cases of a product')
    elif op == 'gen left':
        gen = pm.run_product_gen('s.f', [dict(section_path_str='s.f', b=1), dict(section_path_str='s.f', b=2)])
        next(gen)
        same(c, w, 'after the first case of a product')
        gen.close()
    elif op == 'unknown':
        pm.run('s.nope')


TOPS = ['run f', 'run list', 'run section', 'run class', 'view', 'product', 'gen', 'gen left', 'unknown']


def same(c, w, when, to=None):
    c.check(sys.stdout is (to or w.out), 'standard output is the object it was before', when)


def perform(c, w, op, pm):
    try:
        top(c, w, op, pm)
    except (Stop, Halt):
        pass
    except Exception as e:
        c.check(op == 'unknown', 'only the user\'s exceptions and unknown paths are raised', repr(e))
    same(c, w, f'after {op}')


def compare(c, w, base, when):
    got, w.handler.got = w.handler.got, []
    lines, whole = extra(got, base)
    c.check(whole, 'the messages of the library itself are the same', f'{when}: {got!r} instead of {base!r}')
    if w.on:
        c.eq(joined(lines), joined(w.texts), 'everything printed is logged once', when)
        c.check(not w.out.got, 'captured output is not printed as well', f'{when}: {w.out.got!r}')
    else:
        c.check(not lines, 'nothing printed is logged', f'{when}: {lines!r}')
        c.eq(joined(w.out.got), joined(w.texts), 'everything printed is printed', when)


def h_runs(c, w):
    """consecutive runs of items that print, run further items and fail"""
    begin(c, w)
    pm = w.pms['p']
    deep = c.tier != 'quick'
    ops = [c.choose('op', TOPS), c.choose('then', [None, 'run list'] + ['run f'] * deep)]
    pm.force_continue = c.choose('force', [False, True])
    if c.choose('auto_pdb', [False, True]):
        c.assume(not pm.force_continue)
        pm.auto_pdb = lambda: None
    plan = {}

    def pick(what, options):
        if what not in plan:
            plan[what] = c.choose(what, options)
        return plan[what]
    go(c, w, pm, ops, pick, c.str('text', 0, 2, ' %a') if deep else '%s text')


def h_text(c, w):
    """any text"""
    begin(c, w)
    picked = {'inner': c.choose('inner', [None, 'run g']), 'catch': False}
    go(c, w, w.pms['p'], [c.choose('op', ['run f', 'run list'])], lambda what, options: picked.get(what),
       c.str('text', 0, 4 if c.tier == 'quick' else 6, ' %a.\t'))


def go(c, w, pm, ops, pick, text):

    def handler(name):
        def h(a=None, b=None):
            run = w.depth.get(name, 0)
            w.depth[name] = run + 1
            mine = sys.stdout
            if not w.on:
                same(c, w, f'in {name}')
            first = name == 'f' and run == 0
            say(c, w, 'write' if first else 'print', text if first else f'{name}{run}')
            if first:
                inner = pick('inner', [None, 'run g', 'run K', 'other', 'newline'] + ['redirect'] * w.on)
                if inner in ('run g', 'run K', 'other'):
                    catch = pick('catch', [True, False])
                    try:
                        if inner == 'other':
                            w.pms['q'].run('s.g')
                        else:
                            pm.run('s.g' if inner == 'run g' else 't.K')
                    except (Stop, Halt):
                        if not catch:
                            raise
                    finally:
                        same(c, w, 'after an inner run', mine)
                elif inner == 'redirect':
                    import contextlib
                    with contextlib.redirect_stdout(Out()):
                        pm.run('s.g')
                elif inner == 'newline':
                    say(c, w, 'newline', '')
                say(c, w, 'write', f'again{name}')
            if name == 'K':
                return name
            end = pick(f'end {name}', [None, Stop, Halt])
            if end is not None:
                raise end('failed')
            return name
        return h
    for name in ('f', 'g', 'K', 'S:one'):
        w.rec.on[name] = handler(name)
    base = []
    for w.quiet in (True, False):
        for i, op in enumerate(ops):
            if op is None:
                continue
            w.depth = {}
            perform(c, w, op, pm)
            if w.quiet:
                base.append([str(m) for m in w.handler.got])
                w.handler.got = []
            else:
                compare(c, w, base[i], op)
                w.texts, w.out.got = [], []


HARNESSES = [
    H('runs', h_runs, 'two consecutive runs out of 9 kinds (item, list, section, specific class, item view, product, product generator used '
      'up or left, unknown path), functions writing, running another item, another '
      'manager\'s item, redirecting or printing a bare newline in between, ending normally or by two kinds of exception at any level, with and '
      'without force_continue and auto_pdb, option arbitrary', setup=build, share=4),
    H('text', h_text, 'any text of length 0..4 (thorough 6) over blank, tab, %, a and .', setup=build),
]
ASSUMPTIONS = ['items print through sys.stdout.write, print and flush']
