"""C13: options hold the last value set, reset to their defaults, and one log file handler follows the log folder."""
import io
import logging
import os
from logging.handlers import TimedRotatingFileHandler

from symex.driver import H
from harness.common import FEW

NAMES = ('log_stdout', 'log_folder', 'log_file_rollover_freq', 'log_file_num_keep')
DEFAULTS = {'log_stdout': False, 'log_folder': None, 'log_file_rollover_freq': 'D', 'log_file_num_keep': 0}


class Stop(Exception):
    pass


class Halt(BaseException):
    pass


class O:
    """the options next to what they should be"""

    def __init__(self, c):
        import pyfileconf
        from pyfileconf.logger import logger as lg
        self.c = c
        self.root = c.scratch()
        self.opts = pyfileconf.options
        self.logger = lg.logger
        self.want = dict(DEFAULTS)
        self.n = 0
        with open(os.path.join(self.root, 'file'), 'w'):
            pass
        self.streams = [h for h in self.logger.handlers if type(h) is logging.StreamHandler]
        for h in self.streams:
            h.setStream(io.StringIO())
        c.on_close(self.close)

    def close(self):
        import sys
        for h in self.handlers():
            self.logger.handlers.remove(h)
            h.close()
        from pyfileconf import opts
        from pyfileconf.opts import PyfileconfOption
        for k, v in DEFAULTS.items():
            setattr(opts.options, k, v)
            if not isinstance(self.opts.__dict__.get(k), PyfileconfOption):
                self.opts.__dict__[k] = PyfileconfOption(k)
        for h in self.streams:
            h.setStream(sys.stdout)

    def handlers(self):
        return [h for h in self.logger.handlers if isinstance(h, TimedRotatingFileHandler)]

    def value(self, name, i):
        """an arbitrary value for the option, and whether it can be set"""
        c = self.c
        if name == 'log_stdout':
            return c.val(f'stdout{i}', ('bool',)), True
        if name == 'log_file_num_keep':
            return c.int(f'keep{i}', 0, 9), True
        if name == 'log_file_rollover_freq':
            return c.choose(f'freq{i}', ['H', 'midnight']), True
        sub = c.choose(f'folder{i}', [None, 'a', 'ab', 'file/x'] + (['a/', 'new/sub'] if c.tier != 'quick' else []))
        return sub and os.path.join(self.root, sub), sub != 'file/x'

    def look(self, when):
        c = self.c
        for name in NAMES:
            o = getattr(self.opts, name)
            if name == 'log_folder':
                c.check(o.value == self.want[name], 'every option has the value last set', f'{name} {when}')
            else:
                c.eq(o.value, self.want[name], 'every option has the value last set', f'{name} {when}')
            c.check(o.default_value == DEFAULTS[name], 'the defaults stay', f'{name} {when}')
        hs = self.handlers()
        folder = self.want['log_folder']
        c.check(len(hs) == (folder is not None), 'there is one file handler exactly when a folder is set',
                f'{len(hs)} handlers with folder {folder} {when}')
        text = f'message {self.n}'
        self.n += 1
        before = self.logs()
        self.logger.critical(text)
        after = self.logs()
        for p in after:
            new = after[p][len(before.get(p, '')):]
            mine = folder is not None and os.path.normpath(folder) == os.path.dirname(p)
            c.check(new.count(text) == mine, 'messages are written once into the current log folder and nowhere else',
                    f'{p[len(self.root):]}: {new!r} with folder {folder} {when}')
        if folder is not None:
            c.check(os.path.join(os.path.normpath(folder), 'pyfileconf.log') in after, 'the log file is in the current folder',
                    f'{folder} {when}')

    def logs(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                if '.log' in f:
                    with open(os.path.join(d, f)) as fh:
                        out[os.path.join(d, f)] = fh.read()
        return out

    def attempt(self, fn, fine, what):
        try:
            fn()
        except Exception as e:
            self.c.check(not fine, 'setting and resetting options works', f'{what}: {e!r}')
            return
        self.c.check(fine, 'a folder that cannot be created is an error', what)

    def op(self, i):
        c, o = self.c, self.opts
        kind = c.choose(f'op{i}', ['set', 'assign value', 'assign', 'list', 'reset', 'reset option', 'reset list', 'reset all', 'unknown'])
        if kind == 'unknown':
            try:
                c.choose('call', [lambda: o.set_option('no_such', 1), lambda: o.reset_option('no_such')])()
            except AttributeError:
                pass
            else:
                c.fail('an unknown option is an error')
            return kind
        if kind == 'reset all':
            self.attempt(o.reset, True, 'reset()')
            self.want = dict(DEFAULTS)
            return kind
        names = [c.choose(f'name{i}', NAMES)]
        if kind in ('list', 'reset list'):
            second = ['log_folder', 'log_stdout'] if names[0] != 'log_folder' else ['log_stdout', 'log_folder']
            names.append(c.choose(f'second{i}', second[:1] if c.tier == 'quick' else second))
        if kind[:5] == 'reset':
            if kind == 'reset':
                fn = lambda: getattr(o, names[0]).reset()
            elif kind == 'reset option':
                fn = lambda: o.reset_option(names[0])
            else:
                fn = lambda: o.reset_options(names)
            self.attempt(fn, True, f'{kind} {names}')
            for n in names:
                self.want[n] = DEFAULTS[n]
            return f'{kind} {names}'
        vals = [self.value(n, f'{i}{k}') for k, n in enumerate(names)]
        n, (v, ok) = names[0], vals[0]
        if kind == 'set':
            fn = lambda: o.set_option(n, v)
        elif kind == 'assign value':
            def fn():
                getattr(o, n).value = v
        elif kind == 'assign':
            def fn():
                setattr(o, n, v)
        else:
            fn = lambda: o.set_options([(a, b) for a, (b, _) in zip(names, vals)])
        fine = True
        for n, (v, ok) in zip(names, vals):
            if not ok:
                fine = False
                break
            self.want[n] = v
        self.attempt(fn, fine, f'{kind} {names}')
        return f'{kind} {names}'


def h_history(c):
    o = O(c)
    o.look('at first')
    for i in range(2):
        o.look('after ' + o.op(i))
    o.attempt(o.opts.reset, True, 'reset()')
    o.want = dict(DEFAULTS)
    o.look('after the final reset')


def h_folder(c):
    """longer histories of the log folder"""
    o = O(c)
    for i in range(3 if c.tier == 'quick' else 4):
        sub = c.choose('folder', [None, 'a', 'a/', 'ab', 'file/x', 'reset'])
        if sub == 'reset':
            o.attempt(lambda: o.opts.reset_option('log_folder'), True, 'reset')
            o.want['log_folder'] = None
        else:
            path = sub and os.path.join(o.root, sub)
            o.attempt(lambda: o.opts.set_option('log_folder', path), sub != 'file/x', f'{sub}')
            if sub != 'file/x':
                o.want['log_folder'] = path
        o.look(f'after {sub}')


def h_handler(c):
    """what the handler is opened with"""
    o = O(c)
    keep = c.int('keep', 0, 20)
    freq = c.choose('freq', ['S', 'M', 'H', 'D', 'midnight', 'W0'])
    order = c.choose('order', ['before', 'list'])
    path = os.path.join(o.root, 'a')
    ups = [('log_file_num_keep', keep), ('log_file_rollover_freq', freq), ('log_folder', path)]
    if order == 'list':
        o.opts.set_options(ups)
    else:
        for n, v in ups:
            o.opts.set_option(n, v)
    o.want.update(dict(ups))
    o.look('with all set')
    h, = o.handlers()
    c.eq(h.backupCount, keep, 'the number of kept files is the option\'s')
    c.check(h.when == freq.upper(), 'the rollover is the option\'s', h.when)


def h_with(c):
    """a with-block resets everything, however it is left"""
    o = O(c)
    if c.choose('before', [False, True]):
        o.opts.set_option('log_file_num_keep', c.int('keep0', 0, 9))
    how = c.choose('block', c.tier == 'quick' and ['options', 'set_option'] or ['options', 'set_option', 'set_options'])
    nested = c.choose('nested', [False, True])
    end = c.choose('end', [None, Stop, Halt])
    name = c.choose('name', NAMES)
    v, ok = o.value(name, 'w')
    c.assume(ok)

    def enter():
        if how == 'options':
            return o.opts
        if how == 'set_option':
            return o.opts.set_option(name, v)
        return o.opts.set_options([(name, v), ('log_stdout', True)])

    left = None
    try:
        with enter():
            if how != 'options':
                o.c.check(getattr(o.opts, name).value == (v if name != 'log_stdout' or how == 'set_option' else True), 'set inside the block')
            if nested:
                with o.opts:
                    o.want = {n: getattr(o.opts, n).value for n in NAMES}
                    o.op(0)
                o.want = dict(DEFAULTS)
                o.look('after the inner block')
            else:
                o.want = {n: getattr(o.opts, n).value for n in NAMES}
                o.look('inside, after ' + o.op(0))
            if end is not None:
                raise end('inside')
    except (Stop, Halt) as e:
        left = type(e)
    c.check(left is end, 'exceptions leave the block', repr(left))
    o.want = dict(DEFAULTS)
    o.look('after the block')
    if c.tier != 'quick':
        o.look('after ' + o.op(1))


HARNESSES = [
    H('history', h_history, 'any sequence of 2 of setting (by name, value, assignment, list of two), resetting (one, list, all) '
      'and naming unknown options, log folder of None or 3 (thorough 5) folders of which one cannot be created, any flag, any count 0..9', share=3, isolate=False),
    H('folder', h_folder, '3 (4) settings and resets of the log folder', isolate=False),
    H('handler', h_handler, 'any count 0..20, 6 rollover frequencies', isolate=False),
    H('with', h_with, 'with-blocks on the options, set_option or (thorough) set_options, nested or not, left normally or by two kinds of exception, '
      'an operation inside and (thorough) one after', share=2, isolate=False),
]
ASSUMPTIONS = ['the rollover options apply to a log folder set after them', 'nobody else adds a TimedRotatingFileHandler to the pyfileconf logger']
