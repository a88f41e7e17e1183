"""C31: a write that fails or is cut off damages no file, and the operation can be repeated."""
import builtins
import io
import os

from symex.driver import H
from harness.common import World, fn_src, class_src, FEW

UM = fn_src('f') + fn_src('g') + class_src('K') + class_src('S', key='name')
NEW = fn_src('n') + class_src('N')


class Killed(BaseException):
    pass


class Faults:
    """stand-ins for the operations which change files: the k-th one fails. A write puts half of the text into the file
    first. 'error': it raises OSError, later ones work. 'interrupt': the same with KeyboardInterrupt.
    'kill': nothing after it has any effect"""

    def __init__(self, root, at, mode):
        self.root, self.at, self.mode = root, at, mode
        self.n = 0
        self.hit = False

    def step(self, path, partial=None):
        if self.hit and self.mode == 'kill':
            raise Killed()
        try:
            p = os.fspath(path)
        except TypeError:
            return
        if not isinstance(p, str) or not os.path.abspath(p).startswith(self.root):
            return
        n, self.n = self.n, self.n + 1
        if n == self.at:
            self.hit = True
            if partial is not None:
                partial()
            raise {'error': OSError(28, 'No space left on device'), 'interrupt': KeyboardInterrupt(), 'kill': Killed()}[self.mode]

    def __enter__(self):
        me = self
        self.old = {(m, n): getattr(m, n) for m, n in [(builtins, 'open'), (io, 'open'), (os, 'open'), (os, 'replace'), (os, 'rename'),
                                                     (os, 'remove'), (os, 'unlink'), (os, 'mkdir'), (os, 'truncate'), (os, 'write'),
                                                     (os, 'link'), (os, 'symlink'), (os, 'fsync')]}
        real = dict(self.old)

        class File:
            def __init__(self, f, name):
                object.__setattr__(self, 'f', f)
                object.__setattr__(self, 'name', name)

            def __getattr__(self, a):
                return getattr(self.f, a)

            def __enter__(self):
                self.f.__enter__()
                return self

            def __iter__(self):
                return iter(self.f)

            def __exit__(self, *a):
                return self.f.__exit__(*a)

            def write(self, text):
                def half():
                    self.f.write(text[:len(text) // 2])
                    self.f.flush()
                me.step(self.name, half)
                return self.f.write(text)

            def writelines(self, lines):
                for x in lines:
                    self.write(x)

            def truncate(self, *a):
                me.step(self.name)
                return self.f.truncate(*a)

        fds = {}

        def opening(which):
            def fake(file, mode='r', *a, **k):
                if not any(x in mode for x in 'wax+'):
                    return real[which](file, mode, *a, **k)
                name = fds.get(file, file)
                if not isinstance(file, int):
                    me.step(name)
                f = real[which](file, mode, *a, **k)
                return File(f, name)
            return fake

        def os_open(path, flags, *a, **k):
            if flags & (os.O_WRONLY | os.O_RDWR):
                me.step(path)
                fd = real[os, 'open'](path, flags, *a, **k)
                fds[fd] = path
                return fd
            return real[os, 'open'](path, flags, *a, **k)

        def os_write(fd, data):
            if fd in fds:
                me.step(fds[fd], lambda: real[os, 'write'](fd, data[:len(data) // 2]))
            return real[os, 'write'](fd, data)

        def plain(name):
            def fake(path, *a, **k):
                me.step(path)
                return real[os, name](path, *a, **k)
            return fake
        builtins.open = opening((builtins, 'open'))
        io.open = opening((io, 'open'))
        os.open, os.write = os_open, os_write
        for n in ('replace', 'rename', 'remove', 'unlink', 'mkdir', 'truncate', 'link', 'symlink'):
            setattr(os, n, plain(n))
        return self

    def __exit__(self, *a):
        for (m, n), f in self.old.items():
            setattr(m, n, f)
        return False


DICT = "{'s': [f, K], 't': {'u': [g]}}"
SPEC = "{'x': ['one', 'two']}"
OPS = ['new', 'load', 'add', 'reload', 'create', 'create section', 'create spec']


def world(c):
    w = World(c, UM)
    w.module('nu', 'from symrec import hit\n\n' + NEW)
    w.val('x0', FEW)
    w.val('x1', FEW)
    return w


def specs(w):
    return dict(specific_class_config_dicts=[{'class': w.um.S, 'name': 'sc'}])


def prepare(c, w, op):
    """the state before the operation, and the operation"""
    if op == 'new':
        return None, lambda pm: w.manager('p', **specs(w))
    conf = {}
    if op in ('load', 'add'):
        conf = {'s/f': '# mine\nimport symvals\na = symvals.x0\n' + ('b = 2\n' if op == 'load' else ''),
                't/section': 'import symvals\nb = symvals.x1\n',
                'sc/x/one': 'import symvals\na = symvals.x1  # kept\n'}
    w.project('p', DICT, conf, {'sc': SPEC}, 'f, g, K')
    if op in ('load', 'add'):
        return None, lambda pm: w.manager('p', **specs(w))
    pm = w.manager('p', **specs(w))
    w.write('p/defaults/s/f.py', w.read('p/defaults/s/f.py').replace('a = None', 'import symvals\na = symvals.x0'))
    w.write('p/defaults/sc/x/two.py', w.read('p/defaults/sc/x/two.py').replace('a = None', 'import symvals\na = symvals.x1'))
    pm = w.manager('p', **specs(w))
    if op == 'reload':
        w.write('p/pipeline_dict.py', "from um import f, g, K\nfrom nu import n\npipeline_dict = {'s': [f, n, K], 't': {'u': [g], 'v': [n]}}\n")
        w.write('p/sc_dict.py', "class_dict = {'x': ['one', 'two', 'new']}\n")
        return pm, lambda pm: pm.reload()
    if op == 'create':
        return pm, lambda pm: pm.create('s', w.nu.n)
    if op == 'create section':
        return pm, lambda pm: pm.create('t.new.er', w.nu.N)
    return pm, lambda pm: pm.create('sc.x.new')


def items(op):
    out = ['s.f', 's.K', 't.u.g', 'sc.x.one', 'sc.x.two']
    return {'new': [], 'reload': out + ['s.n', 't.v.n', 'sc.x.new'], 'create': out + ['s.n'],
            'create section': out + ['t.new.er.N'], 'create spec': out + ['sc.x.new']}.get(op, out)


def fresh(w):
    """as in a new process"""
    import pyfileconf
    w.pms.clear()
    pyfileconf.context.reset()


def h_fault(c):
    op = c.choose('operation', OPS)
    mode = c.choose('fault', ['error', 'interrupt', 'kill'])
    w = world(c)
    w.nu = __import__('nu')
    # what the operation leaves without a fault
    pm, do = prepare(c, w, op)
    before = w.files('p')
    count = Faults(os.path.join(w.root, 'p'), -1, 'error')
    with count:
        pm = do(pm) or pm
    full = w.files('p')
    want = {p: w.received(pm, p) for p in items(op)}
    total = count.n
    c.check(total > 0 or op == 'load', 'the operation writes files', op)
    # a later start may add what the operation left for it (files of sections)
    fresh(w)
    w.manager('p', **specs(w))
    later = w.files('p')
    c.check(all(later.get(f) == v for f, v in full.items()), 'a restart keeps the files', op)
    # again, with a fault at the k-th change of a file
    del pm
    fresh(w)
    import shutil
    shutil.rmtree(os.path.join(w.root, 'p'))
    pm, do = prepare(c, w, op)
    c.check(w.files('p') == before, 'the two projects are the same', op)
    if total == 0:
        return
    k = c.choose('at', list(range(total)))
    faults = Faults(os.path.join(w.root, 'p'), k, mode)
    failed = False
    try:
        with faults:
            pm = do(pm) or pm
    except (OSError, KeyboardInterrupt, Killed) as e:
        failed = True
    what = f'{op}, {mode} at {k} of {total}'
    c.check(faults.hit, 'the fault was reached', what)
    c.check(failed, 'a failed write is reported', what)
    after = w.files('p')
    for f in before:
        c.check(after.get(f) in (before[f], full[f]), 'a file which was there has its old or its new content',
                lambda: f'{what}, {f}: {after.get(f)!r} was {before[f]!r}')
    for f in after:
        if f not in before and (f.endswith('.py') or mode != 'kill'):
            c.check(f in later and after[f] == later[f], 'a new file is complete or not there', lambda: f'{what}, {f}: {after[f]!r}')
    # again
    if mode == 'kill' or op in ('new', 'load', 'add') or c.choose('restart', [False, True]):
        fresh(w)
        pm = w.manager('p', **specs(w))
    if op in ('reload',) or op.startswith('create'):
        do(pm)
    final = {f: v for f, v in w.files('p').items() if f.endswith('.py')}
    for f in set(final) | set(full):
        c.check(f in final and final[f] == later.get(f), 'repeating the operation gives what it gives without a fault',
                lambda: f'{what} {f}: {final.get(f)!r}, not {later.get(f)!r}')
    for p, v in want.items():
        c.eq(w.received(pm, p), v, 'repeating the operation gives what it gives without a fault', f'{what}, {p}')


HARNESSES = [
    H('fault', h_fault, '7 operations which write (new project, load of complete and incomplete files, reload of a changed dictionary, create in 3 forms) × 3 kinds of '
      'fault (error, interrupt, killed) at every change of a file the operation makes', timeout=90),
]
ASSUMPTIONS = ['faults: opening or creating a file or folder for writing, writing (after half of the text), replacing, removing; half of a write may be on disk; '
               'a rename is atomic; the order in which a real disk keeps writes across a power failure is not modelled']
