"""A scratch user project driven through the library's public API.

The user's functions record what they receive (`rec`), and the user's config
files read their values from the in-memory module `symvals`, so every value is a
solver variable in the symbolic run and a plain object in the replay.
"""
import importlib
import os
import sys
import types

KINDS = ('none', 'bool', 'int', 'str', 'list', 'dict', 'obj')
FEW = ('none', 'int', 'obj')


class Rec:
    def __init__(self):
        self.calls = []
        self.on = {}

    def hit(self, name, /, **args):
        self.calls.append((name, dict(args)))
        h = self.on.get(name)
        if h is not None:
            return h(**args)
        return ['ret', name]

    def take(self):
        out = self.calls
        self.calls = []
        return out


UM_HEAD = 'from symrec import hit\n\n'


def fn_src(name, args=('a', 'b'), sig=None):
    sig = sig or ', '.join(f'{x}=None' for x in args)
    return f'def {name}({sig}):\n    return hit({name!r}' + ''.join(f', {x}={x}' for x in args) + ')\n\n'


def class_src(name, args=('a', 'b'), key=None, execute='__call__', tag=None):
    """A class storing its arguments and recording them when executed."""
    a = (f'{key}=None, ' if key else '') + ', '.join(f'{x}=None' for x in args)
    s = f'class {name}:\n    def __init__(self, {a}):\n'
    for x in ((key,) if key else ()) + tuple(args):
        s += f'        self.{x} = {x}\n'
    who = f"'{name}:' + str(self.{key})" if key else repr(name)
    s += f'    def {execute}(self):\n        return hit({who}' + ''.join(f', {x}=self.{x}' for x in args) + ')\n\n'
    return s


class World:
    def __init__(self, c, um=''):
        self.c = c
        self.root = c.scratch()
        sys.path.insert(0, self.root)
        self.rec = Rec()
        m = types.ModuleType('symrec')
        m.hit = self.rec.hit
        m.rec = self.rec
        sys.modules['symrec'] = m
        self.sv = types.ModuleType('symvals')
        sys.modules['symvals'] = self.sv
        self.pms = {}
        c.on_close(self.close)
        if um:
            self.um = self.module('um', UM_HEAD + um)

    def module(self, name, src, load=True):
        with open(os.path.join(self.root, name + '.py'), 'w') as f:
            f.write(src)
        importlib.invalidate_caches()
        if load:
            sys.modules.pop(name, None)
            m = importlib.import_module(name)
            # the library looks a user's object up in sys.modules from the front
            for k in list(sys.modules):
                if k != name:
                    sys.modules[k] = sys.modules.pop(k)
            return m

    def close(self):
        import pyfileconf
        from pyfileconf.plugin.manager_utils import reset_plugins
        pyfileconf.context.reset()
        pyfileconf.options.reset()
        reset_plugins()
        if self.root in sys.path:
            sys.path.remove(self.root)
        for k, m in list(sys.modules.items()):
            if str(getattr(m, '__file__', None)).startswith(self.root):
                del sys.modules[k]

    # -- values ----------------------------------------------------------------
    def val(self, name, kinds=KINDS):
        v = self.c.val(name, kinds)
        setattr(self.sv, name, v)
        return v

    def put(self, name, v):
        setattr(self.sv, name, v)
        return v

    # -- project ---------------------------------------------------------------
    def write(self, rel, text):
        p = os.path.join(self.root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
        return p

    def read(self, rel):
        with open(os.path.join(self.root, rel)) as f:
            return f.read()

    def project(self, name, dict_src, configs=None, specs=None, um_names=None):
        """writes <name>/pipeline_dict.py, spec dicts and config files
        configs: {'s/f': {'a': 'symvals.x'} or source text}"""
        names = um_names or ''
        head = f'from um import {names}\n' if names else ''
        self.write(f'{name}/pipeline_dict.py', f'{head}pipeline_dict = {dict_src}\n')
        for sname, src in (specs or {}).items():
            self.write(f'{name}/{sname}_dict.py', f'class_dict = {src}\n')
        os.makedirs(os.path.join(self.root, name, 'defaults'), exist_ok=True)
        for path, conf in (configs or {}).items():
            self.config(name, path, conf)

    def config(self, pm, path, conf):
        self.write(f'{pm}/defaults/{path}.py', conf_src(conf))

    def manager(self, name, load=True, **kw):
        from pyfileconf import PipelineManager
        pm = PipelineManager(folder=os.path.join(self.root, name), name=name, **kw)
        self.pms[name] = pm
        if load:
            pm.load()
        return pm

    # -- observation -----------------------------------------------------------
    def files(self, sub=''):
        out = {}
        for d, ds, fs in os.walk(os.path.join(self.root, sub)):
            ds[:] = [x for x in ds if x != '__pycache__']
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, self.root)] = fh.read()
        return out

    def run(self, pm, what):
        self.rec.take()
        r = pm.run(what)
        return r, self.rec.take()

    def received(self, pm, path):
        """arguments the item's own code receives when it is run"""
        self.rec.take()
        pm.run(path)
        calls = self.rec.take()
        self.c.check(len(calls) == 1, 'one run of an item calls it once', lambda: f'{path}: {calls}')
        return calls[0][1]


def conf_src(conf):
    if isinstance(conf, str):
        return conf
    s = 'import symvals\n\n'
    for k, v in conf.items():
        s += f'{k} = {v}\n'
    return s


def attrs_of(obj, names):
    """configured values of an object returned by pm.get"""
    from functools import partial
    if isinstance(obj, partial):
        return {n: obj.keywords[n] for n in names}
    return {n: getattr(obj, n) for n in names}


def view(c, w, pmname, path):
    """the item view reached by attributes of a new selector"""
    from pyfileconf import Selector
    v = getattr(Selector(), pmname)
    for part in path.split('.'):
        v = getattr(v, part)
    return v
