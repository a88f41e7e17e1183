"""Scratch project for demonstrations: run with cwd = the repository."""
import atexit
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
ROOT = tempfile.mkdtemp(prefix='pfc_demo_')
atexit.register(shutil.rmtree, ROOT, True)
sys.path.insert(0, ROOT)
import logging
logging.disable(logging.CRITICAL)


def write(rel, text):
    p = os.path.join(ROOT, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)
    return p


def read(rel):
    with open(os.path.join(ROOT, rel)) as f:
        return f.read()


UM = '''
calls = []
on = {}


def f(a=None, b=None):
    calls.append(('f', a, b))
    return on['f'](a, b) if 'f' in on else ('f', a, b)


def g(a=None, b=None):
    calls.append(('g', a, b))
    return on['g'](a, b) if 'g' in on else ('g', a, b)


class K:
    def __init__(self, a=None, b=None):
        self.a, self.b = a, b

    def __call__(self):
        calls.append(('K', self.a, self.b))
        return on['K'](self.a, self.b) if 'K' in on else ('K', self.a, self.b)


class S:
    def __init__(self, name=None, a=None, b=None):
        self.name, self.a, self.b = name, a, b

    def __call__(self):
        calls.append((self.name, self.a, self.b))
        return (self.name, self.a, self.b)
'''


def project(name='p', dict_src="{'s': [f, g], 't': [K]}", spec="{'grp': ['one', 'two']}", conf=None, load=True, um=UM, **kw):
    """a manager named `name` over a new project"""
    write('um.py', um)
    import um as mod
    from pyfileconf import PipelineManager
    write(f'{name}/pipeline_dict.py', f'from um import *\npipeline_dict = {dict_src}\n' if False else
          'from um import f, g, K\npipeline_dict = ' + dict_src + '\n')
    write(f'{name}/sc_dict.py', f'class_dict = {spec}\n')
    os.makedirs(os.path.join(ROOT, name, 'defaults'), exist_ok=True)
    for k, v in (conf or {}).items():
        write(f'{name}/defaults/{k}.py', v)
    pm = PipelineManager(folder=os.path.join(ROOT, name), name=name,
                         specific_class_config_dicts=[{'class': mod.S, 'name': 'sc'}], **kw)
    if load:
        pm.load()
    return pm
