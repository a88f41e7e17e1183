"""Planted bugs: each breaks one property, written from its statement and the code."""
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug('c02-stripset', 'C02',
    [('pyfileconf/sectionpath/sectionpath.py', '    return filename_str[:-3]\n', "    return filename_str.rstrip('.py')\n")],
    'a config file whose name ends in p or y',
    'The section path of a file named e.g. happy.py loses the trailing letters of its name',
    '''
import os, sys
sys.path.insert(0, os.getcwd())
from pyfileconf.sectionpath.sectionpath import SectionPath
sp = SectionPath.from_filepath('/base', SectionPath('sec.happy').to_filepath('/base') + '.py')
assert sp.path_str == 'sec.happy', sp.path_str
''')

bug('c05-none-update', 'C05',
    [('pyfileconf/basemodels/config.py',
      '''        new_config = self._get_new_config_from_file()
        all_updates = {**new_config, **self._applied_updates}
        self.update(all_updates, pyfileconf_persist=False)
''', '''        new_config = self._get_new_config_from_file()
        applied = {key: value for key, value in self._applied_updates.items() if value is not None}
        all_updates = {**new_config, **applied}
        self.update(all_updates, pyfileconf_persist=False)
''')],
    'a persistent update of an argument to None where the config file has another value, then a refresh which changes something',
    'A persistent update to None is lost upon refresh',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
pm.update(section_path_str='s.f', a=None)
pm.update(section_path_str='s.f', b=7, pyfileconf_persist=False)
pm.refresh('s.f')
r = pm.run('s.f')
assert r == ('f', None, 2), r
''')

bug('c11-default-none', 'C11',
    [('pyfileconf/iterate.py', '            new_conf = {**defaults, **conf}\n',
      '            new_conf = {**defaults, **{k: v for k, v in conf.items() if v is not None}}\n')],
    'a case which sets an argument to None whose value before the product run was not None',
    'A case setting an argument to None runs with the value from before the product run',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
res = pm.run_product('s.f', [dict(section_path_str='s.f', a=5), dict(section_path_str='s.f', a=None)])
assert [r for _, r in res] == [('f', 5, 2), ('f', None, 2)], res
''')


bug('c11-gen-skip', 'C11',
    [('pyfileconf/iterate.py', '                continue\n            result = self._run_case(case)\n            in_out_tup',
      '                return\n            result = self._run_case(case)\n            in_out_tup')],
    'the generator form of a product run with a should_run that rejects a case which is not the last',
    'The cases after the first rejected one are not run',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
from pyfileconf.iterate import IterativeRunner
class R(IterativeRunner):
    def should_run(self, case):
        return case[0]['a'] != 6
ups = [dict(section_path_str='p.s.f', a=x) for x in (5, 6, 7)]
res = [r for _, r in R('p.s.f', ups).run()], [r for _, r in R('p.s.f', ups).run_gen()]
assert res[0] == res[1] == [('f', 5, 2), ('f', 7, 2)], res
''')


bug('c22-prefix-folder', 'C22',
    [('pyfileconf/main.py', '            if abs_filepath.startswith(manager_path + os.sep):\n',
      '            if abs_filepath.startswith(manager_path):\n')],
    'two projects in sibling folders, the name of the first created being a prefix of the name of the other',
    'A file of the second project is attributed to the first manager',
    '''
from proj import *
from pyfileconf import PipelineManager
a = project('proj')
b = project('proj_b')
assert PipelineManager.get_manager_by_filepath(os.path.join(b.folder, 'defaults', 's', 'f.py')) is b
''')

bug('c01-join-dedupe', 'C01',
    [('pyfileconf/sectionpath/sectionpath.py',
      '        output_path_sections = section_path_1.sections + section_path_2.sections\n',
      '''        if section_path_2.sections[:len(section_path_1)] == section_path_1.sections:
            # already a full path
            output_path_sections = section_path_2.sections
        else:
            output_path_sections = section_path_1.sections + section_path_2.sections
''')],
    'joining a base with a path which itself starts with the sections of the base, e.g. a manager with a section of the same name',
    'Joining does not concatenate when the second path starts with the first, so p.p.f becomes p.f',
    '''
import os, sys
sys.path.insert(0, os.getcwd())
from pyfileconf.sectionpath.sectionpath import SectionPath
assert SectionPath.join('p', 'p.f').path_str == 'p.p.f', SectionPath.join('p', 'p.f').path_str
''')

bug('c03-merge-dict', 'C03',
    [('pyfileconf/basemodels/config.py', '        super().update(E, **F)\n',
      '''        for key, value in all_updates.items():
            if isinstance(value, dict) and isinstance(self.get(key), dict):
                value = {**self[key], **value}
            super().update({key: value})
''')],
    'an update of an argument which holds a dictionary to another dictionary',
    'The new dictionary is merged with the old one instead of replacing it',
    '''
from proj import *
pm = project(conf={'s/f': 'a = {"x": 1}\\nb = 2\\n'})
pm.update(section_path_str='s.f', a={'y': 2})
r = pm.run('s.f')
assert r == ('f', {'y': 2}, 2), r
''')

bug('c04-section-order', 'C04',
    [('pyfileconf/config/models/manager.py',
      '''            section_configs.append(
                self._get_func_or_section_configs(full_section)
            )
            full_section += '.'
''',
      '''            section_config = self._get_func_or_section_configs(full_section)
            if section_config not in section_configs:
                section_configs.append(section_config)
            full_section += '.'
''')],
    'an inner section with exactly the same settings as the project or an outer section, with another section between which overrides them',
    'The setting of the innermost section is ignored and the one of the section between applies',
    '''
from proj import *
pm = project(dict_src="{'o': {'m': {'i': [f]}}}",
             conf={'o/section': 'a = 1\\n', 'o/m/section': 'a = 2\\n', 'o/m/i/section': 'a = 1\\n', 'o/m/i/f': 'a = 0\\nb = 0\\n'})
r = pm.run('o.m.i.f')
assert r == ('f', 1, 0), r
''')

bug('c06-reload-local', 'C06',
    [('pyfileconf/main.py',
      '''        self.config = ConfigManager(self.default_config_path, self.name)
        self.config.load()
''',
      '''        local_config = self.config.local_config if 'config' in self.__dict__ else None
        self.config = ConfigManager(self.default_config_path, self.name)
        self.config.load()
        if local_config is not None:
            self.config.local_config = local_config
''')],
    'a local config set before a reload',
    'The local config survives a reload',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
pm.config.update(a=9)
pm.reload()
r = pm.run('s.f')
assert r == ('f', 1, 2), r
''')

bug('c07-file-differs', 'C07',
    [('pyfileconf/basemodels/config.py',
      '''        would_update = self.would_update(final_updates)
        if would_update:
            return final_updates
''', '''        would_update = self.would_update(new_config)
        if would_update:
            return final_updates
''')],
    'a refresh of an item with a persistent update, the file not having changed',
    'The hooks are called for a refresh which changes nothing',
    '''
from proj import *
from pyfileconf.plugin.impl import hookimpl
from pyfileconf.plugin import manager
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
pm.run('s.f')
pm.update(section_path_str='s.f', a=4)
seen = []


class P:
    @hookimpl
    def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
        seen.append(section_path_str)


manager.plm.register(P())
pm.refresh('s.f')
assert seen == [], seen
''')

bug('c08-outer-file', 'C08',
    [('pyfileconf/pmcontext/stack.py', '        return load_frames[-1].section_path\n', '        return load_frames[0].section_path\n')],
    'a chain of config files reading each other, the first load being the one of the last in the chain',
    'The dependency of a config file loaded by another config file is recorded for the outer one only, so the chain keeps stale values',
    '''
from proj import *
SEL = 'from pyfileconf import Selector\\nsel = Selector()\\n'
pm = project(dict_src="{'s': [f, g], 't': [K]}", conf={
    's/f': 'a = 1\\nb = 0\\n',
    's/g': SEL + 'a = sel.p.s.f.keywords["a"]\\nb = 0\\n',
    't/K': SEL + 'a = sel.p.s.g.keywords["a"]\\nb = 0\\n',
})
pm.run('t.K')
pm.update(section_path_str='s.f', a=2)
assert pm.run('t.K') == ('K', 2, 0), pm.run('t.K')
''')

bug('c09-tuple-result', 'C09',
    [('pyfileconf/runner/models/runner.py',
      '''            result = [self._run(section_path_str) for section_path_str in section_path_str_or_list]
''',
      '''            results = {section_path_str: self._run(section_path_str) for section_path_str in section_path_str_or_list}
            result = [results[section_path_str] for section_path_str in section_path_str_or_list]
''')],
    'an item mentioned twice whose result differs between the runs',
    'The results of an item mentioned twice are both the result of its last run',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
import um
n = []
um.on['f'] = lambda a, b: n.append(1) or len(n)
r = pm.run(['s.f', 's.g', 's.f'])
assert r[0] == 1 and r[2] == 2, r
''')

bug('c10-none-result', 'C10',
    [('pyfileconf/main.py', '''            if successful:
                results.append(result)
            else:
''', '''            if successful:
                if isinstance(result, list) and not result:
                    continue  # nothing was run in the section
                results.append(result)
            else:
''')],
    'a list of items run with force_continue, one of which successfully returns an empty list',
    'A successful result which is an empty list is dropped',
    '''
from proj import *
pm = project(force_continue=True)
import um
um.on['f'] = lambda a, b: []
r = pm.run(['s.f', 's.g'])
assert r == [[], ('g', None, None)], r
''')

bug('c12-pop-on-error', 'C12',
    [('pyfileconf/pmcontext/tracing.py',
      '''        from pyfileconf import context

        context.stack.pop_frame()
''',
      '''        from pyfileconf import context

        if exc_type is None or issubclass(exc_type, Exception):
            context.stack.pop_frame()
''')],
    'an item which is interrupted (KeyboardInterrupt, SystemExit)',
    'After an interrupted run the item is still considered to be running',
    '''
from proj import *
from pyfileconf import context
pm = project()
import um


def stop(a, b):
    raise KeyboardInterrupt


um.on['f'] = stop
try:
    pm.run('s.f')
except KeyboardInterrupt:
    pass
assert context.currently_running_section_path_str is None, context.stack
''')

bug('c20-prefix-name', 'C20',
    [('pyfileconf/runner/models/runner.py', '            if registrar.name == registrar_name:\n',
      '            if registrar_name.startswith(registrar.name):\n')],
    'a section of the main dictionary whose name starts with the name of a specific-class dictionary',
    'The items of that section are not reachable',
    '''
from proj import *
pm = project(dict_src="{'sc_funcs': [f]}")
r = pm.run('sc_funcs.f')
assert r == ('f', None, None), r
''')

bug('c24-skip-same', 'C24',
    [('pyfileconf/batch.py',
      '''            new_update = {**update, 'section_path_str': relative_section_path_str}
            pm._update(**new_update)  # type: ignore
''',
      '''            new_update = {**update, 'section_path_str': relative_section_path_str}
            config = pm.config.get(relative_section_path_str)
            values = {key: value for key, value in update.items() if key != 'section_path_str'}
            if config is not None and not config.would_update(values):
                continue
            pm._update(**new_update)  # type: ignore
''')],
    'a batch update of an argument to the value it already has, then a change of the config file and a refresh',
    'The update is not remembered as it would be by a single update, the refresh replaces it',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
pm.update_batch([dict(section_path_str='s.f', a=1)])
write('p/defaults/s/f.py', 'a = 5\\nb = 2\\n')
pm.refresh('s.f')
r = pm.run('s.f')
assert r == ('f', 1, 2), r
''')

bug('c25-bool-compare', 'C25',
    [('pyfileconf/basemodels/config.py',
      '''    if isinstance(val1, (pd.DataFrame, pd.Series)):
        return val1.equals(val2)
''',
      '''    if isinstance(val1, pd.DataFrame):
        return val1.equals(val2)
    elif isinstance(val1, pd.Series):
        return bool((val1 == val2).all())
''')],
    'updating an argument holding a series to one with another index',
    'The update fails with an exception from the comparison',
    '''
from proj import *
import pandas as pd
pm = project()
pm.update(section_path_str='s.f', a=pd.Series([1, 2, 3]))
pm.update(section_path_str='s.f', a=pd.Series([1, 2], index=['x', 'y']))
assert len(pm.run('s.f')[1]) == 2
''')

bug('c26-falsy-contribution', 'C26',
    [('pyfileconf/main.py',
      '''            if d_ is not None:
                d_.update(new_updates_dict)
            kwargs.update(new_updates_dict)
''',
      '''            if d_ is not None:
                d_.update(new_updates_dict)
            else:
                kwargs.update(new_updates_dict)
''')],
    'an update with both a dictionary and keyword arguments, and a plugin overriding a value passed as a keyword argument',
    'The value contributed by the plugin does not override the keyword argument',
    '''
from proj import *
from pyfileconf.plugin.impl import hookimpl
from pyfileconf.plugin import manager
pm = project()


class P:
    @hookimpl
    def pyfileconf_pre_update(self, pm, d_, section_path_str, kwargs):
        return {'a': 'plugin'}


manager.plm.register(P())
pm.update({'b': 1}, section_path_str='s.f', a='user')
r = pm.run('s.f')
assert r == ('f', 'plugin', 1), r
''')

OPTS = 'pyfileconf/opts/__init__.py'

bug('c13-exit', 'C13',
    [(OPTS, '    def __exit__(self, exc_type, exc_val, exc_tb):\n        self.reset()\n',
      '    def __exit__(self, exc_type, exc_val, exc_tb):\n        if exc_type is None:\n            self.reset()\n')],
    'a with-block on the options which is left through an exception',
    'The options set in the block are kept after an exception leaves it',
    '''
from proj import *
import pyfileconf
try:
    with pyfileconf.options.set_option('log_file_num_keep', 9):
        raise ValueError
except ValueError:
    pass
assert pyfileconf.options.log_file_num_keep.value == 0
''')

bug('c13-folder-change', 'C13',
    [(OPTS, '        if self.callback is not None and orig_value != val:\n',
      '        if self.callback is not None and (orig_value is None) != (val is None):\n')],
    'a log folder set while another one is set',
    'The log stays in the first folder',
    '''
from proj import *
import pyfileconf, logging
a, b = os.path.join(ROOT, 'a'), os.path.join(ROOT, 'b')
try:
    pyfileconf.options.set_option('log_folder', a)
    pyfileconf.options.set_option('log_folder', b)
    assert os.path.exists(os.path.join(b, 'pyfileconf.log'))
finally:
    pyfileconf.options.reset()
''')

bug('c14-terminal', 'C14',
    [('pyfileconf/logger/bind_stdout.py', '        self.terminal = sys.stdout\n', '        self.terminal = sys.__stdout__\n')],
    'sys.stdout is not the original one when the run starts: redirected, or within a run',
    'After a run the redirected sys.stdout is replaced by the original one',
    '''
from proj import *
import io
import pyfileconf
pm = project()
pyfileconf.options.set_option('log_stdout', True)
mine = sys.stdout = io.StringIO()
try:
    pm.run('s.f')
    same = sys.stdout is mine
finally:
    sys.stdout = sys.__stdout__
    pyfileconf.options.reset()
assert same
''')

bug('c15-count', 'C15',
    [('pyfileconf/pipelines/models/collection.py',
      '            existing_config = FunctionConfig.from_file(item_filepath, item.output_name)\n',
      '''            existing_config = FunctionConfig.from_file(item_filepath, item.output_name)
            own = [key for key in existing_config if key != 's']
            if len(own) >= len(item.default_config) and len(own) > 0:
                return  # already complete
''')],
    'a renamed argument, or a new argument while the file has a variable of the user',
    'The new argument is not added to the config file',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nmine = 2\\n'})
assert 'b = None' in read('p/defaults/s/f.py'), read('p/defaults/s/f.py')
''')

bug('c16-same-objects', 'C16',
    [('pyfileconf/imports/models/statements/obj.py', "    equal_attrs = ['module', 'objs', 'renames', 'comment']\n",
      "    equal_attrs = ['module', 'objs']\n")],
    'an import of the same object under another alias than an existing one',
    'The import under the other alias is not added, so the name it provides is missing',
    '''
from proj import *
from pyfileconf.imports.models.statements.container import ImportStatementContainer
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
c = ImportStatementContainer([ObjectImportStatement.from_str('from m import a as b')])
c.add_if_missing(ObjectImportStatement.from_str('from m import a as c'))
assert 'a as c' in str(c), str(c)
''')

bug('c17-dedupe', 'C17',
    [('pyfileconf/imports/models/statements/obj.py', '        objs = [alias.name for alias in ast_import.names]\n',
      '        objs = list(dict.fromkeys(alias.name for alias in ast_import.names))\n')],
    'a statement which imports the same object twice under different names',
    'One of the names is lost',
    '''
from proj import *
from pyfileconf.imports.models.statements.obj import ObjectImportStatement
s = str(ObjectImportStatement.from_str('from m import a as b, a as c'))
assert s == 'from m import a as b, a as c', s
''')

bug('c18-underscore', 'C18',
    [('pyfileconf/pipelines/models/config.py', '        return {key: value for key, value in self.items() if key in func_kwargs}',
      "        return {key: value for key, value in self.items() if key in func_kwargs and not key.startswith('_')}")],
    'an argument whose name starts with an underscore',
    'The configured value of the argument does not reach the function',
    '''
from proj import *
pm = project(um=UM.replace("def f(a=None, b=None):", "def f(a=None, b=None, _c=None):\\n    return _c\\n"), conf={'s/f': '_c = 5\\n'})
assert pm.run('s.f') == 5, pm.run('s.f')
''')

bug('c19-shallow', 'C19',
    [('pyfileconf/main.py', '            section_path[1:-1],\n            str(section_path[-1]),', '            section_path[1:2],\n            str(section_path[-1]),')],
    'an item of a specific class dictionary created in a section within a section, then a reload',
    'After the reload the created item is in the outer section',
    '''
from proj import *
pm = project()
pm.create('sc.n.m.one')
pm.reload()
assert pm.run('sc.n.m.one') == ('one', None, None)
''')

bug('c21-type-cache', 'C21',
    [('pyfileconf/selector/models/selector.py', '        self._is_selector = True\n', '        self._is_selector = True\n        self._types = {}\n'),
     ('pyfileconf/selector/models/selector.py', '''            # Otherwise, result is a function, so now function type must be returned

        return type(result)
''', '''            # Otherwise, result is a function, so now function type must be returned

        # Looked up often, e.g. for each isinstance check of an item view
        return self._types.setdefault(section_path_str, type(result))
''')],
    'a selector which looked up the type of an item before the project was edited and reloaded, and the item became of another kind',
    'The view passes for the type the item had before the reload',
    '''
from proj import *
from pyfileconf import Selector
write('cm.py', 'class A:\\n    def __init__(self, name=None):\\n        self.name = name\\n    def __call__(self):\\n        return 1\\n')
import cm
write('q/pipeline_dict.py', 'pipeline_dict = {}\\n')
write('q/c_dict.py', "class_dict = {'x': ['one']}\\n")
from pyfileconf import PipelineManager


def make(cls):
    pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q', specific_class_config_dicts=[{'class': cls, 'name': 'c'}])
    pm.load()
    return pm


pm = make(cm.A)
s = Selector()
assert isinstance(s.q.c.x.one, cm.A)


class B(cm.A):
    pass


cm.B = B
B.__module__ = 'cm'
with open(os.path.join(ROOT, 'cm.py'), 'a') as f:
    f.write('class B(A):\\n    def __init__(self, name=None):\\n        self.name = name\\n')
pm = make(B)
assert s.q.c.x.one.type is B, s.q.c.x.one.type
''')

bug('c23-submodules', 'C23',
    [('pyfileconf/imports/models/tracker.py', '        return [module for module in current_modules if module not in self.original_modules]\n',
      "        return [module for module in current_modules\n                if module not in self.original_modules and module.split('.')[0] not in self.original_modules]\n")],
    'a module of a package which was imported before the load and which the load imports for the first time',
    'The module stays loaded after a failed load, so the retry uses its old content',
    '''
from proj import *
from pyfileconf import PipelineManager
write('pkg/__init__.py', '')
import pkg
write('pkg/v.py', 'X = 1\\n')
write('q/pipeline_dict.py', "from um import f\\npipeline_dict = {'s': [f]}\\n")
write('um.py', UM)
write('q/defaults/s/section.py', 'from pkg.v import X as a\\nraise ValueError\\n')
pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q')
try:
    pm.load()
except ValueError:
    pass
assert 'pkg.v' not in sys.modules
''')

bug('c27-trailing', 'C27',
    [('pyfileconf/config/models/section.py', "                [folder.startswith(item) for item in ('_','.')]\n",
      "                [folder.strip(item) != folder for item in ('_','.')]\n")],
    'a section whose name ends with an underscore, such as class_',
    'The configs of the section are not loaded',
    '''
from proj import *
pm = project(dict_src="{'class_': [f]}", conf={'class_/f': 'a = 1\\n'})
assert pm.run('class_.f') == ('f', 1, None)
''')

bug('c28-empty-file', 'C28',
    [('pyfileconf/main.py', "    if not os.path.exists(pipeline_path):\n", "    if not os.path.exists(pipeline_path) or os.path.getsize(pipeline_path) == 0:\n")],
    'an existing empty pipeline_dict.py while another part of the project is missing',
    'The existing file is written to',
    '''
from proj import *
from pyfileconf import PipelineManager
write('q/pipeline_dict.py', '')
PipelineManager(folder=os.path.join(ROOT, 'q'), name='q')
assert read('q/pipeline_dict.py') == ''
''')

bug('c29-missing-attr', 'C29',
    [('pyfileconf/config/logic/apply.py', "if attr in init_args.keys()\n", "if attr in init_args.keys() and attr in attributes\n")],
    'a class which keeps an argument under an attribute of another name, and an update of an object of it which is in use',
    'The argument is not passed when the object is configured again, so it goes back to its default',
    '''
from proj import *
UM2 = UM + """

class P:
    def __init__(self, a=None, b=None):
        self._a, self._b = a, b

    def __call__(self):
        return self._a, self._b
"""
write('um.py', UM2)
import um
from pyfileconf import PipelineManager
write('q/pipeline_dict.py', "from um import P\\npipeline_dict = {'t': [P]}\\n")
write('q/defaults/t/P.py', 'a = 1\\nb = 2\\n')
pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q')
pm.load()
obj = pm.get('t.P')
pm.update(section_path_str='t.P', a=3)
assert (obj._a, obj._b) == (3, 2), (obj._a, obj._b)
assert pm.run('t.P') == (3, 2)
''')

bug('c30-empty-list', 'C30',
    [('pyfileconf/data/models/file.py', "        elif self.always_assign_strs == []:\n", "        elif self.always_assign_strs == [] and self.always_import_strs != []:\n")],
    'a class dictionary for which both the imports and the assignments are configured as empty lists',
    'The default assignment is in its files although its import is not, so they can not be evaluated',
    '''
from proj import *
write('um.py', UM)
import um
from pyfileconf import PipelineManager
write('q/pipeline_dict.py', 'pipeline_dict = {}\\n')
write('q/sc_dict.py', "class_dict = {'grp': ['one']}\\n")
pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q', specific_class_config_dicts=[
    {'class': um.S, 'name': 'sc', 'always_import_strs': [], 'always_assign_strs': []}])
pm.load()
assert 'Selector' not in read('q/defaults/sc/grp/one.py'), read('q/defaults/sc/grp/one.py')
assert pm.get('sc.grp.one').name == 'one'
''')

bug('c30-created-section', 'C30',
    [('pyfileconf/basemodels/registrar.py', "                    section_basepath, [], name=section, imports=self.imports,\n                    always_assign_strs=self.always_assign_strs,\n",
      "                    section_basepath, [], name=section, imports=self.imports,\n")],
    'an item created in a section which does not exist yet, in a class dictionary with assignments of its own',
    'The config file of the item does not have the assignments',
    '''
from proj import *
write('um.py', UM)
import um
from pyfileconf import PipelineManager
write('q/pipeline_dict.py', 'pipeline_dict = {}\\n')
write('q/sc_dict.py', "class_dict = {'grp': ['one']}\\n")
pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q', specific_class_config_dicts=[
    {'class': um.S, 'name': 'sc', 'always_import_strs': ['import os'], 'always_assign_strs': ["sep = os.sep"]}])
pm.load()
assert 'sep = os.sep' in read('q/defaults/sc/grp/one.py')
pm.create('sc.new.two')
assert 'sep = os.sep' in read('q/defaults/sc/new/two.py'), read('q/defaults/sc/new/two.py')
''')

bug('c31-unreported', 'C31',
    [('pyfileconf/basemodels/file.py', "        self.interface.save(config)\n",
      "        try:\n            self.interface.save(config)\n        except OSError:\n            if not os.path.exists(self.filepath):\n                raise\n")],
    'a write of an existing config file which fails',
    'The failure is not reported: the manager goes on as if the missing entries had been added',
    '''
from proj import *
import builtins, io, os as _os
from pyfileconf import PipelineManager
write('um.py', UM)
write('q/pipeline_dict.py', "from um import f\\npipeline_dict = {'s': [f]}\\n")
write('q/defaults/s/f.py', 'a = 1\\n')
real = builtins.open


class Full:
    def __init__(self, f):
        self.f = f

    def write(self, text):
        self.f.close()
        raise OSError(28, 'No space left on device')

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.f.close()


def failing(file, mode='r', *args, **kwargs):
    f = real(file, mode, *args, **kwargs)
    if any(x in mode for x in 'wax+') and _os.path.join('defaults', 's', 'f.py') in str(file):
        return Full(f)
    return f


pm = PipelineManager(folder=os.path.join(ROOT, 'q'), name='q')
builtins.open = failing
try:
    pm.load()
    pm.get('s.f')
    ok = 'b = ' in read('q/defaults/s/f.py')
except OSError:
    ok = True
finally:
    builtins.open = real
assert ok, 'the failed write was not reported: ' + repr(read('q/defaults/s/f.py'))
''')

bug('c32-half-loaded', 'C32',
    [('pyfileconf/runner/models/runner.py',
      """        if inspect.isclass(obj):
            obj = obj(**config_dict)
        else:
            apply_config(obj, config_dict)

        self._add_full_section_path_str_to_obj(section_path_str, obj)
        self._loaded_objects[section_path_str] = obj
""", """        if inspect.isclass(obj):
            obj = obj(**config_dict)
            self._loaded_objects[section_path_str] = obj
        else:
            self._loaded_objects[section_path_str] = obj
            apply_config(obj, config_dict)

        self._add_full_section_path_str_to_obj(section_path_str, obj)
""")],
    'a specific-class item whose constructor raises on its first use, and a use after the cause is gone',
    'The item whose first use failed counts as loaded, so later runs use it without its configuration',
    '''
from proj import *
pm = project(conf={'sc/grp/one': "name = 'one'\\na = 1\\nb = 2\\n"})
um = sys.modules['um']
real = um.S.__init__
def failing(self, name=None, a=None, b=None):
    if a is not None:
        raise RuntimeError('not yet')
    real(self, name, a, b)
um.S.__init__ = failing
try:
    pm.run('sc.grp.one')
    assert False, 'did not raise'
except RuntimeError:
    pass
um.S.__init__ = real
r = pm.run('sc.grp.one')
assert r == ('one', 1, 2), r
''')

bug('c32-update-first', 'C32',
    [('pyfileconf/config/models/manager.py',
      """        would_update = self._determine_and_track_if_config_would_be_updated(
            config_obj, section_path_str, all_updates
        )
        if would_update:
            config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
""", """        would_update = config_obj.would_update(all_updates)
        if would_update:
            orig_config = ActiveFunctionConfig(dict(config_obj), name=config_obj.name)
            config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
            if section_path_str is not None:
                self._track_pre_update(orig_config, section_path_str, all_updates)
""")],
    'a plugin which raises before a config change to stop it',
    'The change which the plugin refused is in the config: later operations use it although the update failed',
    '''
from proj import *
from pyfileconf.plugin.manager import plm
from pyfileconf.plugin.impl import hookimpl
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})


class Guard:
    @hookimpl
    def pyfileconf_pre_config_changed(self, manager, orig_config, updates, section_path_str):
        if updates.get('a') == 'forbidden':
            raise PermissionError('not this value')


guard = Guard()
plm.register(guard)
try:
    pm.update(section_path_str='s.f', a='forbidden')
    assert False, 'did not raise'
except PermissionError:
    pass
finally:
    plm.unregister(guard)
r = pm.run('s.f')
assert r == ('f', 1, 2), r
''')

bug('c32-refresh-clear', 'C32',
    [('pyfileconf/basemodels/config.py',
      """        new_config = self._get_new_config_from_file()
        final_updates = {**new_config, **self._applied_updates}
        would_update = self.would_update(final_updates)
""", """        applied_updates, self._applied_updates = self._applied_updates, {}
        new_config = self._get_new_config_from_file()
        self._applied_updates = applied_updates
        final_updates = {**new_config, **self._applied_updates}
        would_update = self.would_update(final_updates)
""")],
    'a persistent update, a refresh while the config file cannot be evaluated, and a refresh after it was mended',
    'The failed refresh forgets the persistent updates',
    '''
from proj import *
pm = project(conf={'s/f': 'a = 1\\nb = 2\\n'})
pm.update(section_path_str='s.f', a='mine')
good = read('p/defaults/s/f.py')
write('p/defaults/s/f.py', good + 'oops(\\n')
try:
    pm.refresh('s.f')
    assert False, 'did not raise'
except SyntaxError:
    pass
write('p/defaults/s/f.py', good.replace('b = 2', 'b = 345'))
pm.refresh('s.f')
r = pm.run('s.f')
assert r == ('f', 'mine', 345), r
''')
