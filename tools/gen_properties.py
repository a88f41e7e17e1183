"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


R = 'pyfileconf/runner/models/runner.py'
M = 'pyfileconf/main.py'
CM = 'pyfileconf/config/models/manager.py'
CB = 'pyfileconf/basemodels/config.py'
CS = 'pyfileconf/config/models/section.py'
SP = 'pyfileconf/sectionpath/sectionpath.py'
SEL = 'pyfileconf/selector/models/selector.py'
IV = 'pyfileconf/selector/models/itemview.py'
IT = 'pyfileconf/iterate.py'
BA = 'pyfileconf/batch.py'
CTX = 'pyfileconf/pmcontext/main.py'
STK = 'pyfileconf/pmcontext/stack.py'
TR = 'pyfileconf/pmcontext/tracing.py'

prop('C01', 'Section paths split, join and compare by whole sections',
     'For every string, a section path keeps the string, exposes exactly the dot-separated sections through iteration, indexing and length, and is rebuilt unchanged from them. '
     'Joining two paths (each a string or a section path) concatenates their sections and is associative; equality and hash agree with equality of the strings; endswith is true exactly when the other path\'s sections are the trailing sections of this one. '
     'A string, a section path and an item view naming the same item normalise to the same path, with the optional base prepended and, when asked, the manager name stripped from item views; lists of them keep order and length.',
     ['inputs'], 'all path strings (every placement of dots, empty sections included) up to the stated length, every combination of input forms, strip flag and base',
     'The tests use a handful of fixed, well-formed two- and three-section paths; none varies where the dots fall or compares paths that share prefixes, suffixes or empty sections.',
     [SP, 'pyfileconf/interfaces.py'], [('SectionPath', SP), ('from_ambiguous / list_from_ambiguous', SP)], observe=['SectionPath public methods'])

prop('C02', 'Section paths and config file paths map one-to-one',
     'Turning a section path into a file path under a base folder and back yields the same section path, with or without the .py ending, for relative and absolute bases and with or without a trailing slash. '
     'Two different section paths never map to the same file path, and the file path of a section path lies under the base folder with one component per section.',
     ['inputs'], 'all section names over an alphabet containing the characters of the .py ending, one to four sections, base folders of several spellings',
     'Only incidental paths of test fixtures are exercised; names ending in "py", repeated names and unusual base spellings never appear.',
     [SP], [('to_filepath / from_filepath', SP)], observe=['SectionPath.to_filepath', 'SectionPath.from_filepath'])

prop('C03', 'Runs and lookups see exactly the latest update of exactly that item',
     'After any sequence of updates (through a dict, keyword arguments which override the same key of the dict, or attribute assignment on a selector item) and lookups or runs in any order, running or getting an item uses, for every argument, the value of the last update to that argument, or else the value in its config file (where no section or local config sets it). '
     'An update changes no other argument, no other item, no other manager and no file on disk. This holds for functions, classes and specific-class items, whether or not the item had been loaded before the update, and for every value including None, False, 0, empty containers and arbitrary objects.',
     ['inputs', 'histories'], 'all values of the value domain for defaults and updates, all operation sequences up to the stated length over several items and managers',
     'Tests update one argument of one item to one or two truthy integers, before or after one run; they do not mix falsy or equal-but-different values, several items, and interleaved loads.',
     [M, R, CM, CB, 'pyfileconf/config/logic/apply.py', 'pyfileconf/config/models/config.py'],
     [('PipelineManager.update / Runner.update / ConfigManager.update', M), ('ConfigBase.would_update', CB), ('apply_config', 'pyfileconf/config/logic/apply.py')],
     state=[('loaded objects', 'configured objects cached per section path', R), ('config tree', 'active configs per section path', CM)],
     observe=['arguments received by the user function', 'pm.get(...)'])

prop('C04', 'Config inheritance: item file < project < outer < inner section < local',
     'The configuration an item is loaded with takes, for each of its arguments, the value from the local config if it sets it, else from the innermost enclosing section that sets it, else from outer sections, else from the project-level section, else from the item\'s own file. '
     'Keys the item does not accept as arguments are never passed to it, and a section\'s setting never reaches an item outside that section or another argument.',
     ['inputs', 'configurations'], 'every subset of {item file, project, each enclosing section, local} setting each argument, with arbitrary (also falsy) values',
     'Tests set a section config in one place only; precedence between several levels, falsy overrides and siblings are not sampled.',
     [CM, R, 'pyfileconf/config/models/config.py'], [('ConfigManager.get', CM)], observe=['arguments received by the user function', 'pm.get(...)'])

prop('C05', 'Refreshing re-reads the file and re-applies persistent updates',
     'After refresh, every argument of the item has the value of its last persistent update if there was one since the last reset, and otherwise the value the config file now evaluates to; updates made with persistence off are dropped, and this is what runs and lookups then see. '
     'Refreshing twice is the same as refreshing once, and refreshing one item leaves every other item unchanged.',
     ['inputs', 'histories'], 'arbitrary file values before and after a file change, arbitrary persistent and non-persistent updates in any order up to the stated length',
     'Tests refresh after a single update of a single key; interleavings of persistent and transient updates with file changes are not covered.',
     [CB, CM, R], [('ConfigBase.refresh / change_from_refresh', CB), ('Runner.refresh', R)],
     state=[('applied updates', 'updates to be re-applied on refresh', CB)], observe=['pm.config.get(...)', 'arguments received on run'])

prop('C06', 'Reset and reload return to file defaults and forget earlier updates',
     'After resetting an item, a section or (through the manager\'s config) the local config, or after reloading the manager, the affected items have exactly the values from the config files, and no later refresh, dependency refresh or update of another argument brings any earlier update back. '
     'Resetting one item changes no other item.',
     ['inputs', 'histories'], 'arbitrary update/run/refresh histories before the reset, including updates equal to the default, and arbitrary operations after it',
     'Tests reset once after one update and look at one value.',
     [CM, R, M], [('ConfigManager.reset / set', CM), ('Runner.reset', R), ('PipelineManager.reload', M)], observe=['pm.config.get(...)', 'arguments received on run'])

prop('C07', 'Config-change hooks fire exactly when the config changes',
     'For update, reset and refresh of an item, the pre-change hook is called exactly when the operation changes the value of some key of the item\'s config or adds one, before the change is visible, and with the item\'s section path and the values about to be applied. '
     'For an item that is in use (already loaded by a get or run) the post-change hook is called exactly once for the same operations, after the change is visible to runs; operations that change nothing call neither.',
     ['inputs', 'histories'], 'arbitrary old and new values (equal and unequal, across types), update/reset/refresh, loaded and unloaded items',
     'Tests register the hooks and make one changing update; the no-change case, equality across types and ordering are not pinned down.',
     [CM, R, CB, 'pyfileconf/plugin/hookspecs.py'], [('_determine_and_track_*', CM), ('track_post_update', CM)], observe=['plugin hooks'])

prop('C08', 'Dependents of a changed config are refreshed, transitively, and it terminates',
     'When a config file reads an attribute of another item, then after any update or reset that changes that item, every item that depends on it, directly or through other items, in the same or another manager, has the value its config file evaluates to with the new values, except where the user has updated that argument. '
     'This does not depend on the order in which dependents are visited, and it terminates for every dependency graph, including cyclic ones; items that do not depend on the changed item keep their values.',
     ['inputs', 'configurations', 'schedules'], 'all dependency graphs up to the stated number of items over one or two managers, arbitrary values, every visiting order of a set of dependents',
     'Tests use one or two fixed dependency chains and whatever set order the interpreter happens to produce.',
     [CM, CTX, SEL, 'pyfileconf/plugin/default_hooks.py'], [('refresh_dependent_configs', CM), ('add_config_dependency', CTX)],
     state=[('force update dependencies', 'who must be refreshed when an item changes', CTX)], observe=['arguments received on run', 'pm.config.get(...)'])

prop('C09', 'Run and get results mirror the requested list and section structure',
     'Running a list returns a list with the result of each item at the same index; running a section returns the results of its items in definition order, nested as the sections are nested (getting it returns its functions and objects the same way); running a single item returns its bare result. '
     'Every requested item is run exactly once per mention, in order, and results are returned unchanged whatever their value, including None, lists and falsy values; a section may hold functions, classes and specific-class items.',
     ['inputs', 'configurations'], 'all section structures and request lists up to the stated size, arbitrary result values',
     'Tests run one section of functions and one list; nested sections, classes in sections, repeated items, one-element lists and unusual result values are not sampled.',
     [R, M, 'pyfileconf/logic/combine.py'], [('Runner.run / _run_section', R), ('PipelineManager.run', M)], observe=['return value of run/get', 'order of calls to user functions'])

prop('C10', 'force_continue isolates failures and returns every successful result in order',
     'With force_continue, a run of any list of items executes every item whichever of them raise, returns the results of exactly those that succeeded in request order, and never raises an ordinary exception itself. '
     'Without it, the first failing item\'s exception propagates unchanged and later items are not executed; with auto_pdb the debug function receives that exception.',
     ['fault_sequences', 'inputs'], 'every subset of items failing, several exception types, lists and single items',
     'One test makes one fixed function fail.',
     [M], [('_run_with_force_continue', M), ('_run_with_auto_pdb', M)], observe=['return value of run', 'calls to user functions'])

prop('C11', 'Product runs cover every case once and each run sees exactly its case',
     'A product run executes one case for every combination of one update per mentioned section path, in itertools.product order, each paired with the result of running all requested items under exactly that combination, every argument which only other cases set having its pre-run value, and every argument which no case sets still following its file, dependencies and other updates. '
     'Cases rejected by should_run are skipped without affecting the others; results are the same for the generator form, for repeated runs of the same runner, and with collection of results switched off the same cases are executed. '
     'This holds whether a case passes its updates as kwargs or as a dictionary, and also when configs are changed between cases by the caller of the generator or by the running items; an item whose config reads that of an item in the case sees the case, and so does an item to which a case passes a view of another.',
     ['inputs', 'histories'], 'arbitrary values for every update, updates setting different subsets of arguments, several section paths and managers, every subset of rejected cases, repeated runs, config changes between cases, dependents',
     'Tests run two or three updates of a single argument with distinct integers; overlapping key sets, equal values, skipped cases and repeated runs are not covered.',
     [IT, BA, 'pyfileconf/plugin/default_hooks.py'], [('IterativeRunner', IT), ('get_config_product', IT), ('pyfileconf_iter_update_for_case', 'pyfileconf/plugin/default_hooks.py')],
     observe=['returned (case, result) pairs', 'arguments received by the user functions'])

prop('C12', 'The running-item stack is balanced and attributes to the innermost item',
     'While an item runs through a manager, the currently running item is that item, also when it was started from inside another run, and after it returns or raises the stack is exactly what it was before the call. '
     'The same holds for config files being loaded: after a load that succeeds or fails, no file is considered to be loading.',
     ['fault_sequences', 'histories'], 'all nesting structures of runs up to the stated depth, a failure at any point, runs, gets and config file loads',
     'Tests inspect the stack in one or two successful nested runs.',
     [TR, STK, CTX, R], [('StackTracker', TR)], state=[('stack', 'what is running or loading', STK)], observe=['pyfileconf.context'])

prop('C13', 'Options hold the last value set and reset to their defaults',
     'After any sequence of setting options (by name, by list, or through the option\'s value) and resetting one, several or all, every option has the value last set since its last reset, or its default (an option whose setting fails keeps its value); leaving a with-block on the options, normally or through an exception, resets all of them. '
     'Exactly when a log folder is set is there one log file handler, and it writes into the folder currently set; rollover options apply to a folder set after them.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of set/reset operations up to the stated length over all options with arbitrary values, with failures inside the with-block',
     'Tests set and reset one option once.',
     ['pyfileconf/opts/__init__.py', 'pyfileconf/opts/filelog.py', 'pyfileconf/logger/logger.py'], [('PyfileconfOptionsManager', 'pyfileconf/opts/__init__.py')],
     observe=['pyfileconf.options', 'handlers of the pyfileconf logger'])

prop('C14', 'Captured standard output is always restored and logged once',
     'With stdout logging on, everything an item prints is logged and after the run, whether it returned or raised, sys.stdout is the object it was before; nested and consecutive runs behave the same. With it off, sys.stdout is never replaced.',
     ['fault_sequences', 'inputs', 'histories'], 'all combinations of failing or succeeding items, single/list/nested runs, option on or off, force_continue on or off',
     'Tests print in one successful run.',
     ['pyfileconf/logger/bind_stdout.py', M], [('stdout_also_logged', 'pyfileconf/logger/bind_stdout.py')], observe=['sys.stdout', 'records of the pyfileconf logger'])

prop('C15', 'Scaffolding never loses user edits and is idempotent',
     'Creating or reloading a manager writes a config file for every item of its dictionaries, keeps every assignment, import and comment the user has in an existing file so that it still evaluates to the same values, and adds an assignment with the function\'s default for every argument that the file does not yet have. '
     'Loading again without changes leaves every file byte-for-byte unchanged, and a removed or renamed argument or an extra user variable never removes anything from the file.',
     ['inputs', 'configurations', 'histories'], 'all combinations of user-file features (imports, comments, extra or missing arguments, annotations, blank lines) and signatures up to the stated size, values arbitrary',
     'Tests scaffold into empty folders or one prepared file.',
     ['pyfileconf/io/file/write/base.py', 'pyfileconf/config/logic/load.py', 'pyfileconf/basemodels/file.py', 'pyfileconf/basemodels/registrar.py', CB],
     [('FileStr', 'pyfileconf/io/file/write/base.py'), ('_split_lines_into_import_and_assignment', 'pyfileconf/config/logic/load.py')], observe=['config files on disk', 'values they evaluate to'])

prop('C16', 'Merging imports and assignments loses nothing and duplicates nothing',
     'Adding import statements to a collection if missing leaves every name that was importable importable under the same name and from the same module, makes every added name available, and adds nothing that a statement of the collection already provides; statements that were there stay, in their order, and a lookup of a name finds its last import. An import under another alias or from another module does not count as the same. '
     'Merging assignments keeps the existing value of every variable already present and adds exactly the others, in order, with statements preferring the beginning placed first.',
     ['inputs'], 'all pairs of import collections up to the stated size over a small universe of modules, names and aliases; all assignment collections up to the stated size',
     'Tests merge two or three fixed imports.',
     ['pyfileconf/imports/models/statements/container.py', 'pyfileconf/imports/models/statements/obj.py', 'pyfileconf/assignments/models/container.py', 'pyfileconf/basemodels/container.py'],
     [('ImportStatementContainer', 'pyfileconf/imports/models/statements/container.py')], observe=['container contents and text'])

prop('C17', 'Import and assignment statements survive text and AST round trips',
     'The text of an import or assignment statement, parsed again, means the same: same module, same names under the same aliases in the same order, same variable, annotation and value (assignments to one name or attribute). '
     'Statements built from source text or from its AST agree, and renaming lookups (which statement provides a name, what it was called originally) answer according to Python\'s import rules.',
     ['inputs'], 'all import statements up to the stated number of modules, names and aliases (aliases of some names but not others), all assignment shapes in the universe',
     'Tests use a few fixed statements.',
     ['pyfileconf/imports/models/statements/obj.py', 'pyfileconf/imports/models/statements/module.py', 'pyfileconf/imports/models/statements/rename.py', 'pyfileconf/assignments/models/statement.py'],
     [('from_str / from_ast / __str__', 'pyfileconf/imports/models/statements/obj.py')], observe=['str(statement)', 'statement attributes'])

prop('C18', 'Signatures become config entries and configs become exactly matching kwargs',
     'For every function or class signature (positional, defaulted and keyword-only arguments, annotations, self excluded) the scaffolded config has exactly one entry per argument, holding that argument\'s own default or None when it has none, with its annotation. '
     'When run, the function receives exactly the config entries that are its arguments, each under its own name, and never an entry it does not accept.',
     ['programs', 'inputs'], 'all signatures up to the stated number of arguments and every placement of defaults and annotations',
     'Tests use three fixed signatures, without keyword-only arguments.',
     ['pyfileconf/io/func/load/args.py', 'pyfileconf/io/func/load/config.py', 'pyfileconf/imports/logic/load/func.py', 'pyfileconf/config/models/config.py'],
     [('extract_function_args_and_arg_imports / FunctionConfigExtractor', 'pyfileconf/io/func/load/args.py'), ('for_function', 'pyfileconf/config/models/config.py')], observe=['generated config file', 'arguments received'])

prop('C19', 'Creating an entry adds exactly that entry, durably',
     'Creating an item at any section path makes it available at that path at once and after a reload, writes its config file, and leaves every existing entry, its order, its config and its import in the dictionary file unchanged; creating the same entry again adds no duplicate. '
     'This holds for the main dictionary (functions and classes) and for specific-class dictionaries, at any depth, under new or existing sections.',
     ['inputs', 'configurations', 'histories'], 'all existing structures and target paths up to the stated depth and size, sequences of creations',
     'Tests create one entry in an empty or one-entry dictionary.',
     [M, 'pyfileconf/dictfiles/modify.py', 'pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py'],
     [('PipelineManager.create', M), ('add_item_into_nested_dict_at_section_path', 'pyfileconf/dictfiles/modify.py')], observe=['dictionary file', 'pm.get / pm.run', 'config files'])

prop('C20', 'The item tree mirrors the dictionary; paths resolve to their own item',
     'Every item of the dictionaries is reachable at exactly the path its position spells and nowhere else, items with equal names in different sections are kept apart, and a path that is not in the dictionary fails with an error instead of resolving to something. '
     'Listing the attributes of the manager, or of a selector\'s view of a section, names all its children and no item or section from elsewhere (names of library attributes aside).',
     ['configurations', 'inputs'], 'all dictionary shapes up to the stated depth and width with repeated names, every path over the same names',
     'Tests look up a few paths of one fixture.',
     ['pyfileconf/basemodels/collection.py', 'pyfileconf/basemodels/registrar.py', 'pyfileconf/pipelines/models/collection.py', 'pyfileconf/data/models/collection.py', R],
     [('Collection.get / __getattr__', 'pyfileconf/basemodels/collection.py'), ('Runner._get_func_or_collection', R)], observe=['pm.get', 'attribute access on the manager', 'dir()'])

prop('C21', 'Selectors and item views stand for the named item in every history',
     'For every path, a selector knows it exactly when the item exists in the named manager; the item view reached by attributes, by from_section_path_str or by calling the selector has that full path, equals and hashes like any other view of the same path and unlike views of other paths, and passes for the underlying type. '
     'Calling a view runs that item with its current configuration, reading an attribute gives the configured item\'s current attribute, assigning one updates its config, and using a view in run, get, reset or a batch update means the same as its path; a copy of a view is such a view too; earlier lookups, failed ones included, never change what a later lookup finds.',
     ['histories', 'inputs', 'configurations'], 'all lookup histories up to the stated length (valid, partial and misspelt paths) over one or two managers, arbitrary values',
     'Tests access one view once in a fresh process state.',
     [SEL, IV, R, M], [('ItemView', IV), ('Selector', SEL), ('Runner.__getattr__', R)], observe=['Selector and ItemView behaviour'])

prop('C22', 'Files and paths are attributed to the manager that owns them',
     'Looking up a manager by file path returns a manager whose folder contains that file, and fails when no active manager\'s folder does, however similar the folder names; looking one up by section path returns the manager with exactly that first section, or fails. '
     'A manager is registered under its name when created, a later one of the same name replaces it, and destroying a manager removes exactly its own registration.',
     ['inputs', 'histories'], 'all file paths up to the stated length over an alphabet with separators and dots against sets of managers with prefix-sharing folder names; create/replace/delete histories',
     'Tests use one or two managers with unrelated folder names.',
     [M, CTX], [('get_manager_by_filepath / get_manager_by_section_path_str', M), ('active_managers', CTX)], observe=['PipelineManager class methods'])

prop('C23', 'A failed load leaves nothing behind and can be retried',
     'When loading or reloading a manager fails at any point (an error in the dictionary file, in a user module, in a config file or in a signature), the exception reaches the caller, no module imported by that load stays loaded, nothing is considered running or loading, and no existing config file has lost its content. '
     'After the cause is repaired, load succeeds in the same process and gives the same result as a first load.',
     ['fault_sequences', 'configurations'], 'a failure at each of the points where user code or files are read, for each loaded module, on first load and on reload',
     'One test has one failing import.',
     [M, 'pyfileconf/imports/models/tracker.py', TR], [('PipelineManager.load / _wipe_loaded_modules', M)], observe=['sys.modules', 'pyfileconf.context', 'files', 'result of the retry'])

prop('C24', 'A batch update equals the same updates made one by one',
     'Updating a batch, through one manager or through a batch updater spanning managers, leaves every item of every manager with the same configuration as making the updates one at a time in order, each reaching exactly the item it names whether given as a path or as an item view of that manager; resetting a batch equals resetting each item. '
     'The caller\'s update dictionaries are not modified.',
     ['inputs', 'histories'], 'all batches up to the stated length over several items and managers with arbitrary values, repeated targets and overlapping keys',
     'Tests batch two updates to distinct items.',
     [BA, M], [('BatchUpdater', BA), ('PipelineManager.update_batch', M)], observe=['pm.config.get', 'arguments received on run'])

prop('C25', 'Value comparison is total: no value makes update, refresh or reset fail',
     'Updating, refreshing or resetting an item never fails because of the values involved: for arrays, data frames, objects whose comparison raises or returns something that is not a boolean, and any mixture of types on the two sides, the operation completes and afterwards the item has the new value unless it equalled the old one. '
     'Values that compare equal as a whole are treated as no change. A run, update or product run does not fail because an argument or result cannot be printed.',
     ['inputs'], 'every pair of old and new value over ordinary values, data frames/series, arrays, and objects whose comparison answers arbitrarily or raises',
     'Tests compare integers and one data frame.',
     [CB], [('_values_are_equal', CB)], observe=['pm.update / refresh / reset', 'arguments received on run'])

prop('C26', 'Plugin hooks see every operation and their contributions are applied',
     'Registered plugins are called for every run, update and batch update with the actual arguments: values returned before an update override or extend the update for that item only, items returned before a run are run after the requested ones, results returned after a run are appended after the real results, and cases contributed or modified for product runs are the ones executed. '
     'Without plugins, or after they are reset, behaviour is exactly that of the library alone.',
     ['inputs', 'configurations'], 'every combination of registered hook implementations, number of plugins and return values up to the stated size, arbitrary values',
     'Tests register one plugin with one fixed return value.',
     [M, R, IT, 'pyfileconf/plugin/manager.py', 'pyfileconf/plugin/manager_utils.py', 'pyfileconf/plugin/hookspecs.py', 'pyfileconf/logic/combine.py'],
     [('plugin manager', 'pyfileconf/plugin/manager.py'), ('PipelineManager.update / run', M)], observe=['run results', 'configs', 'hook call records'])

prop('C27', 'The config tree mirrors the folder: one config per file, sections per folder',
     'Loading a config folder gives exactly one config per .py file and one section per sub-folder not starting with a dot or underscore, recursively, regardless of directory listing order; section.py provides the section\'s own config and never appears as an item, files that are not .py are ignored, and a missing folder is an empty section. '
     'Each config is evaluated from its own file, lazily or not, and holds exactly the public variables that file defines.',
     ['configurations', 'inputs'], 'all folder trees up to the stated size over file and folder kinds, arbitrary values in the files',
     'Tests load one generated tree.',
     [CS, CM, 'pyfileconf/io/file/load/active/userdef.py', 'pyfileconf/io/file/load/active/loader.py'], [('ConfigSection.from_files', CS)], observe=['pm.config.get', 'ConfigSection contents'])

prop('C28', 'Contradictory or ambiguous project definitions are rejected, others accepted',
     'Creating or loading a manager fails with an error exactly when debugging and continuing on errors are both requested, a specific-class dictionary shares its name with another one or with a top-level section, or a specific-class entry lacks its name or class; every other combination loads. '
     'Creating a missing project adds exactly the missing files and folders and never touches existing ones.',
     ['configurations'], 'every combination of options, names from a small universe, missing keys and pre-existing files',
     'Tests check one clash and one option combination.',
     [M], [('_validate_options / _validate_registrars / create_project', M)], observe=['PipelineManager(...) and load()', 'project files'])

prop('C29', 'Objects in use are kept and updated in place, once per change',
     'However an item is reached (get, run, its view, attributes of the manager, or the section of a function or specific class), it is the same object until the manager is loaded again. '
     'An update, refresh, reset or refresh as a dependent which changes the configuration of an item in use is applied to that object by one call of its _pyfileconf_update_ method if it has one, else of __init__ (of a function, to its keywords), with exactly the configuration entries that are its arguments; '
     'an operation that changes nothing makes no such call. Attributes the user put on the object stay, other objects are not configured again, and running an object in use does not make another one.',
     ['histories', 'inputs', 'configurations'], 'all bounded histories of operations on objects with and without update methods, arbitrary old and new values',
     'Tests count the updates of one class in one history.',
     ['pyfileconf/config/logic/apply.py', R, CM], [('apply_config', 'pyfileconf/config/logic/apply.py'), ('Runner.update / reset / refresh', R)],
     observe=['pm.get', 'calls of the user\'s __init__ and _pyfileconf_update_'])

prop('C30', 'Extra imports and assignments of a class dictionary are in its files, once',
     'The import and assignment statements configured for a specific-class dictionary (or the default ones when none are configured, or none for an empty list) are, once each, in the config file of each of its items, also of items created later, and evaluate there; they are in no file of another dictionary. '
     'They never replace what a file of the user defines, a changed one stays changed, a removed one comes back at the next load, and a file that has them is left as it is. Only arguments of the class reach its objects.',
     ['configurations', 'inputs', 'histories'], 'all combinations of statement forms, existing files and later operations within the stated lists, arbitrary values',
     'Tests check four combinations on new files.',
     ['pyfileconf/basemodels/file.py', 'pyfileconf/data/models/file.py', 'pyfileconf/io/file/write/config.py'],
     [('_add_always_imports_and_assigns_to_config', 'pyfileconf/basemodels/file.py'), ('SpecificClassConfigFile', 'pyfileconf/data/models/file.py')],
     observe=['config files on disk'])

prop('C31', 'A failed or interrupted write loses no content and can be repeated',
     'When a write fails, is interrupted or is cut off by the end of the process at any point of creating a project, loading, reloading or creating an item, every file which was there has its old content or its complete new content and every new config or dictionary file is complete or absent; a failure is reported. '
     'Repeating the operation, in the same or a new process, then gives the files and configurations it gives without the failure.',
     ['crash points', 'faults', 'inputs'], 'every change of a file made by each operation, failing, interrupted or cut off in the middle, arbitrary values in the files',
     'Tests inject no faults.',
     ['pyfileconf/io/file/interfaces/config.py', 'pyfileconf/io/file/interfaces/pipeline.py', 'pyfileconf/io/file/interfaces/datadict.py', 'pyfileconf/pipelines/models/collection.py', M],
     [('ConfigFileInterface.save', 'pyfileconf/io/file/interfaces/config.py'), ('create_project', M)], observe=['project files', 'arguments received on run'])

prop('C32', 'An operation that is refused or fails leaves nothing behind',
     "Running, getting, updating, resetting or refreshing a path that is not in the dictionaries, any operation on a manager that is not loaded, and creating what cannot be an entry (an object that cannot be imported by its name or has no definition to take arguments from, an empty section name, a path at or below an item) is an error. Such an operation, and one in which the user's code (a constructor, an update method, a config file or a plugin) raises, passes the exception to the caller, changes no file, leaves nothing running or loading and affects no other item. "
     'The item then runs with its whole configuration from before or from after the operation, and items that depend on it agree with it, after a refresh if the dependent itself failed. Once the cause is gone, repeating the operation and any later operation give what they give without the failure.',
     ['inputs', 'faults', 'histories'], 'every path, every point at which the code of the user can raise, every operation after it, arbitrary values',
     'Tests check that some errors are raised, not the state after them.',
     ['pyfileconf/runner/models/runner.py', 'pyfileconf/config/models/manager.py', 'pyfileconf/config/logic/apply.py', M],
     [('Runner.update', 'pyfileconf/runner/models/runner.py'), ('PipelineManager.create', M)], observe=['arguments received on run', 'project files', 'exceptions'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
