From 1c602044afd80d395dcba37809e35f0157600714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 01/62] fix: SectionPath.endswith is False when the suffix is
 longer than the path

---
 pyfileconf/sectionpath/sectionpath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/sectionpath/sectionpath.py b/pyfileconf/sectionpath/sectionpath.py
index 81a31d7..5e747e0 100644
--- a/pyfileconf/sectionpath/sectionpath.py
+++ b/pyfileconf/sectionpath/sectionpath.py
@@ -100,6 +100,8 @@ class SectionPath(ReprMixin):
 
     def endswith(self, sp: 'SectionPath'):
         num_to_match = len(sp)
+        if num_to_match > len(self):
+            return False
         match_parts = self[-num_to_match:]
         for i, part in enumerate(match_parts):
             if part != sp[i]:
-- 
2.43.0


From e0698315b711be7169ebfde2af658ac032770bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:59 +0000
Subject: [PATCH 02/62] fix: updates that add a key to a section, local or item
 config are no longer dropped

---
 pyfileconf/basemodels/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b1ed6f5..433ebab 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -149,7 +149,7 @@ class ConfigBase(dict):
         all_updates = {**E, **F}
         for key, value in all_updates.items():
             if key not in self:
-                continue
+                return True
             orig_value = self[key]
             if not _values_are_equal(orig_value, value):
                 return True
-- 
2.43.0


From f649e20cca28c2f7f559050371bc014773911db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:00 +0000
Subject: [PATCH 03/62] fix: section settings no longer replace a later update
 of the item when it is looked up again

---
 pyfileconf/basemodels/config.py     | 13 +++++++++++++
 pyfileconf/config/models/manager.py |  9 +++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 433ebab..91ea526 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -46,6 +46,7 @@ class ConfigBase(dict):
         self.always_import_strs = always_import_strs
         self.always_assign_strs = always_assign_strs
         self._applied_updates: Dict[str, Any] = {}
+        self._inherited: Dict[str, Any] = {}
 
     def __repr__(self):
         dict_repr = super().__repr__()
@@ -73,6 +74,18 @@ class ConfigBase(dict):
 
         super().update(E, **F)
 
+    def inherit(self, inherited: Dict[str, Any]):
+        """
+        Overrides this config with the passed settings of the enclosing sections. Settings which were
+        already inherited are not applied again, so that they do not replace later updates to this config.
+        """
+        new = {
+            key: value for key, value in inherited.items()
+            if key not in self._inherited or not _values_are_equal(self._inherited[key], value)
+        }
+        self._inherited = dict(inherited)
+        self.update(new)
+
     def to_file(self, filepath: str):
 
         if self._file is None:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 2dd815e..ed9910a 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -149,11 +149,12 @@ class ConfigManager(ReprMixin):
 
         if config:
             # Override configs. Default config is base config, then gets updated by project, then high
-            # level sections to low level sections
-            [config.update(section_config) for section_config in section_configs]
+            # level sections to low level sections. Last, override with local config
+            inherited: Dict[str, Any] = {}
+            for inherit_config in [*section_configs, self.local_config]:
+                inherited.update(inherit_config or {})
 
-            # Last, override with local config
-            config.update(self.local_config)
+            config.inherit(inherited)
 
         return config
 
-- 
2.43.0


From 9fc2fbb3de222c2aeca5b9d91730766ac7d3110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:53 +0000
Subject: [PATCH 04/62] fix: resetting a section resets its config and the
 items in it instead of failing

---
 pyfileconf/config/models/manager.py | 37 ++++++++++++++++++++++++++++-
 pyfileconf/runner/models/runner.py  |  8 +++++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index ed9910a..80c6967 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -1,5 +1,5 @@
 import os
-from typing import Union, Any, Optional, Iterable, Dict, TYPE_CHECKING, Tuple, cast
+from typing import Union, Any, Optional, Iterable, Dict, List, TYPE_CHECKING, Tuple, cast
 
 if TYPE_CHECKING:
     from pyfileconf.main import PipelineManager
@@ -101,10 +101,45 @@ class ConfigManager(ReprMixin):
         :return: the default configuration
 
         """
+        if self.is_section(section_path_str):
+            section_path_str = cast(str, section_path_str)
+            section_config, updated = self.reset_section_config(section_path_str)
+            for item_path_str in self.item_paths_in_section(section_path_str):
+                self.reset(item_path_str)
+            return section_config, updated
+
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
+    def reset_section_config(self, section_path_str: str) -> Tuple[ConfigBase, bool]:
+        """
+        Resets only the section's own config, and not the configs of the items in the section
+        """
+        section = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
+        default = self._get_default_func_or_section_config(section_path_str).config
+        if default is None:
+            section.config = None
+            return ActiveFunctionConfig(), False
+        updated = section.config is None or self._determine_and_track_if_config_would_be_updated(
+            section.config, section_path_str, default
+        )
+        section.config = default
+        return default, updated
+
+    def is_section(self, section_path_str: Optional[str]) -> bool:
+        if section_path_str is None:
+            return False
+        try:
+            obj = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
+        except KeyError:
+            return False
+        return isinstance(obj, ConfigSection)
+
+    def item_paths_in_section(self, section_path_str: str) -> List[str]:
+        section = _get_from_nested_obj_by_section_path(self, SectionPath(section_path_str))
+        return [SectionPath.join(section_path_str, name).path_str for name in section.config_map]
+
     def pop(self, key: str, section_path_str: str=None) -> Any:
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 0218935..930ee59 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -387,8 +387,16 @@ class Runner(ReprMixin):
         Resets a function or section config to default. If no section_path_str
         is passed, resets local config.
         """
+        if self._config.is_section(section_path_str):
+            section_path_str = cast(str, section_path_str)
+            self._config.reset_section_config(section_path_str)
+            for item_path_str in self._config.item_paths_in_section(section_path_str):
+                self.reset(item_path_str)
+            return
+
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
+            default = self._get_config(cast(str, section_path_str))
             apply_config(self._loaded_objects[section_path_str], default)
             self._config.track_post_update(default, section_path_str, **default)
 
-- 
2.43.0


From 0a1c8ba5808b63526dc9ad3c23f58f98a7884ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:17 +0000
Subject: [PATCH 05/62] fix: resetting an item forgets its earlier updates also
 when they did not change its values

---
 pyfileconf/config/models/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 80c6967..987fb97 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -229,8 +229,8 @@ class ConfigManager(ReprMixin):
 
         # Not a new config, need to actually determine whether would be updated
         would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
-        if would_update:
-            self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
+        # Even when the values are the same, the earlier updates tracked in the current config must be forgotten
+        self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
 
     def _get_func_or_section_configs(self, section_path_str: str) -> Optional[ActiveFunctionConfig]:
-- 
2.43.0


From b1bb91b7665a9d7848700146f9c860a09565ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 06/62] fix: resetting an item keeps the settings of its
 sections

---
 pyfileconf/config/models/manager.py | 31 ++++++++++++++++++++---------
 pyfileconf/runner/models/runner.py  |  1 -
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index 987fb97..ec41708 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -109,6 +109,13 @@ class ConfigManager(ReprMixin):
             return section_config, updated
 
         default = self._get_default_func_or_section_config(section_path_str, create=allow_create)
+        if section_path_str is not None:
+            try:
+                default.inherit(self._get_inherited_settings(section_path_str))
+            except KeyError:
+                # new config which is now being created
+                if not allow_create:
+                    raise
         new_config, updated = self.set(section_path_str, default, allow_create=allow_create)
         return new_config, updated
 
@@ -161,6 +168,15 @@ class ConfigManager(ReprMixin):
         if self.section is None:
             raise ConfigManagerNotLoadedException('call .load() on ConfigManager before .get()')
 
+        if config:
+            config.inherit(self._get_inherited_settings(section_path_str))
+
+        return config
+
+    def _get_inherited_settings(self, section_path_str: str) -> Dict[str, Any]:
+        """
+        Gets the settings which override the config of the passed item or section itself
+        """
         # First override for function defaults is global project config
         section_configs = [self.section.config]
 
@@ -182,16 +198,13 @@ class ConfigManager(ReprMixin):
             # if is a section, not function/pipeline
             section_configs.append(self._get_func_or_section_configs(full_section))
 
-        if config:
-            # Override configs. Default config is base config, then gets updated by project, then high
-            # level sections to low level sections. Last, override with local config
-            inherited: Dict[str, Any] = {}
-            for inherit_config in [*section_configs, self.local_config]:
-                inherited.update(inherit_config or {})
+        # Override configs. Default config is base config, then gets updated by project, then high
+        # level sections to low level sections. Last, override with local config
+        inherited: Dict[str, Any] = {}
+        for inherit_config in [*section_configs, self.local_config]:
+            inherited.update(inherit_config or {})
 
-            config.inherit(inherited)
-
-        return config
+        return inherited
 
     def set(self, section_path_str: Optional[str] = None, value: Optional[ConfigBase] = None,
             allow_create: bool = True) -> Tuple[ConfigBase, bool]:
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 930ee59..54d6f34 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -396,7 +396,6 @@ class Runner(ReprMixin):
 
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
-            default = self._get_config(cast(str, section_path_str))
             apply_config(self._loaded_objects[section_path_str], default)
             self._config.track_post_update(default, section_path_str, **default)
 
-- 
2.43.0


From dca9b22f0c8d90c107e0a6f86999a881756b5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:12 +0000
Subject: [PATCH 07/62] fix: a persistent update to the current value is kept
 upon refresh

---
 pyfileconf/basemodels/config.py     | 8 +++++++-
 pyfileconf/config/models/manager.py | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index 91ea526..bb5471d 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -70,10 +70,16 @@ class ConfigBase(dict):
         # Track the updates so they can be applied later
         all_updates = {**E, **F}
         if pyfileconf_persist:
-            self._applied_updates.update(all_updates)
+            self.track_updates(all_updates)
 
         super().update(E, **F)
 
+    def track_updates(self, updates: Dict[str, Any]):
+        """
+        Tracks persistent updates so that they are re-applied upon refresh
+        """
+        self._applied_updates.update(updates)
+
     def inherit(self, inherited: Dict[str, Any]):
         """
         Overrides this config with the passed settings of the enclosing sections. Settings which were
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index ec41708..cc11141 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -63,6 +63,9 @@ class ConfigManager(ReprMixin):
         )
         if would_update:
             config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+        elif pyfileconf_persist:
+            # Does not change any values now, but still must be re-applied upon refresh
+            config_obj.track_updates({**(d_ or {}), **kwargs})
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
-- 
2.43.0


From befa9f3c68ee8a29c666f4210877cc392f7df20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 08/62] fix: items with arguments named d, E or config_ can be
 updated, refreshed and reset

---
 pyfileconf/basemodels/config.py     | 2 +-
 pyfileconf/config/models/manager.py | 9 +++++----
 pyfileconf/runner/models/runner.py  | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index bb5471d..b22833f 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -149,7 +149,7 @@ class ConfigBase(dict):
         # Reload from file
         new_config = self._get_new_config_from_file()
         all_updates = {**new_config, **self._applied_updates}
-        self.update(pyfileconf_persist=False, **all_updates)
+        self.update(all_updates, pyfileconf_persist=False)
         return all_updates
 
     def would_update(self, E=None, **F) -> bool:
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index cc11141..e0596f9 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -58,14 +58,15 @@ class ConfigManager(ReprMixin):
         config_obj = self._get_project_config_or_local_config_by_section_path(section_path_str)
         if config_obj is None:
             raise ConfigManagerNotLoadedException('no config to update')
+        all_updates = {**(d_ or {}), **kwargs}
         would_update = self._determine_and_track_if_config_would_be_updated(
-            config_obj, section_path_str, d_, **kwargs
+            config_obj, section_path_str, all_updates
         )
         if would_update:
-            config_obj.update(d_, pyfileconf_persist=pyfileconf_persist, **kwargs)
+            config_obj.update(all_updates, pyfileconf_persist=pyfileconf_persist)
         elif pyfileconf_persist:
             # Does not change any values now, but still must be re-applied upon refresh
-            config_obj.track_updates({**(d_ or {}), **kwargs})
+            config_obj.track_updates(all_updates)
         return config_obj, would_update
 
     def refresh(self, section_path_str: str) -> Tuple[ConfigBase, bool, Dict[str, Any]]:
@@ -244,7 +245,7 @@ class ConfigManager(ReprMixin):
         assert current_config is not None  # should never fail this, for mypy
 
         # Not a new config, need to actually determine whether would be updated
-        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, **value)
+        would_update = self._determine_and_track_if_config_would_be_updated(current_config, section_path_str, value)
         # Even when the values are the same, the earlier updates tracked in the current config must be forgotten
         self._set_func_or_section_config(section_path_str, value=value, allow_create=allow_create)
         return value, would_update
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 54d6f34..d128150 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -380,7 +380,7 @@ class Runner(ReprMixin):
 
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, d_, **kwargs)
+            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -397,7 +397,7 @@ class Runner(ReprMixin):
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
             apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, **default)
+            self._config.track_post_update(default, section_path_str, dict(default))
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
-- 
2.43.0


From 955611e7b856ec10f49c3819b1cd07880b26c8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:21 +0000
Subject: [PATCH 09/62] fix: running a section runs the classes and specific
 classes in it instead of failing

---
 pyfileconf/runner/models/runner.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index d128150..34f4c99 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -136,7 +136,7 @@ class Runner(ReprMixin):
 
         """
         func_or_collection = self._get_func_or_collection(section_path_str)
-        if isinstance(func_or_collection, PipelineCollection):
+        if isinstance(func_or_collection, Collection):
             return self._run_section(section_path_str)
         elif self._is_specific_class(func_or_collection):
             return self._run_one_specific_class(section_path_str)
@@ -150,27 +150,32 @@ class Runner(ReprMixin):
 
     def _run_section(self, section_path_str: str) -> Results:
         section = self._get_func_or_collection(section_path_str)
-        section = cast(PipelineCollection, section)
+        section = cast(Collection, section)
         results = []
         for section_or_object_view in section:
 
-            # Get section path by which to call this item
-            subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
-            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
-
             # Get from object view if necessary
             if isinstance(section_or_object_view, ObjectView):
                 section_or_callable = section_or_object_view.item
             else:
                 section_or_callable = section_or_object_view
 
-            if isinstance(section_or_callable, PipelineCollection):
+            # Get section path by which to call this item
+            if self._is_specific_class(section_or_callable):
+                # If specific class, need to look up which key holds the name
+                subsection_name = section.name_for_obj(section_or_object_view)
+            else:
+                subsection_name = _get_public_name_or_special_name(section_or_object_view, accept_output_names=False)
+
+            subsection_path_str = SectionPath.join(section_path_str, subsection_name).path_str
+
+            if isinstance(section_or_callable, Collection):
                 # got another section within this section. recursively call run section
                 results.append(self._run_section(subsection_path_str))
             elif self._is_specific_class(section_or_callable):
-                results.append(self._run_one_specific_class(section_path_str))
+                results.append(self._run_one_specific_class(subsection_path_str))
             elif inspect.isclass(section_or_callable):
-                results.append(self._run_one_class(section_path_str))
+                results.append(self._run_one_class(subsection_path_str))
             elif callable(section_or_callable):
                 # run function
                 results.append(self._run_one_func(subsection_path_str))
-- 
2.43.0


From 8c46e91af31ce3b9074069595060e48ff49d9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 10/62] fix: a list of one item runs as a list, and run hooks
 may return lists or modify the passed list

---
 pyfileconf/main.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 31f9ecf..6536d63 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -26,7 +26,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
-    combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item
+    combine_items_into_list_whether_they_are_lists_or_not
 from pyfileconf.pipelines.models.collection import PipelineCollection
 from pyfileconf.pipelines.models.dictconfig import PipelineDictConfig
 from pyfileconf.plugin import manager as plugin_manager
@@ -142,16 +142,23 @@ class PipelineManager:
         Returns: result or list of results
 
         """
-        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
-            section_path_str_or_list
-        )
         additional_items = plugin_manager.plm.hook.pyfileconf_pre_run(
             section_path_str_or_list=section_path_str_or_list, pm=self
         )
-        # Will be converted into list always
-        str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not_then_extract_from_list_if_only_one_item(
-            str_or_list_only, additional_items
+        # Convert only after the hook, as it may modify the list in place
+        str_or_list_only: Union[str, List[str]] = self._convert_list_or_single_item_view_or_str_to_strs(
+            section_path_str_or_list
         )
+        additional_strs: List[str] = []
+        for additional in additional_items:
+            # Each plugin may return a single section path or a list of them
+            additional_strs = combine_items_into_list_whether_they_are_lists_or_not(
+                additional_strs, self._convert_list_or_single_item_view_or_str_to_strs(additional)
+            )
+        if additional_strs:
+            str_or_list_only = combine_items_into_list_whether_they_are_lists_or_not(
+                str_or_list_only, additional_strs
+            )
 
         if options.log_stdout:
             with stdout_also_logged():
-- 
2.43.0


From e360e9ab142f8b4b9ad683f9c9be21cb3ffc7abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:34 +0000
Subject: [PATCH 11/62] fix: getting a section no longer makes later runs of
 the classes in it construct instead of call them

---
 pyfileconf/runner/models/runner.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 34f4c99..c038d57 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -291,6 +291,9 @@ class Runner(ReprMixin):
                 )
             elif self._is_specific_class(section_or_callable):
                 results.append(self._get_one_obj_with_config(subsection_path_str))
+            elif inspect.isclass(section_or_callable):
+                # Do not store the class as the loaded object, running the class needs an instance of it
+                results.append(self._create_func_with_config(subsection_path_str))
             elif callable(section_or_callable):
                 # get function
                 results.append(self._get_one_func_with_config(subsection_path_str))
@@ -305,12 +308,16 @@ class Runner(ReprMixin):
         if section_path_str in self._loaded_objects:
             return self._loaded_objects[section_path_str]
 
+        full_func = self._create_func_with_config(section_path_str)
+        self._loaded_objects[section_path_str] = full_func
+        return full_func
+
+    def _create_func_with_config(self, section_path_str: str) -> Callable:
         func, config_dict = self._get_func_and_config(section_path_str)
 
         full_func = partial(func, **config_dict)
 
         self._add_full_section_path_str_to_obj(section_path_str, full_func)
-        self._loaded_objects[section_path_str] = full_func
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return full_func
 
-- 
2.43.0


From dfaa5716375962e6903c7d4a38d663408f029c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:16 +0000
Subject: [PATCH 12/62] fix: running an IterativeRunner again applies the first
 case again

---
 pyfileconf/iterate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2fcd6f4..c4e6158 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -108,6 +108,7 @@ class IterativeRunner:
         """
         from pyfileconf.main import PipelineManager
         logger.info(f'Running {self.run_items} with cases')
+        self.last_case = None  # configs may have been changed since any earlier run
         all_results = []
         for case in self.cases:
             if not self.should_run(case):
@@ -121,6 +122,7 @@ class IterativeRunner:
 
     def run_gen(self) -> Iterator[IterativeResult]:
         logger.info(f'Running {self.run_items} with cases')
+        self.last_case = None  # configs may have been changed since any earlier run
         for case in self.cases:
             if not self.should_run(case):
                 continue
-- 
2.43.0


From 0e7ab565dc53e16fa790f7263ea7d4e5092aa8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 13/62] fix: Selector can be created while another manager is
 not loaded

---
 pyfileconf/selector/models/selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index 8d7e3ed..dd63d2a 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -174,6 +174,9 @@ class Selector:
         out_dict = {}
         manager: PipelineManager
         for manager_name, manager in self._managers.items():
+            if manager._general_registrar is None or manager._registrars is None:
+                # Manager has not been loaded (or failed to load), so has no items yet
+                continue
             manager_dict = {
                 '_general': manager._general_registrar.collection,
             }
-- 
2.43.0


From 116987aae5d30843889c05149f95777b8c16c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 14/62] fix: updating a value to or from an array no longer
 fails

---
 pyfileconf/basemodels/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index b22833f..d0b38b1 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -202,7 +202,8 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
         return False
 
     try:
-        return val1 == val2
+        # Comparison may give something other than a boolean, e.g. an array
+        return bool(val1 == val2)
     except Exception as e:
         warnings.warn(f'Could not check if values {val1} and {val2} of '
                       f'type {type(val1)} and {type(val2)} are '
-- 
2.43.0


From c46e69ced30bcdf228bb2bee5e03f7784cfea892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:27 +0000
Subject: [PATCH 15/62] fix: product runs over arrays and data frames no longer
 fail

---
 pyfileconf/basemodels/config.py    | 6 ++++++
 pyfileconf/plugin/default_hooks.py | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/basemodels/config.py b/pyfileconf/basemodels/config.py
index d0b38b1..209df12 100644
--- a/pyfileconf/basemodels/config.py
+++ b/pyfileconf/basemodels/config.py
@@ -209,3 +209,9 @@ def _values_are_equal(val1: Any, val2: Any) -> bool:
                       f'type {type(val1)} and {type(val2)} are '
                       f'equal. Returning False. Got exception: {e}')
         return False
+
+
+def _configs_are_equal(config1: Dict[str, Any], config2: Dict[str, Any]) -> bool:
+    return config1.keys() == config2.keys() and all(
+        _values_are_equal(value, config2[key]) for key, value in config1.items()
+    )
diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index 100040d..e9d6bc4 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -42,11 +42,14 @@ def pyfileconf_iter_update_for_case(
     :param runner: :class:`IterativeRunner` which has been constructed to call iteration
     :return: None
     """
+    from pyfileconf.basemodels.config import _configs_are_equal
     from pyfileconf.batch import BatchUpdater
 
     updated_confs: Sequence[Dict[str, Any]]
     if runner.last_case is not None:
-        updated_confs = [conf for conf in case if conf not in runner.last_case]
+        updated_confs = [
+            conf for conf in case if not any(_configs_are_equal(conf, last_conf) for last_conf in runner.last_case)
+        ]
     else:
         updated_confs = case
 
-- 
2.43.0


From 3bd031bf68617769dcbbbf4983f25f77272572b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:26 +0000
Subject: [PATCH 16/62] fix: values contributed by plugins to an update do not
 end up in the caller's dictionary

---
 pyfileconf/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 6536d63..bc1f45e 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -336,6 +336,9 @@ class PipelineManager:
         :param kwargs: kwarg updates
         :return:
         """
+        if d_ is not None:
+            # Plugins may modify or extend the updates, which should not affect the dictionary of the caller
+            d_ = {**d_}
         new_updates_list: List[Dict[str, Any]] = plugin_manager.plm.hook.pyfileconf_pre_update(
             pm=self, d_=d_, section_path_str=section_path_str, kwargs=kwargs
         )
-- 
2.43.0


From d4bb5ad06173a9694c3b0b44f86e6f767261c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 17/62] fix: product runs execute cases of plugins that update
 other items, and no cases at all

---
 pyfileconf/iterate.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index c4e6158..805baff 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -71,12 +71,14 @@ class IterativeRunner:
 
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
-        case = self.cases[0]
+        # Plugins may add or modify cases, so each case may update different items
         section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for conf in case
+            self._get_full_section_path_str(conf['section_path_str']) for case in self.cases for conf in case
         ]
         defaults: Dict[str, Dict[str, Any]] = {}
         for sp_str in section_path_strs:
+            if sp_str in defaults:
+                continue
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
             sp = SectionPath(sp_str)
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
@@ -88,11 +90,17 @@ class IterativeRunner:
 
     def _fill_case_with_defaults(self, case: Tuple[Dict[str, Any], ...]) -> Tuple[Dict[str, Any], ...]:
         new_confs: List[Dict[str, Any]] = []
+        case_section_path_strs: List[str] = []
         for conf in case:
             sp_str = self._get_full_section_path_str(conf['section_path_str'])
             defaults = self.defaults[sp_str]
             new_conf = {**defaults, **conf}
             new_confs.append(new_conf)
+            case_section_path_strs.append(sp_str)
+        for sp_str, defaults in self.defaults.items():
+            if sp_str not in case_section_path_strs:
+                # Updated in another case but not in this one
+                new_confs.append({**defaults, 'section_path_str': self._get_relative_section_path_str(sp_str)})
         return tuple(new_confs)
 
     def _get_full_section_path_str(self, section_path_str: str) -> str:
@@ -100,6 +108,11 @@ class IterativeRunner:
             return section_path_str
         return SectionPath.join(self.base_section_path_str, section_path_str).path_str
 
+    def _get_relative_section_path_str(self, section_path_str: str) -> str:
+        if not self.base_section_path_str:
+            return section_path_str
+        return section_path_str[len(self.base_section_path_str) + 1:]
+
     def run(self, collect_results: bool = True) -> IterativeResults:
         """
         :param collect_results: Whether to aggregate and return results, set to False to save memory
-- 
2.43.0


From dd5cb17682b1338a5762feb6f1f7ced8d8ffa870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:27 +0000
Subject: [PATCH 18/62] fix: failed or abandoned attribute lookups on a manager
 no longer break later ones

---
 pyfileconf/runner/models/runner.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index c038d57..99514cd 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -44,25 +44,20 @@ class Runner(ReprMixin):
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
-        # TODO [#14]: find way of doing runner look ups with fewer side effects
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        self._full_getattr += item
-        try:
-            func_or_collection = self._get_func_or_collection(self._full_getattr)
-        except KeyError as e:
-            self._full_getattr = '' # didn't find an item, must be incorrect path. reset total path
-            raise e
+        full_getattr = self._full_getattr + item
+        func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-            # Got section, need to keep going. Return self
-            self._full_getattr += '.' # add period to separate next section
-            return self
+            # Got section, need to keep going. Return a runner for the section, do not
+            # track it in this runner as it may never be followed by getting an item
+            section_runner = self.__class__.__new__(self.__class__)
+            section_runner.__dict__.update(self.__dict__)
+            section_runner._full_getattr = full_getattr + '.'  # add period to separate next section
+            return section_runner
         else:
             # Got function or class, return the function or class itself
-            full_getattr = self._full_getattr
-            self._full_getattr = ''  # found the item, reset for next time
-            configured_func_or_class = self.get(full_getattr)
-            return configured_func_or_class
+            return self.get(full_getattr)
 
     # TODO [#16]: this may work once __getattr__ works with sections
     # def __dir__(self):
-- 
2.43.0


From d3f6d72ae4bdec7d8aefcc6b5483bb53456b284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:35 +0000
Subject: [PATCH 19/62] fix: items and sections named like their section can be
 used

---
 pyfileconf/config/models/section.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index ac4d977..dc0eea3 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -21,12 +21,14 @@ class ConfigSection(Container, ReprMixin):
         self.name = name
 
     def __getattr__(self, item):
-
-        # Handle if trying to get this section's config
-        if self.config is not None and item == self.config.name:
-            return self.config
-
-        return self.config_map[item]
+        try:
+            return self.config_map[item]
+        except KeyError:
+            # Handle if trying to get this section's config. Must come after looking for
+            # an item or section within this section as it may have the same name
+            if self.config is not None and item == self.config.name:
+                return self.config
+            raise
 
     def __dir__(self):
         return self.config_map.keys()
-- 
2.43.0


From 6bab99ce6e7d873a068147ffe5e565a82766eb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:55 +0000
Subject: [PATCH 20/62] fix: changing the log folder moves the log instead of
 adding a second file handler

---
 pyfileconf/logger/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/logger/logger.py b/pyfileconf/logger/logger.py
index 64046f0..7d65d02 100644
--- a/pyfileconf/logger/logger.py
+++ b/pyfileconf/logger/logger.py
@@ -40,6 +40,9 @@ def add_file_handler():
     )
     fh.setLevel(logging.DEBUG)
     fh.setFormatter(CustomFormatter())
+    if any(isinstance(h, TimedRotatingFileHandler) for h in logger.handlers):
+        # Log folder was changed, stop logging in the previous folder
+        remove_file_handler()
     logger.addHandler(fh)
 
 
-- 
2.43.0


From 825043579205e9dd6b482d30dcfd9ef5b619c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:56 +0000
Subject: [PATCH 21/62] fix: an option which could not be applied keeps its
 original value

---
 pyfileconf/opts/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index cc630e2..8ff153f 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -73,7 +73,12 @@ class PyfileconfOption:
         orig_value = getattr(options, self.name)
         setattr(options, self.name, val)
         if self.callback is not None and orig_value != val:
-            self.callback(self.name, val)
+            try:
+                self.callback(self.name, val)
+            except BaseException:
+                # The option was not applied, so it still has its original value
+                setattr(options, self.name, orig_value)
+                raise
 
     @property
     def default_value(self) -> Any:
-- 
2.43.0


From 49af4b9c976f230cd6523f5db22475589dea16a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:56 +0000
Subject: [PATCH 22/62] fix: assigning to an option of the options manager sets
 it as documented

---
 pyfileconf/opts/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyfileconf/opts/__init__.py b/pyfileconf/opts/__init__.py
index 8ff153f..1def543 100644
--- a/pyfileconf/opts/__init__.py
+++ b/pyfileconf/opts/__init__.py
@@ -160,6 +160,14 @@ class PyfileconfOptionsManager:
             setattr(self, attr, opt)
             self._options.append(opt)
 
+    def __setattr__(self, attr: str, value: Any):
+        if attr in options.option_attrs and attr in self.__dict__:
+            # Assigning to an option sets its value rather than replacing the option
+            value = value.value if isinstance(value, PyfileconfOption) else value
+            self.set_option(attr, value)
+        else:
+            super().__setattr__(attr, value)
+
     def __repr__(self):
         opts_str = '\t' + '\n\t'.join(repr(opt) for opt in self._options) + '\n'
         return f'<PyfileconfOptionsManager(options=[\n{opts_str}])>'
-- 
2.43.0


From 2db06e491d9e8201bda3a3bbcca93ef699978c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 23/62] fix: standard output is restored after a run with
 log_stdout fails

---
 pyfileconf/logger/bind_stdout.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/logger/bind_stdout.py b/pyfileconf/logger/bind_stdout.py
index 559c2bd..599aae1 100644
--- a/pyfileconf/logger/bind_stdout.py
+++ b/pyfileconf/logger/bind_stdout.py
@@ -8,8 +8,10 @@ from pyfileconf.logger.logger import logger
 def stdout_also_logged():
     stdout_logger = StdoutLogger()
     sys.stdout = stdout_logger  # type: ignore
-    yield stdout_logger
-    sys.stdout = stdout_logger.terminal
+    try:
+        yield stdout_logger
+    finally:
+        sys.stdout = stdout_logger.terminal
 
 
 class StdoutLogger(object):
-- 
2.43.0


From d43ace39a1c40633db557c254632584b4a9e4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 24/62] fix: an item imported more than once in a statement
 keeps each of its names

---
 pyfileconf/imports/models/statements/importbase.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 8a7144c..b9b9489 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -23,10 +23,14 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
             return rename_items # no saved renames, just return original attrs
 
         renamed_items = []
-        for item in rename_items:
-            if item in self.renames:
-                renamed_items.append(str(self.renames[item]))
+        for i, item in enumerate(rename_items):
+            # The same item may be imported multiple times, both with and without renames
+            renames = [rename for rename in self.renames if rename.item == item]
+            num_remaining = list(rename_items[i:]).count(item)
+            if len(renames) >= num_remaining:
+                renamed_items.append(str(renames[-num_remaining]))
             else:
                 renamed_items.append(item)
 
         return renamed_items
+
-- 
2.43.0


From 5a03abcf808a8ac057c42cfe369a550f7384396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:20 +0000
Subject: [PATCH 25/62] fix: an import under its own name is not provided by a
 renamed import

---
 pyfileconf/imports/models/statements/container.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index df82740..21835a7 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -36,22 +36,18 @@ class ImportStatementContainer(Container, ReprMixin):
             # first handle where it's a module import statement
             # e.g. item is: import this
             # and import statement in collection is: import this, that
+            # in both cases, each import must be under the same name
             if isinstance(item, ModuleImportStatement) and isinstance(imp_or_comment, ModuleImportStatement):
-                matching_modules = all(mod in imp_or_comment.modules for mod in item.modules)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_modules and matching_renames:
+                if all(renamed in imp_or_comment._renamed for renamed in item._renamed):
                     return True
 
             # e.g. item is: from this import that
             # and import statement in collection is: from this import that, another
             if isinstance(item, ObjectImportStatement) and isinstance(imp_or_comment, ObjectImportStatement):
                 matching_module = imp_or_comment.module == item.module
-                matching_objs = all(mod in imp_or_comment.objs for mod in item.objs)
-                matching_renames = all(rename in imp_or_comment.renames for rename in item.renames)
-                if matching_module and matching_objs and matching_renames:
+                if matching_module and all(renamed in imp_or_comment._renamed for renamed in item._renamed):
                     return True
 
-
         return False
 
     def __str__(self):
-- 
2.43.0


From 2603706e9264c1c1461ee87448cb60cf1825c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 26/62] fix: import statements with the same renames and
 comment are equal

---
 pyfileconf/imports/models/statements/comment.py | 4 +++-
 pyfileconf/imports/models/statements/rename.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/comment.py b/pyfileconf/imports/models/statements/comment.py
index 01d6eb6..9adbd49 100644
--- a/pyfileconf/imports/models/statements/comment.py
+++ b/pyfileconf/imports/models/statements/comment.py
@@ -1,8 +1,10 @@
 
+from mixins.attrequals import EqOnAttrsMixin
 from mixins.repr import ReprMixin
 
-class Comment(ReprMixin):
+class Comment(ReprMixin, EqOnAttrsMixin):
     repr_cols = ['comment']
+    equal_attrs = ['comment']
 
     def __init__(self, comment_str: str):
         self.comment = comment_str
diff --git a/pyfileconf/imports/models/statements/rename.py b/pyfileconf/imports/models/statements/rename.py
index 966e10e..ab1da3e 100644
--- a/pyfileconf/imports/models/statements/rename.py
+++ b/pyfileconf/imports/models/statements/rename.py
@@ -32,8 +32,9 @@ class RenameStatement(ReprMixin, EqOnAttrsMixin):
         )
 
 
-class RenameStatementCollection(ReprMixin):
+class RenameStatementCollection(ReprMixin, EqOnAttrsMixin):
     repr_cols = ['items']
+    equal_attrs = ['items']
 
     def __init__(self, items: Sequence[RenameStatement]):
         self.items = items
-- 
2.43.0


From 21bc8a746bfdcfb6c79b17ba9c172308dcfbfd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 27/62] fix: converting an assignment to source does not change
 how its parts are converted

---
 pyfileconf/io/file/write/asttosource.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/io/file/write/asttosource.py b/pyfileconf/io/file/write/asttosource.py
index 43baf2c..5b8dea6 100644
--- a/pyfileconf/io/file/write/asttosource.py
+++ b/pyfileconf/io/file/write/asttosource.py
@@ -1,4 +1,6 @@
 import ast
+from copy import deepcopy
+
 import astor
 
 def ast_node_to_source(ast_node: ast.AST) -> str:
@@ -15,6 +17,10 @@ def ast_node_to_source(ast_node: ast.AST) -> str:
 
     """
 
+    # Source generation stores information such as operator precedence in the nodes,
+    # which should not affect generating the source of a part of the node afterwards
+    ast_node = deepcopy(ast_node)
+
     # Must be a module to output to source. Wrap in module if not already
     if not isinstance(ast_node, ast.Module):
         ast_node = ast.Module([ast_node])
-- 
2.43.0


From 2dadbae22dc20cf9cf14188cbe394d45e60ecb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:40 +0000
Subject: [PATCH 28/62] fix: relative imports keep their level

---
 pyfileconf/imports/models/statements/obj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/imports/models/statements/obj.py b/pyfileconf/imports/models/statements/obj.py
index aaf1846..1cfbeea 100644
--- a/pyfileconf/imports/models/statements/obj.py
+++ b/pyfileconf/imports/models/statements/obj.py
@@ -59,12 +59,14 @@ class ObjectImportStatement(ImportStatement, ReprMixin):
         # Collect object names
         objs = [alias.name for alias in ast_import.names]
 
-        if ast_import.module is None:
+        # Relative imports have a dot for each level, and may have no module, e.g. from . import this
+        module = '.' * (ast_import.level or 0) + (ast_import.module or '')
+        if not module:
             raise CouldNotExtractObjectImportFromAstException(f'original ast: {ast_import}')
 
         return cls(
             objs,
-            ast_import.module,
+            module,
             renames,
             preferred_position=preferred_position
         )
-- 
2.43.0


From 78c1adc76c06c22a6f43ea34303907798c1cec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 29/62] fix: imports are looked up by the name they are
 imported under, the last import wins

---
 .../imports/models/statements/container.py    | 70 ++++++++-----------
 .../imports/models/statements/importbase.py   | 32 +++++----
 2 files changed, 45 insertions(+), 57 deletions(-)

diff --git a/pyfileconf/imports/models/statements/container.py b/pyfileconf/imports/models/statements/container.py
index 21835a7..e3bf509 100644
--- a/pyfileconf/imports/models/statements/container.py
+++ b/pyfileconf/imports/models/statements/container.py
@@ -91,48 +91,34 @@ class ImportStatementContainer(Container, ReprMixin):
         return self.get_import_for_module_or_obj_name(possibly_imported_name)
 
     def get_import_for_module_or_obj_name(self, name: str) -> ImportOrNone:
-        found_import = False
-        for imp in self:
-            if isinstance(imp, ModuleImportStatement):
-                if name in imp.modules:
-                    # match on original module name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = None
-                    modules = [name]
-                elif name in imp.renames.new_names:
-                    # match on renamed module name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = RenameStatementCollection(
-                        # Pull the rename matching this name
-                        [rename for rename in imp.renames if rename.new_name == name]
-                    )
-                    # grab original module matching this rename
-                    modules = [renames.reverse_name_map[name]]
-                if found_import:
-                    # May be multiple modules imported in this one statement. Create a new statement with just this module
-                    return ModuleImportStatement(modules=modules, renames=renames)
-            elif isinstance(imp, ObjectImportStatement):
-                if name in imp.objs:
-                    # match on original object name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = None
-                    objs = [name]
-                elif name in imp.renames.new_names:
-                    # match on renamed object name
-                    # set up for creating a new import
-                    found_import = True
-                    renames = RenameStatementCollection(
-                        # Pull the rename matching this name
-                        [rename for rename in imp.renames if rename.new_name == name]
-                    )
-                    # grab original object matching this rename
-                    objs = [renames.reverse_name_map[name]]
-                if found_import:
-                    # May be multiple objects imported in this one statement. Create a new statement with just this object
-                    return ObjectImportStatement(objs, module=imp.module, renames=renames)
+        """
+        Gets an import for only the passed name. If the name is imported multiple times, the
+        last import determines what the name is.
+        """
+        # For modules imported under their own name. There may be multiple of these for one name,
+        # as import this.that also imports the name this
+        modules: List[str] = []
+
+        for imp in reversed(self.items):
+            if not isinstance(imp, (ModuleImportStatement, ObjectImportStatement)):
+                continue
+            for item, rename in reversed(imp.items_and_renames):
+                if isinstance(imp, ModuleImportStatement) and rename is None:
+                    if name in (item, item.split('.')[0]) and item not in modules:
+                        modules.insert(0, item)
+                elif name == (item if rename is None else rename.new_name):
+                    if modules:
+                        # Modules were imported under this name later
+                        return ModuleImportStatement(modules=modules)
+                    # May be multiple items imported in this one statement. Create a new statement with just this item
+                    renames = None if rename is None else RenameStatementCollection([rename])
+                    if isinstance(imp, ModuleImportStatement):
+                        return ModuleImportStatement(modules=[item], renames=renames)
+                    return ObjectImportStatement([item], module=imp.module, renames=renames)
+
+        if modules:
+            return ModuleImportStatement(modules=modules)
+
         raise NoImportMatchingNameException(f'could not find name {name} in {self}')
 
     @property
diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index b9b9489..9cf95d3 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -14,23 +14,25 @@ class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
     #### Common class methods and properties
 
     @property
-    def _renamed(self):
+    def items_and_renames(self):
+        """
+        Each imported item with its rename statement, or None if the item is not renamed
+        """
         if self.rename_attr is None:
             raise ValueError(f'must set rename_attr in class {self.__class__.__name__}')
-        rename_items: List = getattr(self, self.rename_attr)
-
-        if self.renames is None:
-            return rename_items # no saved renames, just return original attrs
+        items: List = getattr(self, self.rename_attr)
 
-        renamed_items = []
-        for i, item in enumerate(rename_items):
+        items_and_renames = []
+        for i, item in enumerate(items):
             # The same item may be imported multiple times, both with and without renames
-            renames = [rename for rename in self.renames if rename.item == item]
-            num_remaining = list(rename_items[i:]).count(item)
-            if len(renames) >= num_remaining:
-                renamed_items.append(str(renames[-num_remaining]))
-            else:
-                renamed_items.append(item)
-
-        return renamed_items
+            renames = [rename for rename in self.renames or [] if rename.item == item]
+            num_remaining = list(items[i:]).count(item)
+            rename = renames[-num_remaining] if len(renames) >= num_remaining else None
+            items_and_renames.append((item, rename))
+
+        return items_and_renames
+
+    @property
+    def _renamed(self):
+        return [item if rename is None else str(rename) for item, rename in self.items_and_renames]
 
-- 
2.43.0


From 447427d015c61500be352c3317b8e34266978931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 30/62] fix: object imports can be compared to imports of
 multiple modules

---
 pyfileconf/imports/models/statements/importbase.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyfileconf/imports/models/statements/importbase.py b/pyfileconf/imports/models/statements/importbase.py
index 9cf95d3..06656fa 100644
--- a/pyfileconf/imports/models/statements/importbase.py
+++ b/pyfileconf/imports/models/statements/importbase.py
@@ -5,6 +5,12 @@ from pyfileconf.mixins.orderpref import OrderPreferenceMixin
 class ImportStatement(EqOnAttrsMixin, OrderPreferenceMixin):
     rename_attr: Optional[str] = None
 
+    def __eq__(self, other):
+        # An import of objects never equals an import of modules, even while sharing attributes
+        if not isinstance(other, type(self)):
+            return False
+        return super().__eq__(other)
+
     ### Scaffolding methods
 
     def execute(self):
-- 
2.43.0


From 2fbc1d718349ed30185b3a4df1451c4a1e355e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 31/62] fix: imports and assignments inside functions and
 classes are not taken for those of the file

---
 pyfileconf/io/file/load/parsers/assign.py      |  5 ++++-
 pyfileconf/io/file/load/parsers/imp.py         |  3 ++-
 pyfileconf/io/file/load/parsers/modulelevel.py | 15 +++++++++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)
 create mode 100644 pyfileconf/io/file/load/parsers/modulelevel.py

diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 995d52c..17da712 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -1,12 +1,15 @@
 import ast
 from typing import Union, TYPE_CHECKING
+
+from pyfileconf.io.file.load.parsers.modulelevel import ModuleLevelVisitor
+
 if TYPE_CHECKING:
     from pyfileconf.assignments.models.statement import AssignmentStatement
     from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
 AssignmentStatementOrNone = Union['AssignmentStatement', None]
 
-class AssignmentExtractor(ast.NodeVisitor):
+class AssignmentExtractor(ModuleLevelVisitor):
 
     def __init__(self):
         from pyfileconf.assignments.models.container import AssignmentStatementContainer
diff --git a/pyfileconf/io/file/load/parsers/imp.py b/pyfileconf/io/file/load/parsers/imp.py
index d9fcb79..fc98bb1 100644
--- a/pyfileconf/io/file/load/parsers/imp.py
+++ b/pyfileconf/io/file/load/parsers/imp.py
@@ -8,12 +8,13 @@ from pyfileconf.imports.models.statements.interfaces import (
     AnyImportStatement
 )
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.io.file.load.parsers.modulelevel import ModuleLevelVisitor
 
 AnyImportStatementOrNone = Union[AnyImportStatement, None]
 ObjectImportStatementOrNone = Union[ObjectImportStatement, None]
 ModuleImportStatementOrNone = Union[ModuleImportStatement, None]
 
-class ImportExtractor(ast.NodeVisitor):
+class ImportExtractor(ModuleLevelVisitor):
 
     def __init__(self):
         self.imports = ImportStatementContainer([])
diff --git a/pyfileconf/io/file/load/parsers/modulelevel.py b/pyfileconf/io/file/load/parsers/modulelevel.py
new file mode 100644
index 0000000..d4900d2
--- /dev/null
+++ b/pyfileconf/io/file/load/parsers/modulelevel.py
@@ -0,0 +1,15 @@
+import ast
+
+
+class ModuleLevelVisitor(ast.NodeVisitor):
+    """
+    Visits only what belongs to the namespace of the module itself, not what is local to functions and classes
+    """
+
+    def _skip(self, node):
+        pass
+
+    visit_FunctionDef = _skip
+    visit_AsyncFunctionDef = _skip
+    visit_ClassDef = _skip
+    visit_Lambda = _skip
-- 
2.43.0


From e181461772fc6a697a6b93c0087ff34e2a4d4a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:39 +0000
Subject: [PATCH 32/62] fix: files with multiple, tuple, subscript or
 annotation-only assignments can be loaded

---
 pyfileconf/assignments/models/statement.py | 21 ++++++---------------
 pyfileconf/io/file/load/parsers/assign.py  | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/pyfileconf/assignments/models/statement.py b/pyfileconf/assignments/models/statement.py
index b9da56b..ed2d762 100644
--- a/pyfileconf/assignments/models/statement.py
+++ b/pyfileconf/assignments/models/statement.py
@@ -84,22 +84,13 @@ class AssignmentStatement(ReprMixin, OrderPreferenceMixin):
         )
 
     def to_default_dict_and_annotation_dict(self) -> Tuple[Dict[str, ast.AST], Dict[str, ast.Name]]:
+        if not isinstance(self.target, ast.Name):
+            # Does not define a single variable, e.g. a.b = 6, a['b'] = 6 or a, b = 5, 6. Do not need to put
+            # into default dict
+            return {}, {}
+
         # Set default dict
-        try:
-            default_dict = {self.target.id: self.value}
-        except AttributeError as e:
-            if "no attribute 'id'" in str(e):
-                try:
-                    self.target.attr  # type: ignore
-                    # Success, means that this was an attribute assignment like a.b = 6, do not need to put
-                    # into default dict
-                    default_dict = {}
-                except AttributeError:
-                    raise NotImplementedError(
-                        f'do not understand how to parse {self.target} (dict: {self.target.__dict__})'
-                    )
-            else:
-                raise e
+        default_dict = {self.target.id: self.value}
 
         # Set annotation dict
         annotation_dict = {}
diff --git a/pyfileconf/io/file/load/parsers/assign.py b/pyfileconf/io/file/load/parsers/assign.py
index 17da712..90565bc 100644
--- a/pyfileconf/io/file/load/parsers/assign.py
+++ b/pyfileconf/io/file/load/parsers/assign.py
@@ -17,12 +17,16 @@ class AssignmentExtractor(ModuleLevelVisitor):
 
     def visit_Assign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
-        self.assigns.append(
-            AssignmentStatement.from_ast_assign(node)
-        )
+        for target in node.targets:
+            # a = b = 5 assigns to each of the targets
+            self.assigns.append(
+                AssignmentStatement.from_ast_assign(ast.Assign(targets=[target], value=node.value))
+            )
 
     def visit_AnnAssign(self, node):
         from pyfileconf.assignments.models.statement import AssignmentStatement
+        if node.value is None:
+            return  # only an annotation, does not assign
         self.assigns.append(
             AssignmentStatement.from_ast_assign(node)
         )
@@ -52,12 +56,12 @@ class AssignmentByVarnameExtractor(AssignmentExtractor):
         super().__init__()
 
     def visit_Assign(self, node):
-        varnames = [target.id for target in node.targets]
-        if self.varname in varnames:
-            super().visit_Assign(node)
+        targets = [target for target in node.targets if getattr(target, 'id', None) == self.varname]
+        if targets:
+            super().visit_Assign(ast.Assign(targets=targets, value=node.value))
 
     def visit_AnnAssign(self, node):
-        if node.target.id == self.varname:
+        if getattr(node.target, 'id', None) == self.varname:
             super().visit_AnnAssign(node)
 
 
-- 
2.43.0


From 5f06fdc691f3872983177d9a090646d8b59d994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:40 +0000
Subject: [PATCH 33/62] fix: scaffolding keeps existing config files as they
 are and adds only what they do not define

---
 pyfileconf/config/logic/load.py            |  84 --------------
 pyfileconf/io/file/interfaces/config.py    |   5 +-
 pyfileconf/io/file/load/lazy/config.py     |  24 +---
 pyfileconf/io/file/load/parsers/defined.py |  55 +++++++++
 pyfileconf/io/file/write/config.py         | 127 ++++++++++++++++++++-
 5 files changed, 185 insertions(+), 110 deletions(-)
 delete mode 100644 pyfileconf/config/logic/load.py
 create mode 100644 pyfileconf/io/file/load/parsers/defined.py

diff --git a/pyfileconf/config/logic/load.py b/pyfileconf/config/logic/load.py
deleted file mode 100644
index 1e025df..0000000
--- a/pyfileconf/config/logic/load.py
+++ /dev/null
@@ -1,84 +0,0 @@
-from typing import Tuple, List, Union, Sequence
-from copy import deepcopy
-
-ListOfStrs = List[str]
-TwoNoneTuple = Tuple[None, None]
-TwoStrTuple = Tuple[str, str]
-TwoTupleNoneOrStr = Union[TwoStrTuple, TwoNoneTuple]
-
-def _split_lines_into_import_and_assignment(lines: ListOfStrs, strip_lines=True) -> Tuple[ListOfStrs, ListOfStrs]:
-    # TODO [#2]: deal with later imports
-    #
-    # Imports can currently only be read from the top of the file
-
-    # TODO [#3]: deal with use of import other than the word import
-
-    import_section = []
-    assignment_section = []
-    # We can have three cases for the following two booleans:
-    # The file starts in the import section
-    # Then, we enter the whitespace section between import and assignments. Still consider this the import section.
-    # Finally, once text is detected again after import section,
-    # assignment section starts (in_import_section=False)
-    in_import_section = True
-    for i, line in enumerate(lines):
-
-        if strip_lines:
-            line = line.strip('\n')
-
-        # Handle import section and add whitespace below import section
-        if in_import_section:
-            if 'import' in line or _is_whitespace_line(line):
-                import_section.append(line)
-            else:
-                in_import_section = False  # no longer dealing with imports, must have assignment line
-
-        # Assignment section, just output
-        if not in_import_section:
-            assignment_section.append(line)
-
-    # Import section was handled as both import section and following whitespace. Strip following whitespace.
-    import_section = _strip_whitespace_lines_from_end_of_lines(import_section)
-
-    return import_section, assignment_section
-
-def _split_assignment_line_into_variable_name_and_assignment(line: str) -> TwoTupleNoneOrStr:
-
-    # handle whitespace lines
-    if '=' not in line:
-        return None, None
-
-    # Split into two parts by the first equals (handle multiple equals). Treating further equals as string
-    # TODO [#4]: handle multiple assignments such as this = that = 5
-    split_line = line.split('=')
-    parts: Sequence[str]
-    if len(split_line) > 2:
-        parts = split_line[0], '='.join(split_line[1:])
-    else:
-        parts = split_line
-
-    variable, value = tuple(item.strip() for item in parts)
-    return variable, value
-
-def _is_whitespace_line(line: str) -> bool:
-    return line.strip() == ''
-
-def _strip_whitespace_lines_from_end_of_lines(lines: List[str]) -> List[str]:
-
-    # Handle empty list
-    if lines == []:
-        return []
-
-    reversed_lines = deepcopy(lines)
-    reversed_lines.reverse()
-
-    # starting from end first. Discard all lines until non-whitespace is found
-    for line_index, line in enumerate(reversed_lines):
-        if not _is_whitespace_line(line):
-            break
-
-    output_lines = reversed_lines[line_index:]
-    output_lines.reverse() # back to first first
-
-    return output_lines
-
diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index a8a5200..b0f53d6 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -12,8 +12,11 @@ class ConfigFileInterface(ConfigFileLoader):
             config,
             existing_assigns=self.assigns,
             existing_imports=self.imports,
-            existing_body=self.assignment_body
+            existing_body=self.body or []
         )
 
+        if self.body and file_str_obj.file_str == ''.join(self.body):
+            return  # Nothing to add to the existing file
+
         with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
             f.write(file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/load/lazy/config.py b/pyfileconf/io/file/load/lazy/config.py
index ec486f6..fa78900 100644
--- a/pyfileconf/io/file/load/lazy/config.py
+++ b/pyfileconf/io/file/load/lazy/config.py
@@ -1,7 +1,6 @@
-from typing import List, Tuple
+from typing import Tuple
 
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
-from pyfileconf.config.logic.load import _split_lines_into_import_and_assignment
 from pyfileconf.pmcontext.actions import PyfileconfActions
 from pyfileconf.pmcontext.tracing import StackTracker
 
@@ -13,28 +12,7 @@ class ConfigFileLoader(ImportAssignmentLazyLoader):
         super().register()
 
         with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_FILE_AST):
-            # Extract assignment portion of body
-            self._file_body_to_assignment_body()
-
             # Parse assigns into config dict
             config_dict, annotation_dict = self.assigns.to_default_dict_and_annotation_dict()
 
         return config_dict, annotation_dict
-
-    @property
-    def assignment_body(self) -> List[str]:
-        return self._try_getattr_else_call_func('_assignment_body', self.load)
-
-    def _file_body_to_assignment_body(self):
-        """
-        Warning: Assumes that imports come first, then an assignment section. May have
-        issues when imports come later
-        Returns:
-
-        """
-        if self.body is not None:
-            import_lines, assignment_lines = _split_lines_into_import_and_assignment(self.body)
-            self._assignment_body = assignment_lines
-        else:
-            self._assignment_body = []
-
diff --git a/pyfileconf/io/file/load/parsers/defined.py b/pyfileconf/io/file/load/parsers/defined.py
new file mode 100644
index 0000000..94dbab2
--- /dev/null
+++ b/pyfileconf/io/file/load/parsers/defined.py
@@ -0,0 +1,55 @@
+import ast
+from typing import Set
+
+
+class DefinedNameExtractor(ast.NodeVisitor):
+    """
+    Collects the names a module defines in any way: assignments, imports, loops, functions, classes, etc.
+    """
+
+    def __init__(self):
+        self.names: Set[str] = set()
+
+    def visit_Name(self, node):
+        if isinstance(node.ctx, ast.Store):
+            self.names.add(node.id)
+
+    def visit_AnnAssign(self, node):
+        if node.value is not None:
+            # Otherwise is only an annotation, does not define
+            self.generic_visit(node)
+
+    def visit_alias(self, node):
+        self.names.add(node.asname or node.name.split('.')[0])
+
+    def _visit_definition(self, node):
+        self.names.add(node.name)
+        # don't go into children, names are local to the function or class
+
+    visit_FunctionDef = _visit_definition
+    visit_AsyncFunctionDef = _visit_definition
+    visit_ClassDef = _visit_definition
+
+    def _visit_pattern(self, node):
+        if node.name is not None:
+            self.names.add(node.name)
+        self.generic_visit(node)
+
+    visit_MatchAs = _visit_pattern
+    visit_MatchStar = _visit_pattern
+
+    def _skip(self, node):
+        pass
+
+    # Names are local to the expression
+    visit_Lambda = _skip
+    visit_ListComp = _skip
+    visit_SetComp = _skip
+    visit_DictComp = _skip
+    visit_GeneratorExp = _skip
+
+
+def extract_defined_names_from_ast(module: ast.AST) -> Set[str]:
+    dne = DefinedNameExtractor()
+    dne.visit(module)
+    return dne.names
diff --git a/pyfileconf/io/file/write/config.py b/pyfileconf/io/file/write/config.py
index 4859e1d..4b49b5a 100644
--- a/pyfileconf/io/file/write/config.py
+++ b/pyfileconf/io/file/write/config.py
@@ -1,19 +1,142 @@
-from typing import List, TYPE_CHECKING
+import ast
+import re
+from typing import List, Optional, Set, Tuple, TYPE_CHECKING
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
+from pyfileconf.io.file.load.parsers.defined import extract_defined_names_from_ast
 from pyfileconf.io.file.write.base import FileStr
 
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
+from pyfileconf.imports.models.statements.interfaces import AnyImportStatement
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 
 class ConfigFileStr(FileStr):
 
     def __init__(self, config: 'ConfigBase', existing_imports: ImportStatementContainer,
                  existing_assigns: AssignmentStatementContainer, existing_body: List[str]):
+        """
+
+        Args:
+            config:
+            existing_imports:
+            existing_assigns:
+            existing_body: all the lines of the existing file, including line endings
+        """
         super().__init__(
             config,
             existing_imports=existing_imports,
             existing_assigns=existing_assigns,
             existing_body=existing_body
-        )
\ No newline at end of file
+        )
+
+    def _create_str(self, import_assignment_obj, existing_imports: ImportStatementContainer,
+                    existing_assigns: AssignmentStatementContainer, existing_body: List[str]) -> str:
+        """
+        Keeps the existing file as it is, and adds only what it does not define yet
+        """
+        existing_str = ''.join(existing_body)
+        if existing_str.strip() == '':
+            return super()._create_str(
+                import_assignment_obj,
+                existing_imports=existing_imports,
+                existing_assigns=existing_assigns,
+                existing_body=[]
+            )
+
+        module = ast.parse(existing_str)
+        defined_names = extract_defined_names_from_ast(module)
+        possibly_new_imports, possibly_new_assigns = import_assignment_obj.as_imports_and_assignments()
+
+        new_imports = ImportStatementContainer([])
+        for imp in possibly_new_imports:
+            if imp not in existing_imports:
+                new_imports.append_if_missing(imp)
+
+        new_assigns_begin: List[str] = []
+        new_assigns_end: List[str] = []
+        for assign in possibly_new_assigns:
+            if assign.varname not in defined_names:
+                new_assigns = new_assigns_begin if assign.prefer_beginning else new_assigns_end
+                new_assigns.append(_to_line(assign))
+
+        # Imports of names which the file defines must not replace them, so must come before
+        first_imports: List[str] = []
+        last_imports: List[str] = []
+        for imp in new_imports:
+            if imp.prefer_beginning or not defined_names.isdisjoint(_names_defined_by_import(imp)):
+                first_imports.append(_to_line(imp))
+            else:
+                last_imports.append(_to_line(imp))
+
+        lines = [_to_line(line) for line in existing_body]
+        begin_imports, end_imports = _get_import_section(module, lines)
+        header, imports, body = lines[:begin_imports], lines[begin_imports:end_imports], lines[end_imports:]
+
+        if new_assigns_begin:
+            new_assigns_begin.insert(0, '\n')
+        elif last_imports + first_imports and not imports:
+            # Separate imports from the existing content
+            last_imports.append('\n')
+
+        if not any([first_imports, last_imports, new_assigns_begin, new_assigns_end]):
+            return existing_str
+
+        return ''.join(header + first_imports + imports + last_imports + new_assigns_begin + body + new_assigns_end)
+
+
+def _to_line(obj) -> str:
+    line = str(obj)
+    return line if line.endswith('\n') else line + '\n'
+
+
+def _names_defined_by_import(imp: AnyImportStatement) -> Set[str]:
+    return {
+        item.split('.')[0] if rename is None else rename.new_name for item, rename in imp.items_and_renames
+    }
+
+
+def _get_import_section(module: ast.Module, lines: List[str]) -> Tuple[int, int]:
+    """
+    Gets the numbers of lines before and through the imports at the beginning of the file. The
+    former are those which must stay first in the file.
+    """
+    statements = list(module.body)
+
+    begin = 0
+    while begin < min(2, len(lines)) and re.match(r'#!|[ \t\f]*#.*?coding[:=]', lines[begin]):
+        begin += 1
+    if statements and _is_docstring(statements[0]):
+        begin = _end_line(module, lines, statements.pop(0))
+    while statements and isinstance(statements[0], ast.ImportFrom) and statements[0].module == '__future__':
+        begin = _end_line(module, lines, statements.pop(0))
+
+    end = begin
+    while statements and isinstance(statements[0], (ast.Import, ast.ImportFrom)):
+        end = max(end, _end_line(module, lines, statements.pop(0)))
+
+    return begin, end
+
+
+def _is_docstring(statement: ast.stmt) -> bool:
+    return (
+        isinstance(statement, ast.Expr) and
+        isinstance(statement.value, ast.Constant) and
+        isinstance(statement.value.value, str)
+    )
+
+
+def _end_line(module: ast.Module, lines: List[str], statement: ast.stmt) -> int:
+    """
+    Number of the line after which no statement of the file is split
+    """
+    end: int = statement.end_lineno  # type: ignore
+    previous: Optional[int] = None
+    while end != previous:
+        previous = end
+        for other in module.body:
+            if other.lineno <= end < other.end_lineno:  # type: ignore
+                end = other.end_lineno  # type: ignore
+        if end < len(lines) and lines[end - 1].endswith('\\\n'):
+            end += 1
+    return end
-- 
2.43.0


From 9e824bce0d8457a356b3dbfb2cca2462541285db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 34/62] fix: keyword-only arguments without a default get a
 config entry and receive it

---
 pyfileconf/imports/logic/load/func.py | 5 ++---
 pyfileconf/io/func/load/config.py     | 3 +++
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 9b31e3b..60285c1 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -21,9 +21,8 @@ def function_args_as_dict(func: Callable):
 
     # Handle kwargs
     for kwarg in args.kwonlyargs:
-        if args.kwonlydefaults:
-            default = args.kwonlydefaults[kwarg] if kwarg in args.kwonlydefaults else None
-            out_dict.update({kwarg: default})
+        default = args.kwonlydefaults[kwarg] if kwarg in (args.kwonlydefaults or {}) else None
+        out_dict.update({kwarg: default})
 
     return out_dict
 
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a6faea1..a643782 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -39,6 +39,9 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     # Handle kwargs
     for i, kwarg in enumerate(args.kwonlyargs):
         default = args.kw_defaults[i]
+        if default is None:
+            # No default value
+            default = ast.NameConstant(value=None)
         arg_dict[kwarg.arg] = default
         if kwarg.annotation is not None:
             annotation_dict[kwarg.arg] = _strip_ast_quotes_if_necessary(kwarg.annotation)
-- 
2.43.0


From 3d58f68dce82de102340d16a2037f30eddf79ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:50 +0000
Subject: [PATCH 35/62] fix: functions with a wrapping decorator and classes
 not naming self receive their config

---
 pyfileconf/imports/logic/load/func.py  | 45 +++++++-------------------
 pyfileconf/imports/logic/load/klass.py | 16 +--------
 2 files changed, 12 insertions(+), 49 deletions(-)

diff --git a/pyfileconf/imports/logic/load/func.py b/pyfileconf/imports/logic/load/func.py
index 60285c1..b3d6b5b 100644
--- a/pyfileconf/imports/logic/load/func.py
+++ b/pyfileconf/imports/logic/load/func.py
@@ -3,43 +3,20 @@ import inspect
 
 
 def function_args_as_dict(func: Callable):
-    args = inspect.getfullargspec(func)
-    out_dict = {}
+    if inspect.isclass(func):
+        # Arguments of the constructor. For methods and classmethods the first argument (self, cls) is
+        # already ignored, here it is that of a regular function
+        params = list(inspect.signature(func.__init__).parameters.values())[1:]  # type: ignore
+    else:
+        params = list(inspect.signature(func).parameters.values())
 
-    # for methods and classmethods, want to ignore the first argument (self, cls)
-    if inspect.ismethod(func):
-        del args.args[0] # delete self arg
-
-    # Handle args
-    num_no_default_value = _get_length_of_arg_section(args.args) - _get_length_of_arg_section(args.defaults)
-    all_defaults = [None] * num_no_default_value + _get_list_of_arg_section(args.defaults)
-    assert len(all_defaults) == _get_length_of_arg_section(args.args)
-
-    for i, arg in enumerate(args.args):
-        default = all_defaults[i]
-        out_dict.update({arg: default})
-
-    # Handle kwargs
-    for kwarg in args.kwonlyargs:
-        default = args.kwonlydefaults[kwarg] if kwarg in (args.kwonlydefaults or {}) else None
-        out_dict.update({kwarg: default})
-
-    return out_dict
+    return {
+        param.name: None if param.default is param.empty else param.default
+        for param in params
+        if param.kind in (param.POSITIONAL_OR_KEYWORD, param.KEYWORD_ONLY)
+    }
 
 
 def get_variable_name_of_obj(obj: Any) -> str:
     return [key for key, value in globals().items() if value == obj][0]
 
-
-def _get_length_of_arg_section(section):
-    if section is None:
-        return 0
-
-    return len(section)
-
-
-def _get_list_of_arg_section(section):
-    if section is None:
-        return []
-
-    return list(section)
\ No newline at end of file
diff --git a/pyfileconf/imports/logic/load/klass.py b/pyfileconf/imports/logic/load/klass.py
index 90945eb..ffbaa9a 100644
--- a/pyfileconf/imports/logic/load/klass.py
+++ b/pyfileconf/imports/logic/load/klass.py
@@ -4,18 +4,4 @@ from pyfileconf.imports.logic.load.func import function_args_as_dict
 
 
 def class_function_args_as_dict(klass: Type) -> Dict[str, Any]:
-    """
-    To be used on regular methods of a class e.g. ExampleClass.__init__, not on methods of an instance of the class
-    """
-    arg_dict = function_args_as_dict(klass.__init__)
-
-    # TODO [#35]: handle removing first argument from __init__, may not be named self
-    #
-    # Current implementation depends on the argument being named self. This seems to
-    # be a hard problem in general without a great solution. See
-    # https://stackoverflow.com/a/47599893
-
-    # Remove self from arguments
-    arg_dict = {key: value for key, value in arg_dict.items() if key != 'self'}
-
-    return arg_dict
+    return function_args_as_dict(klass)
-- 
2.43.0


From 23e501ae38bc2ce0023a1cf2aa3a4f488badbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:16 +0000
Subject: [PATCH 36/62] fix: defaults and annotations with builtins, local
 names, lambdas, classes and functions of the module can be scaffolded

---
 pyfileconf/io/file/load/parsers/defined.py |  12 ++
 pyfileconf/io/file/load/parsers/extname.py |  32 ++++-
 pyfileconf/io/func/load/args.py            |   3 +-
 pyfileconf/io/func/load/config.py          |   5 +-
 pyfileconf/io/func/load/extractimp.py      | 146 +++++++--------------
 5 files changed, 92 insertions(+), 106 deletions(-)

diff --git a/pyfileconf/io/file/load/parsers/defined.py b/pyfileconf/io/file/load/parsers/defined.py
index 94dbab2..42d8acf 100644
--- a/pyfileconf/io/file/load/parsers/defined.py
+++ b/pyfileconf/io/file/load/parsers/defined.py
@@ -49,7 +49,19 @@ class DefinedNameExtractor(ast.NodeVisitor):
     visit_GeneratorExp = _skip
 
 
+class DefinedExceptImportedNameExtractor(DefinedNameExtractor):
+
+    def visit_alias(self, node):
+        pass
+
+
 def extract_defined_names_from_ast(module: ast.AST) -> Set[str]:
     dne = DefinedNameExtractor()
     dne.visit(module)
     return dne.names
+
+
+def extract_defined_except_imported_names_from_ast(module: ast.AST) -> Set[str]:
+    dne = DefinedExceptImportedNameExtractor()
+    dne.visit(module)
+    return dne.names
diff --git a/pyfileconf/io/file/load/parsers/extname.py b/pyfileconf/io/file/load/parsers/extname.py
index c4767c9..fedc74a 100644
--- a/pyfileconf/io/file/load/parsers/extname.py
+++ b/pyfileconf/io/file/load/parsers/extname.py
@@ -47,12 +47,42 @@ def extract_external_name_from_assign_value(ast_node: ast.AST) -> Optional[str]:
     return ne.names[0]
 
 
+class FreeNameExtractor(NameExtractor):
+    """
+    Skips names which are local to a part of the expression, i.e. those of lambdas and comprehensions
+    """
+
+    def visit_Lambda(self, node):
+        self.visit(node.args)
+        args = [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs, node.args.vararg, node.args.kwarg]
+        self._extend_except(node.body, [arg.arg for arg in args if arg is not None])
+
+    def _visit_comprehension(self, node):
+        local_names = [
+            child.id for child in ast.walk(node) if isinstance(child, ast.Name) and isinstance(child.ctx, ast.Store)
+        ]
+        # Source of the first loop is outside of the comprehension
+        self.visit(node.generators[0].iter)
+        for child in ast.iter_child_nodes(node):
+            self._extend_except(child, local_names)
+
+    visit_ListComp = _visit_comprehension
+    visit_SetComp = _visit_comprehension
+    visit_DictComp = _visit_comprehension
+    visit_GeneratorExp = _visit_comprehension
+
+    def _extend_except(self, node: ast.AST, local_names: List[str]):
+        extractor = self.__class__()
+        extractor.visit(node)
+        self.names.extend(name for name in extractor.names if name not in local_names)
+
+
 def extract_unique_external_names_from_assign_value(ast_node: ast.AST) -> List[str]:
     """
     Same as extract_external_name_from_assign_value but returns a list always, can return multiple names,
     and drops duplicates in the returned names
     """
-    ne = NameExtractor()
+    ne = FreeNameExtractor()
     ne.visit(ast_node)
 
     return list(set(ne.names))
diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index 2c2ef51..d8d6b2f 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -13,6 +13,7 @@ from pyfileconf.imports.models.statements.interfaces import (
     AnyImportStatement
 )
 
+from pyfileconf.io.file.load.parsers.defined import extract_defined_except_imported_names_from_ast
 from pyfileconf.io.file.load.parsers.funcdef import extract_function_definition_or_class_init_from_ast_by_name
 from pyfileconf.io.file.load.lazy.base.impassign import ImportAssignmentLazyLoader
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
@@ -72,7 +73,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
         function_arg_imports = extract_import_statements_from_function_args_imports_and_assigns(
             ast_function_def.args,
             loader.imports,
-            loader.assigns,
+            extract_defined_except_imported_names_from_ast(loader.ast),
             imp.module
         )
         return ast_function_def.args, function_arg_imports
diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index a643782..4d98613 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -64,8 +64,7 @@ def _get_list_of_arg_section(section):
 
 
 def _strip_ast_quotes_if_necessary(node: ast.AST) -> ast.AST:
-    if isinstance(node, ast.Str):
+    if isinstance(node, ast.Constant) and isinstance(node.value, str):
         # Got a quoted annotation such as 'DataPipeline'. Strip the quotes
-        str_value = node.s
-        return ast.Name(str_value)
+        return ast.parse(node.value.strip(), mode='eval').body
     return node
diff --git a/pyfileconf/io/func/load/extractimp.py b/pyfileconf/io/func/load/extractimp.py
index 2ebbcb3..4bbba3f 100644
--- a/pyfileconf/io/func/load/extractimp.py
+++ b/pyfileconf/io/func/load/extractimp.py
@@ -1,123 +1,67 @@
-from typing import List, cast
+from typing import List, Set
 import ast
+import builtins
 import warnings
 
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.io.func.load.config import function_args_as_arg_and_annotation_dict
 from pyfileconf.io.file.load.parsers.extname import extract_unique_external_names_from_assign_value
 from pyfileconf.imports.models.statements.container import ImportStatementContainer, ObjectImportStatement
-from pyfileconf.assignments.models.container import AssignmentStatementContainer
-from pyfileconf.logic.inspect import _is_str_matching_builtin_type
 
 def extract_import_statements_from_function_args_imports_and_assigns(args: ast.arguments,
                                                                      imports: ImportStatementContainer,
-                                                                     assigns: AssignmentStatementContainer,
+                                                                     defined_names: Set[str],
                                                                      current_module_section_path_str: str,
                                                                      ) -> ImportStatementContainer:
     defaults_dict, annotation_dict = function_args_as_arg_and_annotation_dict(args)
 
-    # Extract external names. These are the root names (not attrs, the base of attrs) for anything that is not builtin
-    external_names = _unique_external_names_from_default_dict_and_annotation_dict(defaults_dict, annotation_dict)
+    # Extract external names. These are the root names (not attrs, the base of attrs)
+    external_names: List[str] = []
+    quoted_names: List[str] = []
+    for value in [*defaults_dict.values(), *annotation_dict.values()]:
+        external_names.extend(extract_unique_external_names_from_assign_value(value))
+    for annotation in annotation_dict.values():
+        quoted_names.extend(_extract_names_from_quoted_parts_of_annotation(annotation))
 
     out_imports = ImportStatementContainer([])
-
-    # External names may be either due to assignment or due to imports
-    # Handle names due to assignment
-    for name in external_names:
-        if assigns.contains_varname(name):
-            # External name is due to assignment in this module. Create import from this module
-            out_imports.append(ObjectImportStatement.from_str(f'from {current_module_section_path_str} import {name}'))
-
-    # Handle names which are imported into this file
-    for name in external_names:
-        import_or_none = imports.get_import_for_module_or_obj_name(name)
-        if import_or_none is not None:
-            out_imports.append(import_or_none)
+    missing_names: List[str] = []
+
+    for name in sorted({*external_names, *quoted_names}):
+        import_from_this_module = ObjectImportStatement([name], current_module_section_path_str)
+        if name in defined_names:
+            # External name is defined in this module
+            out_imports.append(import_from_this_module)
+            continue
+        try:
+            # Name is imported into this file
+            out_imports.append(imports.get_import_for_module_or_obj_name(name))
+        except NoImportMatchingNameException:
+            if hasattr(builtins, name) or name not in external_names:
+                continue
+            if '*' in imports.objs:
+                # Name is imported into this file by importing everything from another module
+                out_imports.append(import_from_this_module)
+            else:
+                missing_names.append(name)
 
     # Sanity check, did we find all the imports?
-    n_external = len(external_names)
-    n_imports = len(out_imports)
-    if n_external != n_imports:
-        warnings.warn(f'had {n_external} external names from function definition, only '
-                      f'found {n_imports} imports. May be missing imports')
+    if missing_names:
+        warnings.warn(f'could not find where {", ".join(missing_names)} of function definition '
+                      f'come from. May be missing imports')
 
     return out_imports
 
-def _unique_external_names_from_default_dict_and_annotation_dict(default_dict: dict,
-                                                                 annotation_dict: dict) -> List[str]:
-    names = _unique_external_names_from_assignment_dict(default_dict)
-    names += _unique_external_names_from_annotation_dict(annotation_dict)
-
-    return list(set(names))
-
-def _unique_external_names_from_multiple_assignment_dicts(*assignment_dicts) -> List[str]:
-    all_names: List[str] = []
-    for assignment_dict in assignment_dicts:
-        all_names += _unique_external_names_from_assignment_dict(assignment_dict)
-    return list(set(all_names))
-
-def _unique_external_names_from_assignment_dict(assignment_dict: dict) -> List[str]:
-    names = []
-    for key, value in assignment_dict.items():
-        new_names = extract_unique_external_names_from_assign_value(value)
-        names.extend(new_names)
-    no_none_names: List[str] = [name for name in names if name is not None]
-    return list(set(no_none_names))
-
-def _unique_external_names_from_annotation_dict(annotation_dict: dict) -> List[str]:
-    type_str_names = _extract_unique_type_str_names_from_annotation_dict(annotation_dict)
-    return [type_str for type_str in type_str_names if not _is_str_matching_builtin_type(type_str)]
-
-def _extract_unique_type_str_names_from_annotation_dict(annotation_dict: dict) -> List[str]:
-    names = []
-    for value in annotation_dict.values():
-        names.extend(_extract_str_names_from_ambiguous_annotation(value))
-
-    return list(set(names))
-
-def _extract_str_names_from_ambiguous_annotation(annotation) -> List[str]:
-    # TODO [#26]: remove type ignores once typeshed has better ast support
-    #
-    # Hitting errors "expr" has no attribute "id" and  "slice" has no attribute "value"
-
-    names = []
-    if isinstance(annotation, ast.Name):
-        names.append(annotation.id)  # handles most types
-    elif hasattr(annotation, 'elts'):  # type: ignore
-        # got multiple values, e.g. List[str, bool]
-        # in this case, value.slice.value is a Tuple, and Tuple.elts contains the items
-        names.extend(_extract_str_names_from_tuple(annotation)) # type: ignore
-    elif isinstance(annotation, ast.Index):
-        # e.g. [str]
-        # use .value to extract the str part, but then as it can be anything, call recursively on this
-        names.extend(_extract_str_names_from_ambiguous_annotation(annotation.value))
-    elif isinstance(annotation, ast.Subscript):
-        # E.g. Tuple[int]
-        names.extend(_extract_str_names_from_subscript(annotation))
-    elif isinstance(annotation, ast.Attribute):
-        # E.g. pd.DataFrame
-        names.append(annotation.value.id)  # type: ignore
-    elif isinstance(annotation, ast.Str):
-        # E.g. 'DataPipeline' (quoted type declaration where type was imported if TYPE_CHECKING)
-        names.append(annotation.s)
-    else:
-        raise NotImplementedError(f'no handling for {annotation} of type {type(annotation)}')
-
-    return names
-
-def _extract_str_names_from_subscript(subscript: ast.Subscript) -> List[str]:
-    names = []
-
-    # for example, List[str]
-    outer_ast = subscript.value  # List portion
-    inner_ast = subscript.slice  # [str] portion
-
-    names.extend(_extract_str_names_from_ambiguous_annotation(outer_ast))
-    names.extend(_extract_str_names_from_ambiguous_annotation(inner_ast))
 
+def _extract_names_from_quoted_parts_of_annotation(annotation: ast.AST) -> List[str]:
+    """
+    E.g. Optional['DataPipeline'] -> ['DataPipeline']
+    """
+    names: List[str] = []
+    for node in ast.walk(annotation):
+        if isinstance(node, ast.Constant) and isinstance(node.value, str):
+            try:
+                quoted = ast.parse(node.value.strip(), mode='eval')
+            except (SyntaxError, ValueError):
+                continue  # not a type, e.g. Literal['a b']
+            names.extend(extract_unique_external_names_from_assign_value(quoted))
     return names
-
-def _extract_str_names_from_tuple(tuple: ast.Tuple) -> List[str]:
-    names = []
-    for item in tuple.elts:
-        names.extend(_extract_str_names_from_ambiguous_annotation(item))
-    return names
\ No newline at end of file
-- 
2.43.0


From af877ceb65cbb993e866425f49c56078b4e4484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:16 +0000
Subject: [PATCH 37/62] fix: relative imports are followed when extracting
 arguments of functions

---
 pyfileconf/io/func/load/args.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index d8d6b2f..c34f18f 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,4 +1,5 @@
 import ast
+import os
 from typing import TYPE_CHECKING, Tuple, Optional, cast
 
 from pyfileconf.exceptions.imports import NoImportStatementException
@@ -52,12 +53,8 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     loader = ImportAssignmentLazyLoader(filepath)
 
-    # TODO [#44]: handle relative nested imports such as from .this import that
-    #
-    # This code keeps importing and checking whether the name is defined in the file. If not,
-    # it follows the next import. This doesn't properly work if one of those followed imports
-    # is a relative import such as `from .this import that`. Add test to show this and
-    # also fix it.
+    # Keep importing and checking whether the name is defined in the file. If not, follow the next import.
+    imports = _with_absolute_imports(loader.imports, imp.module, filepath)
 
     ast_function_def = extract_function_definition_or_class_init_from_ast_by_name(
         loader.ast,
@@ -72,7 +69,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
             del ast_function_def.args.args[0]  # delete first arg (self)
         function_arg_imports = extract_import_statements_from_function_args_imports_and_assigns(
             ast_function_def.args,
-            loader.imports,
+            imports,
             extract_defined_except_imported_names_from_ast(loader.ast),
             imp.module
         )
@@ -80,7 +77,7 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     # Else, this function must have been imported into this file as well.
     # Must find the matching import, the extract args from that import
-    next_level_import = loader.imports.get_import_for_module_or_obj_name(function_name)
+    next_level_import = imports.get_import_for_module_or_obj_name(function_name)
     if next_level_import is None:
         raise ValueError(f'not able to find function definition for {function_name}. Could not '
                          f'find in definitions or in imports')
@@ -98,6 +95,22 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
     )
 
 
+def _with_absolute_imports(imports: ImportStatementContainer, module: str, filepath: str) -> ImportStatementContainer:
+    """
+    Relative imports such as from .this import that have a meaning only within the module they are in
+    """
+    is_package = os.path.basename(filepath) == '__init__.py'
+    package = module if is_package else module.rpartition('.')[0]
+
+    out_imports = ImportStatementContainer([])
+    for imp in imports:
+        if package and isinstance(imp, ObjectImportStatement) and imp.module.startswith('.'):
+            imp = ObjectImportStatement(imp.objs, resolve_name(imp.module, package), renames=imp.renames)
+        out_imports.append(imp)
+
+    return out_imports
+
+
 def get_module_filepath_from_import(imp: Optional[AnyImportStatement], import_section_path_str: Optional[str]):
     if imp is None:
         return None
-- 
2.43.0


From fac6693760d58f914ce8bd57c8fb999b5f353c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:48 +0000
Subject: [PATCH 38/62] fix: functions with defaults of positional-only
 arguments can be scaffolded

---
 pyfileconf/io/func/load/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/io/func/load/config.py b/pyfileconf/io/func/load/config.py
index 4d98613..479e0a8 100644
--- a/pyfileconf/io/func/load/config.py
+++ b/pyfileconf/io/func/load/config.py
@@ -26,9 +26,10 @@ def function_args_as_arg_and_annotation_dict(args: ast.arguments) -> Tuple[dict,
     annotation_dict = {}
 
     # Handle args
-    num_no_default_value = _get_length_of_arg_section(args.args) - _get_length_of_arg_section(args.defaults)
-    all_defaults = [ast.NameConstant(value=None)] * num_no_default_value + _get_list_of_arg_section(args.defaults)
-    assert len(all_defaults) == _get_length_of_arg_section(args.args)
+    # Defaults may start with those of positional-only arguments, which cannot be configured
+    num_args = _get_length_of_arg_section(args.args)
+    defaults = _get_list_of_arg_section(args.defaults)[-num_args:] if num_args else []
+    all_defaults = [ast.NameConstant(value=None)] * (num_args - len(defaults)) + defaults
 
     for i, arg in enumerate(args.args):
         default = all_defaults[i]
-- 
2.43.0


From 03caf16b385d2f59705612b9b5e8de8f9c1d6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 39/62] fix: entries can be created next to existing items,
 dictionaries within lists and quoted sections

---
 pyfileconf/dictfiles/modify.py | 138 ++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 69 deletions(-)

diff --git a/pyfileconf/dictfiles/modify.py b/pyfileconf/dictfiles/modify.py
index 6bb6fdd..73424b4 100644
--- a/pyfileconf/dictfiles/modify.py
+++ b/pyfileconf/dictfiles/modify.py
@@ -3,6 +3,7 @@ from typing import Optional, Union
 
 import black
 
+from pyfileconf.io.file.write.asttosource import ast_node_to_source
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
 
@@ -17,77 +18,76 @@ def add_item_into_nested_dict_at_section_path(nested_dict: dict, section_path: S
     :param item:
     :return:
     """
-    current_dict = nested_dict
-    for i, section in enumerate(section_path):
-        if i <= len(section_path) - 2:
-            # Up until the next to last item, pull out the nested dicts, creating if necessary
-            try:
-                current_dict = current_dict[section]
-                # Section already exists, keep navigating deeper
-            except KeyError:
-                # Section does not yet exist, create it, then navigate into it
-                current_dict[section] = {}
-                current_dict = current_dict[section]
-        if i == len(section_path) - 1:
-            # Reached final section. Because we only went up until the next to last item pulling out
-            # nested dicts, current_dict should now be the dict which contains the container for
-            # the item to be stored.
-
-            # Need to create entry in this section.
-            new_entry: Union[str, ast.Name]
-            if add_as_ast_name:
-                new_entry = ast.Name(item)
-            else:
-                new_entry = item
-
-            # First see if there is already an existing section
-            try:
-                last_container = current_dict[section]
-            except KeyError:
-                # No last section, create it
-                current_dict[section] = []
-                last_container = current_dict[section]
-
-            if not isinstance(last_container, list):
-                raise ValueError('trying to insert item into existing dictionary section, must be existing '
-                                 'list section or non-existent section')
-
-            last_container.append(new_entry)
-
-
-def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict, existing_str: Optional[str] = None,
+    container: Union[dict, list] = nested_dict
+    # Up until the next to last section, pull out the nested containers, creating if necessary
+    for section in section_path[:-1]:
+        container = _get_dict_for_section(container, section).setdefault(section, {})
+
+    # Reached final section, which should be the container for the item to be stored.
+    last_container = _get_dict_for_section(container, section_path[-1]).setdefault(section_path[-1], [])
+
+    if not isinstance(last_container, list):
+        raise ValueError('trying to insert item into existing dictionary section, must be existing '
+                         'list section or non-existent section')
+
+    if any(isinstance(existing, dict) and item in existing for existing in last_container):
+        raise ValueError(f'trying to insert item {item} but there is already a section of the same name')
+
+    if any(_item_name(existing) == item for existing in last_container):
+        return  # Already have this entry
+
+    last_container.append(ast.Name(item) if add_as_ast_name else item)
+
+
+def _get_dict_for_section(container: Union[dict, list], section: str) -> dict:
+    """
+    Gets the dictionary which has the section or to which it should be added
+    """
+    if isinstance(container, dict):
+        return container
+
+    if not isinstance(container, list):
+        raise ValueError(f'trying to insert section {section} into {container} which is not a section')
+
+    # Section which contains items, it may have further sections as dictionaries between the items
+    for item in container:
+        if isinstance(item, dict) and section in item:
+            return item
+        if _item_name(item) == section:
+            raise ValueError(f'trying to insert section {section} but there is already an item of the same name')
+
+    new_dict: dict = {}
+    container.append(new_dict)
+    return new_dict
+
+
+def _item_name(item: Union[ast.AST, str, dict]) -> Optional[str]:
+    if isinstance(item, str):
+        return item
+    if isinstance(item, ast.Name):
+        return item.id
+    return None
+
+
+def create_dict_assignment_str_from_nested_dict_with_ast_names(nested_dict: dict,
                                                                assign_to_name: str = 'pipeline_dict') -> str:
-    if existing_str is None:
-        use_str = f'{assign_to_name} = {{'
+    # Pretty print the string using black formatter
+    return pretty_format_str(f'{assign_to_name} = {_dict_value_to_str(nested_dict)}')
+
+
+def _dict_value_to_str(value: Union[ast.AST, str, list, dict]) -> str:
+    if isinstance(value, ast.AST):
+        return ast_node_to_source(value).strip()
+    elif isinstance(value, str):
+        return value
+    elif isinstance(value, list):
+        # Lists may have further sections as dictionaries in them
+        return '[' + ''.join(f'{_dict_value_to_str(item)},' for item in value) + ']'
+    elif isinstance(value, dict):
+        return '{' + ''.join(f'{key!r}: {_dict_value_to_str(item)},' for key, item in value.items()) + '}'
     else:
-        use_str = ''
-
-    for key, value in nested_dict.items():
-        use_str += f'"{key}": '
-        if isinstance(value, ast.Name):
-            use_str += value.id + ','
-        elif isinstance(value, str):
-            use_str += value + ','
-        elif isinstance(value, list):
-            use_str += '['
-            for item in value:
-                use_str += item.id + ','
-            use_str += '],'
-        elif isinstance(value, dict):
-            use_str += '{'
-            use_str += create_dict_assignment_str_from_nested_dict_with_ast_names(value, use_str)
-            use_str += '},'
-        else:
-            raise ValueError(f'could not parse object {value} of type {type(value)} in '
-                             f'creating pipeline dict str')
-
-    if existing_str is None:
-        # Must be finishing top-level operation, finish str
-        use_str += '}'
-        # Pretty print the string using black formatter
-        use_str = pretty_format_str(use_str)
-
-    return use_str
+        raise ValueError(f'could not parse object {value} of type {type(value)} in '
+                         f'creating pipeline dict str')
 
 
 def pretty_format_str(string: str) -> str:
-- 
2.43.0


From c90fbc265b53a5dbf38990194020877b638f4630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 40/62] fix: created entries and specific classes are imported
 from their own module

---
 pyfileconf/imports/logic/load/name.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyfileconf/imports/logic/load/name.py b/pyfileconf/imports/logic/load/name.py
index 0e92b0b..4111978 100644
--- a/pyfileconf/imports/logic/load/name.py
+++ b/pyfileconf/imports/logic/load/name.py
@@ -14,6 +14,10 @@ def get_imported_obj_variable_name(obj, module: ModuleType) -> str:
 
 def get_module_and_name_imported_from(obj, search_list: List[str]=None) -> Tuple[ModuleType, str]:
     if search_list is None:
+        if _is_provided_by_own_module(obj):
+            # Prefer the module which defines the object over others which import it, such
+            # as __main__, and may have it under another name
+            return sys.modules[obj.__module__], obj.__module__
         search_list = list(sys.modules.keys())
 
     for module_name in search_list:
@@ -113,6 +117,11 @@ def _obj_in_module(obj, module: ModuleType) -> bool:
 
     return False
 
+def _is_provided_by_own_module(obj) -> bool:
+    name = getattr(obj, '__name__', None)
+    module = sys.modules.get(getattr(obj, '__module__', None))
+    return name is not None and module is not None and getattr(module, name, None) is obj
+
 def _name_in_module(name: str, module: ModuleType) -> bool:
     return name in dir(module)
 
-- 
2.43.0


From aec32ff18b0fa22b1b5f5b7069a22da28955d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 41/62] fix: creating an existing entry again does not run it
 twice

---
 pyfileconf/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index bc1f45e..03a6a3a 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -461,7 +461,11 @@ class PipelineManager:
             set_section_path_str = section_path_str
             scaffold_path_str = full_sp.path_str
 
-        registrar.set(set_section_path_str, registrar_obj)
+        try:
+            registrar.get(scaffold_path_str)
+        except AttributeError:
+            # Not yet registered
+            registrar.set(set_section_path_str, registrar_obj)
         registrar.scaffold_config_for(scaffold_path_str)
         self.reset(full_sp.path_str, allow_create=True)
         logger.debug(f'Finished creating config for {section_path_str}')
-- 
2.43.0


From 675561035549249f2ac88c77770cbbefde825245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:13 +0000
Subject: [PATCH 42/62] fix: creating another function of an imported name does
 not replace the existing entries

---
 pyfileconf/main.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 03a6a3a..b2e64cc 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -20,6 +20,7 @@ from pyfileconf.data.models.dictconfig import SpecificClassDictConfig
 from pyfileconf.debug import pdb_post_mortem_or_passed_debug_fn
 from pyfileconf.dictfiles.modify import add_item_into_nested_dict_at_section_path, \
     create_dict_assignment_str_from_nested_dict_with_ast_names, pretty_format_str
+from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
@@ -540,6 +541,7 @@ class PipelineManager:
         mod, import_base = get_module_and_name_imported_from(func_or_class)
         obj_import = ObjectImportStatement([func_or_class.__name__], import_base)
         imports = ImportStatementContainer([obj_import])
+        _validate_name_is_not_imported_from_elsewhere(func_or_class, obj_import, pipeline_dict_file.interface.imports)
 
         # Modify pipeline dict to add entry
         add_item_into_nested_dict_at_section_path(pipeline_dict, section_path, func_or_class.__name__)
@@ -745,6 +747,25 @@ def create_project(path: str, logs_path: str,
 
 
 
+def _validate_name_is_not_imported_from_elsewhere(func_or_class: Union[Callable, Type],
+                                                  obj_import: ObjectImportStatement,
+                                                  existing_imports: ImportStatementContainer):
+    name = func_or_class.__name__
+    try:
+        existing_import = existing_imports.get_import_for_module_or_obj_name(name)
+    except NoImportMatchingNameException:
+        return
+
+    if existing_import == obj_import:
+        return
+
+    if isinstance(existing_import, ObjectImportStatement) and existing_import.execute() == [func_or_class]:
+        return
+
+    raise ValueError(f'cannot create an entry for {func_or_class} as the pipeline dict file already '
+                     f'has a different {name} from: {existing_import}')
+
+
 def _validate_registrars(registrars: List[SpecificRegistrar], general_registrar: PipelineRegistrar):
     used_names = dir(general_registrar)
     for registrar in registrars:
-- 
2.43.0


From 44adb1380fd65537fffe1508043ccd23cc9333ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 43/62] fix: selectors find items of managers which are loaded,
 reloaded or extended later, and unknown managers are not an error

---
 pyfileconf/selector/models/selector.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/selector/models/selector.py b/pyfileconf/selector/models/selector.py
index dd63d2a..affd7db 100644
--- a/pyfileconf/selector/models/selector.py
+++ b/pyfileconf/selector/models/selector.py
@@ -12,7 +12,6 @@ class Selector:
 
     def __init__(self):
         self._attach_to_pipeline_manager()
-        self._load_structure()
         self._is_selector = True
 
     def __contains__(self, item):
@@ -22,7 +21,12 @@ class Selector:
             warnings.warn('check for if non-str object in Selector will always return False')
             return False
 
-        collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
+        try:
+            collection_obj, relative_section_path = self._get_collection_obj_and_relative_section_path_from_structure(item)
+        except KeyError:
+            # No such manager or it has not been loaded
+            return False
+
         if relative_section_path is None:
             # got only the root data path, e.g. project.sources. Return the collection object itself
             return True
@@ -168,8 +172,9 @@ class Selector:
         from pyfileconf import context
         self._managers = context.active_managers
 
-    def _load_structure(self):
-        from pyfileconf.main import create_collections
+    @property
+    def _structure(self):
+        # Determined on each access, as managers may be created, loaded, and reloaded after the selector is created
         from pyfileconf import PipelineManager
         out_dict = {}
         manager: PipelineManager
@@ -186,7 +191,7 @@ class Selector:
                     collection.name: collection
                 })
             out_dict[manager_name] = manager_dict
-        self._structure = out_dict
+        return out_dict
 
 
 
-- 
2.43.0


From c7eddc674f9ee86ec6e35d7711f2c63357aa0e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 44/62] fix: each specific class dictionary runs its items by
 its own execute_attr

---
 pyfileconf/runner/models/runner.py     | 5 +++--
 pyfileconf/selector/models/itemview.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 99514cd..ab2045c 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -40,7 +40,7 @@ class Runner(ReprMixin):
 
         self._full_getattr = ''
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
-        self._specific_class_registrar_map = {registrar.klass: registrar for registrar in self._registrars}
+        self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
@@ -208,7 +208,8 @@ class Runner(ReprMixin):
         with StackTracker(section_path_str, base_section_path_str=self._manager_name):
             klass, config_dict = self._get_class_and_config(section_path_str)
             obj = self._get_one_obj_with_config(section_path_str)
-            registrar = self._specific_class_registrar_map[klass]
+            # The same class may be in multiple registrars, so take the one which has this item
+            registrar = self._specific_class_registrar_map[SectionPath(section_path_str)[0]]
             execute_attr = registrar.execute_attr
             func = getattr(obj, execute_attr)
 
diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index a20596a..eb3405c 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -118,7 +118,8 @@ class ItemView:
             # Got specific registrar class
             # Need to look up the execute attribute and apply section path str
             actual_item._section_path_str = self.section_path_str
-            collection = self._specific_class_collection_map[type(actual_item)]
+            # The same class may be in multiple collections, so take the one which has this item
+            collection = manager._registrar_dict[collection_name].collection
             execute_attr = collection.execute_attr
             func = getattr(actual_item, execute_attr)
         else:
-- 
2.43.0


From 629388ab9f7e47295b54bd4427574ce8563fe153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:15 +0000
Subject: [PATCH 45/62] fix: sections and items may be named like attributes of
 collections, configs and managers

---
 pyfileconf/basemodels/collection.py       |  9 ++++++---
 pyfileconf/basemodels/registrar.py        |  7 +++++--
 pyfileconf/config/models/manager.py       | 12 +++++++++---
 pyfileconf/config/models/section.py       | 16 +++++++++++++---
 pyfileconf/logic/get.py                   | 11 ++++++++++-
 pyfileconf/logic/set.py                   |  8 ++++++--
 pyfileconf/main.py                        |  3 +++
 pyfileconf/pipelines/models/collection.py |  6 +++++-
 pyfileconf/runner/models/runner.py        |  5 ++++-
 9 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/pyfileconf/basemodels/collection.py b/pyfileconf/basemodels/collection.py
index e482172..d6e0009 100644
--- a/pyfileconf/basemodels/collection.py
+++ b/pyfileconf/basemodels/collection.py
@@ -62,14 +62,17 @@ class Collection(Container, ReprMixin):
                 # a further section is trying to be accessed. Therefore
                 # this section is not in the collection
                 raise AttributeError(section)
-            obj = getattr(obj, section)
+            obj = obj._get_named(section)
         return obj
 
     def __getattr__(self, item):
+        return self._get_named(item)
+
+    def _get_named(self, name: str) -> Any:
         try:
-            return self.name_dict[item]
+            return self.name_dict[name]
         except KeyError:
-            raise AttributeError(f'{item}')
+            raise AttributeError(f'{name}')
 
     def __dir__(self):
         return self.name_dict.keys()
diff --git a/pyfileconf/basemodels/registrar.py b/pyfileconf/basemodels/registrar.py
index 0cd2f03..9f0dcf8 100644
--- a/pyfileconf/basemodels/registrar.py
+++ b/pyfileconf/basemodels/registrar.py
@@ -29,6 +29,9 @@ class Registrar(ReprMixin):
     def __getattr__(self, item):
         return getattr(self.collection, item)
 
+    def _get_named(self, name: str) -> Any:
+        return self.collection._get_named(name)
+
     def __dir__(self):
         exposed_methods = [
             'scaffold_config',
@@ -82,7 +85,7 @@ class Registrar(ReprMixin):
         for i, section in enumerate(section_path):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = getattr(obj, section)
+                obj = obj._get_named(section)
             except AttributeError as e:
                 new_collection = self.collection_class(
                     section_basepath, [], name=section, imports=self.imports,
@@ -91,7 +94,7 @@ class Registrar(ReprMixin):
                     key_attr=self.key_attr, execute_attr=self.execute_attr
                 )
                 obj.append(new_collection)
-                obj = getattr(obj, section)
+                obj = obj._get_named(section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/config/models/manager.py b/pyfileconf/config/models/manager.py
index e0596f9..ab80861 100644
--- a/pyfileconf/config/models/manager.py
+++ b/pyfileconf/config/models/manager.py
@@ -9,7 +9,7 @@ from mixins.repr import ReprMixin
 from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.config.models.file import ActiveFunctionConfigFile
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException, CannotResolveConfigDependenciesException
-from pyfileconf.logic.get import _get_from_nested_obj_by_section_path
+from pyfileconf.logic.get import _get_from_nested_obj_by_section_path, _get_named_from_obj
 from pyfileconf.logic.set import _set_in_nested_obj_by_section_path
 from pyfileconf.config.models.interfaces import ConfigSectionOrConfig
 from pyfileconf.config.models.section import ConfigSection, ActiveFunctionConfig
@@ -29,6 +29,12 @@ class ConfigManager(ReprMixin):
     def __getattr__(self, item):
         return getattr(self.section, item)
 
+    def _get_named(self, name: str):
+        return self.section._get_named(name)
+
+    def _set_named(self, name: str, value):
+        self.section._set_named(name, value)
+
     def __dir__(self):
         exposed_methods = [
             'load',
@@ -302,11 +308,11 @@ class ConfigManager(ReprMixin):
         for i, section in enumerate(section_path[:-1]):
             section_basepath = os.path.join(section_basepath, section)
             try:
-                obj = getattr(obj, section)
+                obj = _get_named_from_obj(obj, section)
             except KeyError as e:
                 new_section = ConfigSection([], name=section)
                 obj.append(new_section)
-                obj = getattr(obj, section)
+                obj = _get_named_from_obj(obj, section)
 
         # Now have collection object which should hold this final object
         obj.append(value)
diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index dc0eea3..8d209ac 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -1,4 +1,4 @@
-from typing import List, Union
+from typing import Any, Dict, List, Union
 import os
 import warnings
 
@@ -17,19 +17,29 @@ class ConfigSection(Container, ReprMixin):
     def __init__(self, configs: List[Union[ActiveFunctionConfigFile, 'ConfigSection']],
                  section_config: ActiveFunctionConfig=None, name: str=None):
         self.config = section_config
+        self._set_configs: Dict[str, Any] = {}
         self.items = configs
         self.name = name
 
     def __getattr__(self, item):
+        return self._get_named(item)
+
+    def _get_named(self, name: str):
         try:
-            return self.config_map[item]
+            # Configs which were set take precedence over those of the files
+            if name in self._set_configs:
+                return self._set_configs[name]
+            return self.config_map[name]
         except KeyError:
             # Handle if trying to get this section's config. Must come after looking for
             # an item or section within this section as it may have the same name
-            if self.config is not None and item == self.config.name:
+            if self.config is not None and name == self.config.name:
                 return self.config
             raise
 
+    def _set_named(self, name: str, value):
+        self._set_configs[name] = value
+
     def __dir__(self):
         return self.config_map.keys()
 
diff --git a/pyfileconf/logic/get.py b/pyfileconf/logic/get.py
index 0301077..8b2e3a6 100644
--- a/pyfileconf/logic/get.py
+++ b/pyfileconf/logic/get.py
@@ -34,11 +34,20 @@ def _get_from_nested_obj_by_section_path(obj, section_path: SectionPath, prevent
             # for some reason it won't work without this try/except block
             pass
 
-        obj = getattr(obj, section)
+        obj = _get_named_from_obj(obj, section)
 
     return obj
 
 
+def _get_named_from_obj(obj, name: str):
+    # Containers of sections and items provide them by name, as sections and items may
+    # have the same names as attributes of the container, such as items, update, or load
+    if hasattr(type(obj), '_get_named'):
+        return obj._get_named(name)
+
+    return getattr(obj, name)
+
+
 def _get_public_name_or_special_name(obj, accept_output_names=True) -> str:
     name_attrs = _get_name_attrs(accept_output=accept_output_names)
     for name_var in name_attrs:
diff --git a/pyfileconf/logic/set.py b/pyfileconf/logic/set.py
index 74a5405..5fd4626 100644
--- a/pyfileconf/logic/set.py
+++ b/pyfileconf/logic/set.py
@@ -1,11 +1,15 @@
 
+from pyfileconf.logic.get import _get_named_from_obj
 from pyfileconf.sectionpath.sectionpath import SectionPath
 
 
 def _set_in_nested_obj_by_section_path(obj, section_path: SectionPath, value) -> None:
     # Goes into nested sections, until it sets the final section or pipeline
     for section in section_path[:-1]:
-        obj = getattr(obj, section)
+        obj = _get_named_from_obj(obj, section)
 
     # Now have object of next level up from object desired to be set
-    setattr(obj, section_path[-1], value)
+    if hasattr(type(obj), '_set_named'):
+        obj._set_named(section_path[-1], value)
+    else:
+        setattr(obj, section_path[-1], value)
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index b2e64cc..08a2c21 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -93,6 +93,9 @@ class PipelineManager:
         # Must be getting function
         return getattr(self.runner, item)
 
+    def _get_named(self, name: str):
+        return self.runner._get_named(name)
+
     def __dir__(self):
         exposed_methods = [
             'run',
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 00e9815..5db502e 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -12,7 +12,11 @@ class PipelineCollection(Collection):
     def _set_name_map(self):
         pipeline_map = {}
         for pipeline_or_collection in self:
-            pipeline_name = _get_public_name_or_special_name(pipeline_or_collection)
+            pipeline_name = _get_public_name_or_special_name(
+                pipeline_or_collection,
+                # A collection does not have an output name, but may have a section of that name
+                accept_output_names=not isinstance(pipeline_or_collection, PipelineCollection)
+            )
             pipeline_map[pipeline_name] = pipeline_or_collection
         self.name_dict = pipeline_map
 
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index ab2045c..7dd91f4 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -44,8 +44,11 @@ class Runner(ReprMixin):
         self._loaded_objects: Dict[str, Any] = {}
 
     def __getattr__(self, item):
+        return self._get_named(item)
+
+    def _get_named(self, name: str):
         # TODO [#15]: find a way to get __getattr__ logic for runner working for sections
-        full_getattr = self._full_getattr + item
+        full_getattr = self._full_getattr + name
         func_or_collection = self._get_func_or_collection(full_getattr)
 
         if isinstance(func_or_collection, (PipelineCollection, SpecificClassCollection)):
-- 
2.43.0


From e81b94728bee6752293fb7172df02f985714fed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 46/62] fix: an error raised by a section config is not ignored
 as a missing section config

---
 pyfileconf/config/models/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/config/models/section.py b/pyfileconf/config/models/section.py
index 8d209ac..ca33636 100644
--- a/pyfileconf/config/models/section.py
+++ b/pyfileconf/config/models/section.py
@@ -100,10 +100,10 @@ class ConfigSection(Container, ReprMixin):
         ]
 
         # Special handling for section config
-        try:
+        if 'section.py' in config_file_list:
             config_file_list.remove('section.py')
             section_config = ActiveFunctionConfig.from_file(os.path.join(basepath, 'section.py'), name=name)
-        except ValueError:
+        else:
             # Didn't find section config
             section_config = None
 
-- 
2.43.0


From 535ba7f3fcf8bc7aed447300fde4c2e05609e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 47/62] fix: interrupted, failed and repeated loads do not
 leave stale modules

---
 pyfileconf/main.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 08a2c21..d6ac356 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -77,6 +77,7 @@ class PipelineManager:
 
         self._registrars: Optional[Sequence[Registrar]] = None
         self._general_registrar: Optional[PipelineRegistrar] = None
+        self._loaded_modules: List[str] = []
 
         self._validate_options()
         context.active_managers[self.name] = self
@@ -317,14 +318,14 @@ class PipelineManager:
 
         try:
             self._load_pipeline_config_and_runner()
-        except Exception as e:
-            # Reset loaded modules from import, completely canceling load so it can be tried again
-            self._loaded_modules = self._import_tracker.imported_modules
-            self._wipe_loaded_modules()
-            self._loaded_modules = [] # modules have been wiped, must be sure they won't be wiped again
+        except BaseException as e:
+            # Reset loaded modules from import, completely canceling load so it can be tried again.
+            # Includes exits and interrupts, after which the load may be tried again as well
+            _wipe_modules(self._import_tracker.imported_modules)
             raise e
 
-        self._loaded_modules = self._import_tracker.imported_modules
+        # Keep modules from prior loads, so that they will be imported again upon reloading
+        self._loaded_modules = self._loaded_modules + self._import_tracker.imported_modules
         logger.debug(f'Finished running load for {self.name}')
 
     def update(self, d_: dict=None, section_path_str: str=None, pyfileconf_persist: bool = True, **kwargs):
@@ -587,7 +588,8 @@ class PipelineManager:
         )
 
     def _wipe_loaded_modules(self):
-        [sys.modules.pop(module) for module in self._loaded_modules]
+        _wipe_modules(self._loaded_modules)
+        self._loaded_modules = []  # modules have been wiped, must be sure they won't be wiped again
 
     def _convert_list_or_single_item_view_or_str_to_strs(self, run_list: 'RunnerArgs') -> Union[str, List[str]]:
         if isinstance(run_list, list):
@@ -725,6 +727,12 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
     logger.error(full_exc_str)
 
 
+def _wipe_modules(modules: Sequence[str]):
+    for module in modules:
+        # May have already been removed by the user
+        sys.modules.pop(module, None)
+
+
 def create_project(path: str, logs_path: str,
                    specific_class_config_dicts: Optional[List[Dict[str, Union[str, Type, List[str]]]]] = None):
     """
-- 
2.43.0


From 45785dc20c41c6bcd797cdccb8c1aeadac7b4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:19 +0000
Subject: [PATCH 48/62] fix: specific class dictionaries may be named like
 methods of registrars

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index d6ac356..75dca90 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -778,7 +778,7 @@ def _validate_name_is_not_imported_from_elsewhere(func_or_class: Union[Callable,
 
 
 def _validate_registrars(registrars: List[SpecificRegistrar], general_registrar: PipelineRegistrar):
-    used_names = dir(general_registrar)
+    used_names = dir(general_registrar.collection)
     for registrar in registrars:
         if registrar.name in used_names:
             raise ValueError(f'cannot use a name for a specific class dict which is already specified in '
-- 
2.43.0


From caf45955ae5a859d07c181551403aaa61191d0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:16 +0000
Subject: [PATCH 49/62] fix: a class dictionary file without its dictionary is
 an empty dictionary, as for pipeline dictionaries

---
 pyfileconf/io/file/load/lazy/dataast.py  | 9 ++++++---
 pyfileconf/io/file/load/lazy/datadict.py | 5 ++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyfileconf/io/file/load/lazy/dataast.py b/pyfileconf/io/file/load/lazy/dataast.py
index ba46245..bbf41da 100644
--- a/pyfileconf/io/file/load/lazy/dataast.py
+++ b/pyfileconf/io/file/load/lazy/dataast.py
@@ -10,9 +10,12 @@ class SpecificClassDictAstLoader(ImportAssignmentLazyLoader):
         # Get ast, imports, assigns
         super().register()
 
-        with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_PIPELINE_FILE_AST):
-            # Store pipeline dict assignment
-            self._class_dict_assign = extract_assignment_from_ast_by_name(self._ast, 'class_dict')
+        # Store class dict assignment
+        if self._ast is not None:
+            with StackTracker(file_path=self.filepath, action=PyfileconfActions.LOAD_PIPELINE_FILE_AST):
+                self._class_dict_assign = extract_assignment_from_ast_by_name(self._ast, 'class_dict')
+        else:
+            self._class_dict_assign = None
 
     @property
     def class_dict_assign(self):
diff --git a/pyfileconf/io/file/load/lazy/datadict.py b/pyfileconf/io/file/load/lazy/datadict.py
index 2b1f996..33ddd9a 100644
--- a/pyfileconf/io/file/load/lazy/datadict.py
+++ b/pyfileconf/io/file/load/lazy/datadict.py
@@ -24,4 +24,7 @@ class SpecificClassDictLoader(SpecificClassDictAstLoader):
         Returns:
 
         """
-        self._class_dict = extract_collection_from_ast(self.class_dict_assign.to_ast(), convert_str_values=True)
+        if self.class_dict_assign is not None:
+            self._class_dict = extract_collection_from_ast(self.class_dict_assign.to_ast(), convert_str_values=True)
+        else:
+            self._class_dict = {}
-- 
2.43.0


From 58171bd39df0dfc6b398d49cbba3acbc77f13964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:16 +0000
Subject: [PATCH 50/62] fix: reloading imports modules of packages which stay
 loaded again

---
 pyfileconf/main.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 75dca90..70355ef 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -728,9 +728,15 @@ def report_runner_exceptions(runner_exceptions: List[RunnerException]) -> None:
 
 
 def _wipe_modules(modules: Sequence[str]):
-    for module in modules:
-        # May have already been removed by the user
-        sys.modules.pop(module, None)
+    # May have already been removed by the user
+    wiped_modules = {name: sys.modules.pop(name, None) for name in modules}
+
+    for name, module in wiped_modules.items():
+        # A package which stays loaded would otherwise still supply the removed module, as its attribute
+        package_name, _, module_name = name.rpartition('.')
+        package = sys.modules.get(package_name)
+        if module is not None and getattr(package, '__dict__', {}).get(module_name) is module:
+            delattr(package, module_name)
 
 
 def create_project(path: str, logs_path: str,
-- 
2.43.0


From ca0ea322dd510f3d00a2b8c0f75c1230595ba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:12 +0000
Subject: [PATCH 51/62] fix: a failing or interrupted write of a config or
 dictionary file does not lose its content

---
 pyfileconf/io/file/interfaces/config.py   |  4 ++--
 pyfileconf/io/file/interfaces/datadict.py |  4 ++--
 pyfileconf/io/file/interfaces/pipeline.py |  4 ++--
 pyfileconf/io/file/write/atomic.py        | 21 +++++++++++++++++++++
 pyfileconf/main.py                        |  7 +++----
 pyfileconf/pipelines/models/collection.py |  4 ++--
 6 files changed, 32 insertions(+), 12 deletions(-)
 create mode 100644 pyfileconf/io/file/write/atomic.py

diff --git a/pyfileconf/io/file/interfaces/config.py b/pyfileconf/io/file/interfaces/config.py
index b0f53d6..031e716 100644
--- a/pyfileconf/io/file/interfaces/config.py
+++ b/pyfileconf/io/file/interfaces/config.py
@@ -3,6 +3,7 @@ if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 
 from pyfileconf.io.file.load.lazy.config import ConfigFileLoader
+from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.io.file.write.config import ConfigFileStr
 
 class ConfigFileInterface(ConfigFileLoader):
@@ -18,5 +19,4 @@ class ConfigFileInterface(ConfigFileLoader):
         if self.body and file_str_obj.file_str == ''.join(self.body):
             return  # Nothing to add to the existing file
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/datadict.py b/pyfileconf/io/file/interfaces/datadict.py
index 7c7c78a..ed20189 100644
--- a/pyfileconf/io/file/interfaces/datadict.py
+++ b/pyfileconf/io/file/interfaces/datadict.py
@@ -5,6 +5,7 @@ if TYPE_CHECKING:
 
 from pyfileconf.assignments.models.container import AssignmentStatementContainer
 from pyfileconf.io.file.load.lazy.datadict import SpecificClassDictLoader
+from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.io.file.write.base import FileStr
 
 
@@ -19,5 +20,4 @@ class SpecificClassDictInterface(SpecificClassDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/interfaces/pipeline.py b/pyfileconf/io/file/interfaces/pipeline.py
index 1cac03f..3e88622 100644
--- a/pyfileconf/io/file/interfaces/pipeline.py
+++ b/pyfileconf/io/file/interfaces/pipeline.py
@@ -5,6 +5,7 @@ from pyfileconf.assignments.models.container import AssignmentStatementContainer
 if TYPE_CHECKING:
     from pyfileconf.basemodels.config import ConfigBase
 from pyfileconf.io.file.load.lazy.pipeline import PipelineDictLoader
+from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.io.file.write.base import FileStr
 
 
@@ -19,5 +20,4 @@ class PipelineDictInterface(PipelineDictLoader):
             existing_body=[]
         )
 
-        with open(self.filepath, 'w', newline='\n', encoding='utf8') as f:
-            f.write(file_str_obj.file_str)
\ No newline at end of file
+        write_file(self.filepath, file_str_obj.file_str)
\ No newline at end of file
diff --git a/pyfileconf/io/file/write/atomic.py b/pyfileconf/io/file/write/atomic.py
new file mode 100644
index 0000000..4809d9c
--- /dev/null
+++ b/pyfileconf/io/file/write/atomic.py
@@ -0,0 +1,21 @@
+import os
+import shutil
+
+
+def write_file(filepath: str, text: str) -> None:
+    """
+    Writes text to the file. If that fails at any point, then the file is as it was before,
+    it never has only a part of the text.
+    """
+    filepath = os.path.realpath(filepath)  # keep a link to a file located elsewhere
+    temp_filepath = f'{filepath}.{os.getpid()}.tmp'
+    try:
+        with open(temp_filepath, 'w', newline='\n', encoding='utf8') as f:
+            f.write(text)
+        if os.path.exists(filepath):
+            shutil.copymode(filepath, temp_filepath)
+        os.replace(temp_filepath, filepath)
+    except BaseException:
+        if os.path.exists(temp_filepath):
+            os.remove(temp_filepath)
+        raise
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 70355ef..dd221aa 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -24,6 +24,7 @@ from pyfileconf.exceptions.imports import NoImportMatchingNameException
 from pyfileconf.imports.logic.load.name import get_module_and_name_imported_from
 from pyfileconf.imports.models.statements.container import ImportStatementContainer
 from pyfileconf.imports.models.statements.obj import ObjectImportStatement
+from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
 from pyfileconf.logic.combine import \
@@ -752,15 +753,13 @@ def create_project(path: str, logs_path: str,
     if logs_path is not None and not os.path.exists(logs_path):
         os.makedirs(logs_path)
     if not os.path.exists(pipeline_path):
-        with open(pipeline_path, 'w') as f:
-            f.write('\npipeline_dict = {}\n')
+        write_file(pipeline_path, '\npipeline_dict = {}\n')
     if specific_class_config_dicts:
         for specific_class_config in specific_class_config_dicts:
             name = specific_class_config['name']
             dict_path = os.path.join(path, f'{name}_dict.py')
             if not os.path.exists(dict_path):
-                with open(dict_path, 'w') as f:
-                    f.write(f'\nclass_dict = {{}}\n')
+                write_file(dict_path, '\nclass_dict = {}\n')
 
 
 
diff --git a/pyfileconf/pipelines/models/collection.py b/pyfileconf/pipelines/models/collection.py
index 5db502e..51a8705 100644
--- a/pyfileconf/pipelines/models/collection.py
+++ b/pyfileconf/pipelines/models/collection.py
@@ -1,5 +1,6 @@
 import os
 
+from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.pipelines.models.config import FunctionConfig
 from pyfileconf.logic.get import _get_public_name_or_special_name
 from pyfileconf.pipelines.models.interfaces import ObjectViewOrCollection
@@ -76,8 +77,7 @@ class PipelineCollection(Collection):
             # Never overwrite section config.
             return
 
-        with open(outpath, 'w') as f:
-            f.write('\n')
+        write_file(outpath, '\n')
 
 
 
-- 
2.43.0


From 617445ac8c52532ce4c9785d3fd6b341dbfcb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 52/62] fix: functions and constructors with overloads or
 earlier definitions can be scaffolded

---
 pyfileconf/io/file/load/parsers/funcdef.py | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/io/file/load/parsers/funcdef.py b/pyfileconf/io/file/load/parsers/funcdef.py
index df18af5..afb0f1d 100644
--- a/pyfileconf/io/file/load/parsers/funcdef.py
+++ b/pyfileconf/io/file/load/parsers/funcdef.py
@@ -74,6 +74,25 @@ def extract_function_definition_or_class_init_from_ast_by_name(module: ast.AST,
         return None
 
     if len(defs) > 1:
-        raise ValueError(f'found more than one function definition with the name {name} in module {module}')
+        last_def = _get_last_definition(module, name)
+        if isinstance(last_def, ast.ClassDef):
+            last_def = _get_last_definition(last_def, '__init__')
+        if last_def is None:
+            raise ValueError(f'found more than one function definition with the name {name} in module {module}')
+        return last_def  # type: ignore
+
+    return defs[0]
+
 
-    return defs[0]
\ No newline at end of file
+def _get_last_definition(module_or_class: ast.AST, name: str) -> Union[ast.FunctionDef, ast.ClassDef, None]:
+    """
+    Gets the definition which replaces all the earlier ones, e.g. the one after the overloads, or
+    None if it depends on conditions which definition that is
+    """
+    for statement in reversed(module_or_class.body):  # type: ignore
+        if isinstance(statement, (ast.FunctionDef, ast.ClassDef)):
+            if statement.name == name:
+                return statement
+        elif extract_function_definitions_or_class_inits_from_ast_by_name(statement, name):
+            return None
+    return None
\ No newline at end of file
-- 
2.43.0


From 1b11c192a8f770d5d6b8a9fd7c1aae46c4bb2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:48 +0000
Subject: [PATCH 53/62] fix: functions which a module imports by from module
 import * can be scaffolded

---
 pyfileconf/io/func/load/args.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/io/func/load/args.py b/pyfileconf/io/func/load/args.py
index c34f18f..ae365eb 100644
--- a/pyfileconf/io/func/load/args.py
+++ b/pyfileconf/io/func/load/args.py
@@ -1,8 +1,9 @@
 import ast
+import importlib
 import os
 from typing import TYPE_CHECKING, Tuple, Optional, cast
 
-from pyfileconf.exceptions.imports import NoImportStatementException
+from pyfileconf.exceptions.imports import NoImportMatchingNameException, NoImportStatementException
 
 if TYPE_CHECKING:
     from pyfileconf.views.object import ObjectView
@@ -77,7 +78,10 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
 
     # Else, this function must have been imported into this file as well.
     # Must find the matching import, the extract args from that import
-    next_level_import = imports.get_import_for_module_or_obj_name(function_name)
+    try:
+        next_level_import = imports.get_import_for_module_or_obj_name(function_name)
+    except NoImportMatchingNameException:
+        next_level_import = _get_import_from_module_importing_everything(function_name, imports)
     if next_level_import is None:
         raise ValueError(f'not able to find function definition for {function_name}. Could not '
                          f'find in definitions or in imports')
@@ -95,6 +99,17 @@ def extract_function_args_and_arg_imports_from_import(function_name: str, imp: O
     )
 
 
+def _get_import_from_module_importing_everything(name: str, imports: ImportStatementContainer) -> ObjectImportStatement:
+    """
+    For names which come from another module by from module import *
+    """
+    for imp in reversed(list(imports)):
+        if isinstance(imp, ObjectImportStatement) and imp.objs == ['*']:
+            if hasattr(importlib.import_module(imp.module), name):
+                return ObjectImportStatement([name], imp.module)
+    raise NoImportMatchingNameException(f'could not find name {name} in {imports}')
+
+
 def _with_absolute_imports(imports: ImportStatementContainer, module: str, filepath: str) -> ImportStatementContainer:
     """
     Relative imports such as from .this import that have a meaning only within the module they are in
-- 
2.43.0


From 350f4374293eb4ba795fd65e389e7cd5c007e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:10 +0000
Subject: [PATCH 54/62] fix: apply an update which the loaded object failed to
 take as soon as the object is used or updated again

---
 pyfileconf/runner/models/runner.py | 31 +++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index 7dd91f4..a5c96eb 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -42,6 +42,8 @@ class Runner(ReprMixin):
         self._all_specific_classes = tuple([registrar.klass for registrar in self._registrars])
         self._specific_class_registrar_map = {registrar.name: registrar for registrar in self._registrars}
         self._loaded_objects: Dict[str, Any] = {}
+        # Updates which could not be applied to the loaded object as it raised an exception, by section path
+        self._unapplied_updates: Dict[str, Dict[str, Any]] = {}
 
     def __getattr__(self, item):
         return self._get_named(item)
@@ -322,6 +324,7 @@ class Runner(ReprMixin):
 
     def _get_one_obj_with_config(self, section_path_str: str) -> Any:
         if section_path_str in self._loaded_objects:
+            self._apply_any_unapplied_updates(section_path_str)
             return self._loaded_objects[section_path_str]
 
         obj = self._get_func_or_collection(section_path_str)
@@ -390,8 +393,9 @@ class Runner(ReprMixin):
         new_config, updated = self._config.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
 
         if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], new_config)
-            self._config.track_post_update(new_config, section_path_str, {**(d_ or {}), **kwargs})
+            self._apply_config_to_loaded_object(section_path_str, new_config, {**(d_ or {}), **kwargs})
+        else:
+            self._apply_any_unapplied_updates(section_path_str)
 
     def reset(self, section_path_str: str=None, allow_create: bool = False) -> None:
         """
@@ -407,16 +411,33 @@ class Runner(ReprMixin):
 
         default, updated = self._config.reset(section_path_str=section_path_str, allow_create=allow_create)
         if updated and section_path_str in self._loaded_objects:
-            apply_config(self._loaded_objects[section_path_str], default)
-            self._config.track_post_update(default, section_path_str, dict(default))
+            self._apply_config_to_loaded_object(section_path_str, default, dict(default))
+        else:
+            self._apply_any_unapplied_updates(section_path_str)
 
     def refresh(self, section_path_str: str):
         config, updated, updates = self._config.refresh(section_path_str)
 
         if updated and section_path_str in self._loaded_objects:
             config = self._get_config(section_path_str)
+            self._apply_config_to_loaded_object(section_path_str, config, updates)
+        else:
+            self._apply_any_unapplied_updates(section_path_str)
+
+    def _apply_config_to_loaded_object(self, section_path_str: str, config: ActiveFunctionConfig,
+                                       updates: Dict[str, Any]):
+        all_updates = {**self._unapplied_updates.pop(section_path_str, {}), **updates}
+        try:
             apply_config(self._loaded_objects[section_path_str], config)
-            self._config.track_post_update(config, section_path_str, updates)
+        except BaseException:
+            # Config has the updates but the object does not. Apply them when the object is next used or updated
+            self._unapplied_updates[section_path_str] = all_updates
+            raise
+        self._config.track_post_update(config, section_path_str, all_updates)
+
+    def _apply_any_unapplied_updates(self, section_path_str: str):
+        if section_path_str in self._unapplied_updates:
+            self._apply_config_to_loaded_object(section_path_str, self._get_config(section_path_str), {})
 
     def _is_specific_class(self, obj: Any) -> bool:
         return self._all_specific_classes and isinstance(obj, self._all_specific_classes)  # type: ignore
-- 
2.43.0


From 7df7a87cbfbc2070f00b6378a22f457afc396f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:10 +0000
Subject: [PATCH 55/62] fix: create refuses what it cannot configure before it
 changes the dictionary file

---
 pyfileconf/main.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index dd221aa..8771d75 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -431,6 +431,10 @@ class PipelineManager:
         """
         logger.info(f'Creating config for {section_path_str}')
         section_path = SectionPath(section_path_str)
+        if not all(section_path):
+            raise ValueError(f'cannot create at {section_path_str!r}, section names may not be empty')
+        if self._registrars is None:
+            raise PipelineManagerNotLoadedException('call PipelineManager.load() before creating an item')
 
         if section_path[0] in self.specific_class_names:
             # Got path for a specific class dict, add to specific class dict
@@ -453,7 +457,6 @@ class PipelineManager:
             # Got path for main pipeline dict, add to main pipeline dict
             if func_or_class is None:
                 raise ValueError('when adding creating item in main pipeline dict, must pass function or class')
-            self._create_pipeline_dict_entry(section_path, func_or_class)
             name = func_or_class.__name__
             full_sp = SectionPath.join(section_path, name)
             mod, import_base = get_module_and_name_imported_from(func_or_class)
@@ -463,6 +466,8 @@ class PipelineManager:
             registrar_obj = ObjectView.from_ast_and_imports(item, imports)
             if self._general_registrar is None:
                 raise ValueError('general registrar must be defined')
+            _validate_can_be_configured(func_or_class, registrar_obj)
+            self._create_pipeline_dict_entry(section_path, func_or_class)
             registrar = self._general_registrar
             set_section_path_str = section_path_str
             scaffold_path_str = full_sp.path_str
@@ -782,6 +787,14 @@ def _validate_name_is_not_imported_from_elsewhere(func_or_class: Union[Callable,
                      f'has a different {name} from: {existing_import}')
 
 
+def _validate_can_be_configured(func_or_class: Union[Callable, Type], object_view: ObjectView):
+    if object_view.load() is not func_or_class:
+        raise ValueError(f'cannot create an entry for {func_or_class} as it is not what is imported '
+                         f'by: {object_view.import_statement}')
+    # Raises an exception if the source cannot be found or does not have a definition of the function or class
+    object_view.default_config
+
+
 def _validate_registrars(registrars: List[SpecificRegistrar], general_registrar: PipelineRegistrar):
     used_names = dir(general_registrar.collection)
     for registrar in registrars:
-- 
2.43.0


From 693a25cd551a9f8b846ec4f2683b26b469e6ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:10 +0000
Subject: [PATCH 56/62] fix: list the attributes of a manager which is not
 loaded

---
 pyfileconf/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 8771d75..16a3174 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -112,7 +112,7 @@ class PipelineManager:
         ]
         exposed_attrs = ['name'] + self.specific_class_names
         exposed = exposed_methods + exposed_attrs
-        if hasattr(self, '_registrars'):
+        if self._registrars is not None:
             skip_methods = [
                 'scaffold_config',
                 'basepath',
-- 
2.43.0


From acff4ae2eefa43c3f2057322c3a75819bae80ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:33 +0000
Subject: [PATCH 57/62] fix: product runs apply the updates which a case passes
 as a dictionary

---
 pyfileconf/iterate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 805baff..1fe5e63 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -93,7 +93,9 @@ class IterativeRunner:
         case_section_path_strs: List[str] = []
         for conf in case:
             sp_str = self._get_full_section_path_str(conf['section_path_str'])
-            defaults = self.defaults[sp_str]
+            # Defaults are passed as kwargs, which have precedence over a dictionary of updates in the same conf
+            updates_dict = conf.get('d_') or {}
+            defaults = {key: value for key, value in self.defaults[sp_str].items() if key not in updates_dict}
             new_conf = {**defaults, **conf}
             new_confs.append(new_conf)
             case_section_path_strs.append(sp_str)
-- 
2.43.0


From a9e2a9fe25336fd9acc6bf1fefb4fc7b0c5a5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:20 +0000
Subject: [PATCH 58/62] fix: a product case is applied although a config
 changed since the case before

---
 pyfileconf/iterate.py              | 21 ++++++++++++++++++++-
 pyfileconf/plugin/default_hooks.py |  5 ++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 1fe5e63..2b8540b 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 from copy import deepcopy
 from typing import List, Dict, Any, Tuple, Sequence, Optional, Iterator
 
-from pyfileconf.basemodels.config import ConfigBase
+from pyfileconf.basemodels.config import ConfigBase, _configs_are_equal
 from pyfileconf.logger.logger import logger
 from pyfileconf.plugin import manager
 from pyfileconf.runner.models.interfaces import RunnerArgs, IterativeResults, IterativeResult
@@ -105,6 +105,25 @@ class IterativeRunner:
                 new_confs.append({**defaults, 'section_path_str': self._get_relative_section_path_str(sp_str)})
         return tuple(new_confs)
 
+    def config_has_updates(self, conf: Dict[str, Any]) -> bool:
+        """
+        Determine whether the updates are already in the current config of the item
+
+        :param conf: kwarg dictionary which would normally be provided to .update
+        :return:
+        """
+        from pyfileconf import PipelineManager
+
+        updates = {**(conf.get('d_') or {}), **conf}
+        for update_arg in ('d_', 'section_path_str', 'pyfileconf_persist'):
+            updates.pop(update_arg, None)
+        sp = SectionPath(self._get_full_section_path_str(conf['section_path_str']))
+        pm = PipelineManager.get_manager_by_section_path_str(sp.path_str)
+        config = pm.config.get(SectionPath(".".join(sp[1:])).path_str)
+        if config is None:
+            return False
+        return _configs_are_equal(updates, {key: config[key] for key in updates if key in config})
+
     def _get_full_section_path_str(self, section_path_str: str) -> str:
         if not self.base_section_path_str:
             return section_path_str
diff --git a/pyfileconf/plugin/default_hooks.py b/pyfileconf/plugin/default_hooks.py
index e9d6bc4..2b18235 100644
--- a/pyfileconf/plugin/default_hooks.py
+++ b/pyfileconf/plugin/default_hooks.py
@@ -48,7 +48,10 @@ def pyfileconf_iter_update_for_case(
     updated_confs: Sequence[Dict[str, Any]]
     if runner.last_case is not None:
         updated_confs = [
-            conf for conf in case if not any(_configs_are_equal(conf, last_conf) for last_conf in runner.last_case)
+            conf for conf in case
+            # Config may have been changed since the last case, e.g. by the items which were run
+            if not any(_configs_are_equal(conf, last_conf) for last_conf in runner.last_case)
+            or not runner.config_has_updates(conf)
         ]
     else:
         updated_confs = case
-- 
2.43.0


From 1559481981e87d94567334c009a8c0a973edd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:24 +0000
Subject: [PATCH 59/62] fix: a product run updates only the arguments which its
 cases set

---
 pyfileconf/iterate.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 2b8540b..12d6487 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -1,7 +1,7 @@
 import itertools
 from collections import defaultdict
 from copy import deepcopy
-from typing import List, Dict, Any, Tuple, Sequence, Optional, Iterator
+from typing import List, Dict, Any, Tuple, Sequence, Optional, Iterator, Set
 
 from pyfileconf.basemodels.config import ConfigBase, _configs_are_equal
 from pyfileconf.logger.logger import logger
@@ -72,19 +72,19 @@ class IterativeRunner:
         if not hasattr(self, 'cases'):
             raise ValueError('must set cases before calling get_defaults')
         # Plugins may add or modify cases, so each case may update different items
-        section_path_strs = [
-            self._get_full_section_path_str(conf['section_path_str']) for case in self.cases for conf in case
-        ]
+        updated_keys: Dict[str, Set[str]] = defaultdict(lambda: set())
+        for case in self.cases:
+            for conf in case:
+                updated_keys[self._get_full_section_path_str(conf['section_path_str'])].update(_get_updates(conf))
         defaults: Dict[str, Dict[str, Any]] = {}
-        for sp_str in section_path_strs:
-            if sp_str in defaults:
-                continue
+        for sp_str, keys in updated_keys.items():
             pm = PipelineManager.get_manager_by_section_path_str(sp_str)
             sp = SectionPath(sp_str)
             relative_section_path_str = SectionPath(".".join(sp[1:])).path_str
             config = pm.config.get(relative_section_path_str)
             if config is not None:
-                defaults[sp_str] = {**config}
+                # Whatever no case updates should not be updated, so that it still comes from its file
+                defaults[sp_str] = {key: value for key, value in config.items() if key in keys}
         logger.debug(f'Got {defaults} for IterativeRunner.defaults')
         return defaults
 
@@ -114,9 +114,7 @@ class IterativeRunner:
         """
         from pyfileconf import PipelineManager
 
-        updates = {**(conf.get('d_') or {}), **conf}
-        for update_arg in ('d_', 'section_path_str', 'pyfileconf_persist'):
-            updates.pop(update_arg, None)
+        updates = _get_updates(conf)
         sp = SectionPath(self._get_full_section_path_str(conf['section_path_str']))
         pm = PipelineManager.get_manager_by_section_path_str(sp.path_str)
         config = pm.config.get(SectionPath(".".join(sp[1:])).path_str)
@@ -200,6 +198,17 @@ class IterativeRunner:
         return True
 
 
+def _get_updates(conf: Dict[str, Any]) -> Dict[str, Any]:
+    """
+    :param conf: kwarg dictionary which would normally be provided to .update
+    :return: the updates to the config in it
+    """
+    updates = {**(conf.get('d_') or {}), **conf}
+    for update_arg in ('d_', 'section_path_str', 'pyfileconf_persist'):
+        updates.pop(update_arg, None)
+    return updates
+
+
 def get_config_product(
     config_dicts: Sequence[Dict[str, Any]]
 ) -> List[Tuple[Dict[str, Any], ...]]:
-- 
2.43.0


From a94abe85bd998ba7e4538b9ea2cde074e3746300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:59 +0000
Subject: [PATCH 60/62] fix: a value or result which cannot be printed does not
 fail an update or run

---
 pyfileconf/config/logic/write.py   | 13 ++++++++++---
 pyfileconf/iterate.py              |  7 ++++---
 pyfileconf/logic/describe.py       | 11 +++++++++++
 pyfileconf/main.py                 |  5 +++--
 pyfileconf/runner/models/runner.py |  7 ++++---
 5 files changed, 32 insertions(+), 11 deletions(-)
 create mode 100644 pyfileconf/logic/describe.py

diff --git a/pyfileconf/config/logic/write.py b/pyfileconf/config/logic/write.py
index f64e1cd..a93752c 100644
--- a/pyfileconf/config/logic/write.py
+++ b/pyfileconf/config/logic/write.py
@@ -1,10 +1,17 @@
+from typing import Any
+
 from pyfileconf.assignments.logic.write import _key_value_pair_to_assignment_str
+from pyfileconf.logic.describe import safe_str
+
 
 def dict_as_function_kwarg_str(d: dict) -> str:
-    lines = [_key_value_pair_to_assignment_str(key, value) for key, value in d.items()]
+    lines = [_key_value_pair_as_kwarg_str(key, value) for key, value in d.items()]
 
     return '\n\t' + ',\n\t'.join(lines) + '\n'
 
 
-
-
+def _key_value_pair_as_kwarg_str(key: str, value: Any) -> str:
+    try:
+        return _key_value_pair_to_assignment_str(key, value)
+    except Exception:
+        return f'{key} = {safe_str(value)}'
diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index 12d6487..cf1764f 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -5,6 +5,7 @@ from typing import List, Dict, Any, Tuple, Sequence, Optional, Iterator, Set
 
 from pyfileconf.basemodels.config import ConfigBase, _configs_are_equal
 from pyfileconf.logger.logger import logger
+from pyfileconf.logic.describe import safe_str
 from pyfileconf.plugin import manager
 from pyfileconf.runner.models.interfaces import RunnerArgs, IterativeResults, IterativeResult
 from pyfileconf.sectionpath.sectionpath import SectionPath
@@ -62,7 +63,7 @@ class IterativeRunner:
         ] = manager.plm.hook.pyfileconf_iter_get_cases(config_updates=self.config_updates, runner=self)
         cases = list(itertools.chain(*cases_lol))
         manager.plm.hook.pyfileconf_iter_modify_cases(cases=cases, runner=self)
-        logger.debug(f'Got {cases} for IterativeRunner.cases')
+        logger.debug(f'Got {safe_str(cases)} for IterativeRunner.cases')
         return cases
 
     def get_defaults(self) -> Dict[str, Dict[str, Any]]:
@@ -85,7 +86,7 @@ class IterativeRunner:
             if config is not None:
                 # Whatever no case updates should not be updated, so that it still comes from its file
                 defaults[sp_str] = {key: value for key, value in config.items() if key in keys}
-        logger.debug(f'Got {defaults} for IterativeRunner.defaults')
+        logger.debug(f'Got {safe_str(defaults)} for IterativeRunner.defaults')
         return defaults
 
     def _fill_case_with_defaults(self, case: Tuple[Dict[str, Any], ...]) -> Tuple[Dict[str, Any], ...]:
@@ -149,7 +150,7 @@ class IterativeRunner:
             if collect_results:
                 in_out_tup = (case, result)
                 all_results.append(in_out_tup)
-        logger.debug(f'Finished running {self.run_items} with cases {self.cases}')
+        logger.debug(f'Finished running {self.run_items} with cases {safe_str(self.cases)}')
         return all_results
 
     def run_gen(self) -> Iterator[IterativeResult]:
diff --git a/pyfileconf/logic/describe.py b/pyfileconf/logic/describe.py
new file mode 100644
index 0000000..d446812
--- /dev/null
+++ b/pyfileconf/logic/describe.py
@@ -0,0 +1,11 @@
+from typing import Any
+
+
+def safe_str(value: Any) -> str:
+    """
+    String for logging a value supplied by the user. Logging a value should not fail what is done with it
+    """
+    try:
+        return str(value)
+    except Exception:
+        return f'<unprintable {type(value).__name__} object>'
diff --git a/pyfileconf/main.py b/pyfileconf/main.py
index 16a3174..0db6551 100644
--- a/pyfileconf/main.py
+++ b/pyfileconf/main.py
@@ -27,6 +27,7 @@ from pyfileconf.imports.models.statements.obj import ObjectImportStatement
 from pyfileconf.io.file.write.atomic import write_file
 from pyfileconf.iterate import IterativeRunner
 from pyfileconf.logger.logger import logger
+from pyfileconf.logic.describe import safe_str
 from pyfileconf.logic.combine import \
     combine_items_into_list_whether_they_are_lists_or_not
 from pyfileconf.pipelines.models.collection import PipelineCollection
@@ -392,7 +393,7 @@ class PipelineManager:
         if d_ is not None:
             all_updates.update(d_)
         all_updates.update(kwargs)
-        logger.info(f'Updating {section_path_str} with config: {all_updates}')
+        logger.info(f'Updating {section_path_str} with config: {safe_str(all_updates)}')
 
         if section_path_str:
             # If any of the updates are putting an ItemView as the value, then
@@ -407,7 +408,7 @@ class PipelineManager:
                     context.add_config_dependency(full_sp, value)
 
         self.runner.update(d_, section_path_str, pyfileconf_persist=pyfileconf_persist, **kwargs)
-        logger.debug(f'Finished updating {section_path_str} with config: {all_updates}')
+        logger.debug(f'Finished updating {section_path_str} with config: {safe_str(all_updates)}')
 
     def refresh(self, section_path_str: str):
         """
diff --git a/pyfileconf/runner/models/runner.py b/pyfileconf/runner/models/runner.py
index a5c96eb..06b2398 100644
--- a/pyfileconf/runner/models/runner.py
+++ b/pyfileconf/runner/models/runner.py
@@ -12,6 +12,7 @@ from pyfileconf.data.models.collection import SpecificClassCollection
 from pyfileconf.exceptions.config import ConfigManagerNotLoadedException
 from pyfileconf.logger.logger import logger
 from pyfileconf.pipelines.models.registrar import PipelineRegistrar, PipelineCollection
+from pyfileconf.logic.describe import safe_str
 from pyfileconf.logic.get import _get_public_name_or_special_name
 from pyfileconf.plugin import manager
 from pyfileconf.runner.models.interfaces import (
@@ -194,7 +195,7 @@ class Runner(ReprMixin):
 
             logger.info(f'Running function {section_path_str}({dict_as_function_kwarg_str(config_dict)})')
             result = func()
-            logger.info(f'Result:\n{result}\n')
+            logger.info(f'Result:\n{safe_str(result)}\n')
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return result
 
@@ -205,7 +206,7 @@ class Runner(ReprMixin):
 
             logger.info(f'Running class {section_path_str}({dict_as_function_kwarg_str(config_dict)})')
             result = obj()
-            logger.info(f'Result:\n{result}\n')
+            logger.info(f'Result:\n{safe_str(result)}\n')
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return result
 
@@ -220,7 +221,7 @@ class Runner(ReprMixin):
 
             logger.info(f'Running class {section_path_str}({dict_as_function_kwarg_str(config_dict)})')
             result = func()
-            logger.info(f'Result:\n{result}\n')
+            logger.info(f'Result:\n{safe_str(result)}\n')
         self._add_to_config_dependencies_if_necessary(section_path_str)
         return result
 
-- 
2.43.0


From 57041f2d02d84f2457484b8d422fdc46b85bb543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:36 +0000
Subject: [PATCH 61/62] fix: a product case whose value is an item view sees
 the item as it is configured in the case

---
 pyfileconf/iterate.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pyfileconf/iterate.py b/pyfileconf/iterate.py
index cf1764f..d80c0bf 100644
--- a/pyfileconf/iterate.py
+++ b/pyfileconf/iterate.py
@@ -273,7 +273,30 @@ def _get_configs_by_section_path_dict(
     """
     combined_dicts: Dict[str, List[Dict[str, Any]]] = defaultdict(lambda: [])
     for config_dict in config_dicts:
-        conf = deepcopy(config_dict)
+        # Keep views of items, copies of them would not see later changes of the items
+        conf = deepcopy(config_dict, _get_item_views_by_id(config_dict))
         sp = conf["section_path_str"]
         combined_dicts[sp].append(conf)
     return combined_dicts
+
+
+def _get_item_views_by_id(value: Any, views: Optional[Dict[int, Any]] = None,
+                          seen: Optional[Set[int]] = None) -> Dict[int, Any]:
+    from pyfileconf.selector.models.itemview import ItemView
+
+    if views is None:
+        views = {}
+    if seen is None:
+        seen = set()
+    if id(value) in seen:
+        return views
+    seen.add(id(value))
+    if type(value) is ItemView:
+        views[id(value)] = value
+    elif type(value) in (list, tuple, set, frozenset):
+        for item in value:
+            _get_item_views_by_id(item, views, seen)
+    elif type(value) is dict:
+        for item in value.values():
+            _get_item_views_by_id(item, views, seen)
+    return views
-- 
2.43.0


From 792c58d381c723808ab4a5f46c875020765d7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:45 +0000
Subject: [PATCH 62/62] fix: a view of an item can be copied

---
 pyfileconf/selector/models/itemview.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyfileconf/selector/models/itemview.py b/pyfileconf/selector/models/itemview.py
index eb3405c..92cf0cc 100644
--- a/pyfileconf/selector/models/itemview.py
+++ b/pyfileconf/selector/models/itemview.py
@@ -31,6 +31,9 @@ class ItemView:
 
     def __getattr__(self, item):
         from pyfileconf.main import PipelineManager
+        if 'section_path_str' not in self.__dict__:
+            # Not initialized yet, e.g. while being copied
+            raise AttributeError(item)
         full_section_path_str = self.section_path_str + '.' + item
         if full_section_path_str in self.selector:
             # This is an item, return an item view for it
-- 
2.43.0

