From 6da49dbbd42bc75dfd8a5b32330cc40233c0a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 01/63] fix: visit every value of a mapping that has None among
 its keys

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..a64f051 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -136,8 +136,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From 546b73f0dae1473cee5815a3663799940819fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 02/63] fix: quote the names of non-builtin key types of
 mappings and write NoneType as None

---
 .../generic_type/generic_data_type_tree.py          | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..a3f9ee1 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -5,6 +6,7 @@ from typing import (
     List,
     Sequence,
     Tuple,
+    Type,
     final,
 )
 
@@ -59,7 +61,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = [self._get_type_name(type(element)) for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
@@ -77,6 +79,15 @@ class GenericDataTypeTree(DataTypeTree):
             return tuple(sorted(child_types_set))
         return tuple(child_types)
 
+    @staticmethod
+    def _get_type_name(type_: Type[object]) -> str:
+        """Get the name of a type in a way that can be evaluated without importing the type."""
+        if type_ is type(None):
+            return "None"
+        if isinstance(getattr(builtins, type_.__name__, None), type):
+            return type_.__name__
+        return f'"{type_.__name__}"'
+
     @override
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
-- 
2.43.0


From cfa5e06d53f25d72490481233517945bd0788c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 03/63] fix: do not reuse a rendering made with other arguments

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From 6d8405ab7d0c405f2d05cd301a0ea56e60e84dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 04/63] fix: refer to the types of TypedDict values by the name
 they are defined with

---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..b6a3a1e 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -265,8 +265,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
-- 
2.43.0


From 14ddd0f0f6e029d2a56edfce33d5a48b4ed93167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:55 +0000
Subject: [PATCH 05/63] fix: escape the keys of TypedDicts written in
 functional syntax

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b6a3a1e..e7cd45b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,3 +1,4 @@
+import json
 import keyword
 from collections import defaultdict
 from dataclasses import dataclass, field
@@ -308,7 +309,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             template = f"""{name} = TypedDict(
 {TAB}"{name}",
 {TAB}{{
-{TAB}{TAB}"{{key}}": {{value}},
+{TAB}{TAB}{{key}}: {{value}},
 {TAB}}},
 )"""
             idx_to_repeat = -3
@@ -327,7 +328,9 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                # Lone surrogates are escaped as well because they cannot be encoded
+                quoted_key = json.dumps(key, ensure_ascii=False).encode("utf-8", "backslashreplace").decode("utf-8")
+                modified_line += lines[idx_to_repeat].format(key=quoted_key, value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
-- 
2.43.0


From 6349c5ac1afbf5ca4e7fd6b698947067ea3ea623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 06/63] fix: accept exactly the identifiers that Python accepts
 as names

---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fc62f8b 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def compare_ast(
-- 
2.43.0


From ce79cbd7dc53ab003a02f589e5b33abe10374a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 07/63] fix: derive only valid identifiers from the keys of a
 mapping

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index a64f051..74c3797 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,4 +1,5 @@
 import re
+import unicodedata
 from collections import defaultdict
 from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
 
@@ -93,6 +94,8 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @staticmethod
     def _to_camel_case(string: str) -> str:
         """Make it camel case and compatible with Python keywords."""
+        # Python normalizes the identifiers this way
+        string = unicodedata.normalize("NFKC", string)
         # Remove any initial number within the string
         match = re.match(r"^\d+", string)
         if match:
@@ -105,7 +108,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         idx_to_remove: Set[int] = set()
         removed = False
         for idx, char in enumerate(string):
-            if not char.isalpha() and not char.isnumeric():
+            if not (char.isalpha() or char.isnumeric()) or not f"_{char}".isidentifier():
                 idx_to_remove.add(idx)
             if idx not in idx_to_remove:
                 if removed is True:
-- 
2.43.0


From 5f361a646a2da42ef4b38b0a96d66c52ee5aeeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 08/63] fix: write the TypedDict keys that a class body would
 change in functional syntax

---
 .../generic_type/dict_data_type_tree.py       | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e7cd45b..4655163 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,5 +1,5 @@
 import json
-import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -128,9 +128,20 @@ class DictMetadata:
 
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
-        if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
-        return False
+        if not self._all_keys_are_string(self._data):
+            return False
+        return all(
+            self._is_key_parsable(key)
+            for key in self._data
+            if not self.hidden_key_prefix or not key.startswith(self.hidden_key_prefix)
+        )
+
+    @staticmethod
+    def _is_key_parsable(key: str) -> bool:
+        """Check that the key can be written in a class body and that Python would keep it as it is."""
+        is_mangled = key.startswith("__")
+        is_normalized = unicodedata.normalize("NFKC", key) == key
+        return is_string_python_keyword_compatible(key) and not is_mangled and is_normalized
 
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
         """Update the wrapped dictionary and its metadata by including a new metadata object."""
-- 
2.43.0


From 605492b82c7c9d895b68e92f94ebf658fd722a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:33 +0000
Subject: [PATCH 09/63] fix: give different types different names in the
 generated file

---
 .../data_type_tree/data_type_tree.py          | 34 ++++++++++++-------
 lazy_type_hint/utils/import_manager.py        |  8 ++++-
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..170a50e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -8,8 +8,10 @@ import re
 from abc import ABC, abstractmethod
 from typing import (
     TYPE_CHECKING,
+    AbstractSet,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Mapping,
@@ -25,7 +27,6 @@ from typing import (
 from lazy_type_hint.strategies import ParsingStrategies
 from lazy_type_hint.utils import (
     ImportManager,
-    OrderedSet,
     cache_returned_value_per_instance,
     is_string_python_keyword_compatible,
 )
@@ -210,9 +211,9 @@ class DataTypeTree(ABC):
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
-        strings: OrderedSet[str] = OrderedSet()
-        self._get_strs_all_nodes_unformatted(types=strings)
-        strings_lst = strings.as_list()
+        strings: Dict[str, str] = {}
+        self._get_strs_all_nodes_unformatted(types=strings, reserved_names=self.imports.names_available | {self.name})
+        strings_lst = list(strings.values())
         if not strings_lst:
             raise DataTypeTreeError("No type hints could be built")
 
@@ -243,25 +244,34 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Optional[OrderedSet[str]] = None) -> None:
-        if types is None:
-            types = OrderedSet()
-
+    def _get_strs_all_nodes_unformatted(self, *, types: Dict[str, str], reserved_names: AbstractSet[str]) -> None:
         if self.depth == 0 and not self.children:
             if self.permission_to_be_created_as_type_alias:
-                types.add(self.get_str_top_node())
+                self._add_str_top_node(types, reserved_names)
             return
         if not self.children:
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types)
+            child._get_strs_all_nodes_unformatted(types=types, reserved_names=reserved_names)
             if child.permission_to_be_created_as_type_alias:
-                types.add(child.get_str_top_node())
+                child._add_str_top_node(types, reserved_names)
         if self.permission_to_be_created_as_type_alias:
-            types.add(self.get_str_top_node())
+            self._add_str_top_node(types, reserved_names)
         return
 
+    @final
+    def _add_str_top_node(self, types: Dict[str, str], reserved_names: AbstractSet[str]) -> None:
+        """Add the string of this node, whose name gets a number if it already means something else."""
+        name = self.name
+        string = self.get_str_top_node()
+        count = 2
+        while self.parent is not None and (self.name in reserved_names or types.get(self.name, string) != string):
+            self.name = f"{name}{count}"
+            string = self.get_str_top_node()
+            count += 1
+        types[self.name] = string
+
     @final
     def _format_node_strings(self, strs_py: Sequence[str]) -> str:
         """Get the string representation of the type hints that represent the whole tree."""
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..ce78934 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,7 +1,8 @@
+import builtins
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Optional, Sequence, Set, Tuple
+from typing import TYPE_CHECKING, Dict, Final, FrozenSet, List, Literal, Mapping, Optional, Sequence, Set, Tuple
 
 from typing_extensions import TypeGuard
 
@@ -84,6 +85,11 @@ class ImportManager:
         }
     )
 
+    @property
+    def names_available(self) -> FrozenSet[str]:
+        """Names that a generated file might import or use without importing."""
+        return frozenset({"np", "npt", "pd", *dir(builtins), *(names[-1] for names in self.PACKAGE.values())})
+
     def add(self, keyword: KEYWORDS_AVAILABLE) -> "Self":
         self._set.add(keyword)
         return self
-- 
2.43.0


From 206a7ce3375824b5ddfb1fb2653d3f7c105bfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:21 +0000
Subject: [PATCH 10/63] fix: keep the children of a container in the order they
 were found

The order no longer depends on hashes, and equal dictionaries of a tuple share one type.
---
 .../set_and_sequence_operations.py            | 71 ++++++++-----------
 1 file changed, 28 insertions(+), 43 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..089bdc7 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -15,7 +15,6 @@ from typing import (
     Set,
     Tuple,
     Union,
-    cast,
 )
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -37,11 +36,9 @@ class SetAndSequenceOperations:
 
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
-        if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
-        else:
-            children = set()
-        names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
+        children: List[DataTypeTree] = []
+        children_added: Dict[DataTypeTree, DataTypeTree] = {}
+        names_added: Set[str] = set()  # Used to generate new and unique names in a quicker way.
 
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
@@ -50,10 +47,10 @@ class SetAndSequenceOperations:
                 break
             name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
             # Generate new name in case this one was already added
-            if name in names_added.values():
+            if name in names_added:
                 modified_name = name
                 count = 2
-                while modified_name in names_added.values():
+                while modified_name in names_added:
                     modified_name = f"{name}{count}"
                     count += 1
                 name = modified_name
@@ -65,21 +62,17 @@ class SetAndSequenceOperations:
                 parent=self.data_type_tree,
                 strategies=self.data_type_tree.strategies,
             )
-            if allow_repeated_children:
-                # Tuple case
-                children = cast("List[DataTypeTree]", children)
-                if child in names_added:
-                    child.rename(names_added[child])
+            if child not in children_added:
+                children_added[child] = child
+                names_added.add(name)
                 children.append(child)
-                names_added[child] = child.name
-            else:
-                # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
-                if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    self._update_existing_typed_dict_child_from_another_equal_child(children, child)
-                if child not in children:
-                    children.add(child)
-                    names_added[child] = name
+                continue
+
+            child_added = children_added[child]
+            if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                self._update_existing_typed_dict_child_from_another_equal_child([child_added], child)
+            if allow_repeated_children:  # Tuple case
+                children.append(child_added)
 
         return self._merge_similar_typed_dicts(
             children,
@@ -119,24 +112,16 @@ class SetAndSequenceOperations:
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
 
-        dict_data_type_trees: List[DictDataTypeTree] = []
-        if allow_repeated_children:
-            children = list(children)
-            for child in list(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    dict_data_type_trees.append(child)
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            for idx, child in enumerate(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children[idx] = merged_child
-            return tuple(children)
-        else:
-            children = cast("Set[DataTypeTree]", children)
-            for child in children.copy():
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children.remove(child)
-                    dict_data_type_trees.append(child)
-
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
-            return tuple(children)
+        dict_data_type_trees = [
+            child for child in children if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict
+        ]
+        merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
+        merged_children: List[DataTypeTree] = []
+        merged_child_added = False
+        for child in children:
+            if not (isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict):
+                merged_children.append(child)
+            elif allow_repeated_children or not merged_child_added:
+                merged_children.append(merged_child)
+                merged_child_added = True
+        return tuple(merged_children)
-- 
2.43.0


From 28dfaf9fdfaa4b54aecb1994fb01654a029d8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 11/63] fix: do not rebuild a dictionary that has nothing to be
 merged with

Nested lists of dictionaries took a time exponential in their depth.
---
 .../data_type_tree/generic_type/set_and_sequence_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 089bdc7..bb0c4e3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -115,6 +115,9 @@ class SetAndSequenceOperations:
         dict_data_type_trees = [
             child for child in children if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict
         ]
+        if len(set(dict_data_type_trees)) == 1:  # Nothing to merge
+            return tuple(children)
+
         merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
         merged_children: List[DataTypeTree] = []
         merged_child_added = False
-- 
2.43.0


From bcd3a3bce20c0be5af465c70c6dd09887e32f389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 12/63] fix: tell apart types that only differ in their
 container, dtype of columns, class or required keys

Trees of different types shared a hash, so all but one of them were dropped.
---
 .../generic_type/dict_data_type_tree.py             |  4 ++--
 .../generic_type/generic_data_type_tree.py          | 13 +++++++++----
 .../generic_type/mapping_data_type_tree.py          |  9 ++++-----
 .../pandas_data_frame_data_type_tree.py             |  6 +++---
 .../generic_type/pandas_series_data_type_tree.py    |  9 +--------
 .../generic_type/sequence_data_type_tree.py         |  9 +--------
 .../generic_type/set_data_type_tree.py              |  7 ++-----
 .../generic_type/tuple_data_type_tree.py            |  2 +-
 .../simple_data_type_tree/type_data_type_tree.py    |  6 +++++-
 9 files changed, 28 insertions(+), 37 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 4655163..43e3b4c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -378,8 +378,8 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
-        return frozenset(hashes)
+            hashes.append((name, self.dict_metadata.key_info[name].required, child._get_hash()))
+        return "typed_dict", frozenset(hashes)
 
     @staticmethod
     def compare_multiple_typed_dicts_based_trees(*trees: "DictDataTypeTree") -> DictMetadataComparison:
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index a3f9ee1..7714a19 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,6 +1,7 @@
 import builtins
 from abc import abstractmethod
 from typing import (
+    FrozenSet,
     Hashable,
     Iterable,
     List,
@@ -88,9 +89,13 @@ class GenericDataTypeTree(DataTypeTree):
             return type_.__name__
         return f'"{type_.__name__}"'
 
+    def _get_hash_types(self, types: Iterable[Hashable]) -> FrozenSet[Hashable]:
+        """Get the hash of types that are going to be represented as a union."""
+        hashes = set(types)
+        if id(float) in hashes:  # `int` is not shown next to a `float`
+            hashes.discard(id(int))
+        return frozenset(hashes)
+
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for child in self:
-            hashes.append(child._get_hash())
-        return tuple(hashes)
+        return type(self).__name__, self._get_hash_types(child._get_hash() for child in self)
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 74c3797..b83250f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,7 +1,7 @@
 import re
 import unicodedata
 from collections import defaultdict
-from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
+from typing import Dict, Final, Hashable, Iterator, Literal, Mapping, Set, Type
 
 from typing_extensions import Self, override
 
@@ -127,10 +127,9 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for name, child in self.children.items():
-            hashes.append(("mapping", hash(type(name)), child._get_hash()))
-        return frozenset(hashes)
+        keys = self._get_hash_types(id(type(key)) for key in self.children)
+        values = self._get_hash_types(child._get_hash() for child in self.children.values())
+        return type(self).__name__, keys, values
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..f943dc6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -162,10 +162,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
-        if self.strategies.pandas_strategies == "Do not type hint columns":
+    def _get_hash(self) -> Hashable:
+        if not self.children or self.strategies.pandas_strategies == "Do not type hint columns":
             return "pd.DataFrame"
-        return str(self.data.columns)
+        return "pd.DataFrame", tuple((type(key), key, child._get_hash()) for key, child in self.children.items())
 
     @override
     def _get_str_top_node(self) -> str:
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..176d6d4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Hashable, Sequence, Set, Tuple
+from typing import Any, Sequence, Tuple
 
 import pandas as pd
 from typing_extensions import Self, override
@@ -28,13 +28,6 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         self.imports.add("annotations").add("TypeAlias").add("pandas")
         return f"{self.name}: TypeAlias = pd.Series[{self.get_type_alias_children()}]"
 
-    @override
-    def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
-        for child in self:
-            hashes.add(child._get_hash())
-        return frozenset(hashes)
-
     @override
     def __iter__(self) -> "Self":
         self._iterator = 0  # Reset the index to zero when starting a new iteration
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..a2de182 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Hashable, List
+from typing import TYPE_CHECKING
 
 from typing_extensions import Self, override
 
@@ -20,13 +20,6 @@ class SequenceDataTypeTree(GenericDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         self.operations = SetAndSequenceOperations(self)
 
-    @override
-    def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for child in self:
-            hashes.append(child._get_hash())
-        return frozenset(hashes)
-
     @override
     def __iter__(self) -> "Self":
         self._iterator = 0  # Reset the index to zero when starting a new iteration
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..2c85130 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Hashable, Literal, Sequence, Set, Tuple
+from typing import Any, Hashable, Literal, Sequence, Tuple
 
 from typing_extensions import Self, override
 
@@ -35,10 +35,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
-        for child in self:
-            hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return self.holding_type is frozenset, super()._get_hash()
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..d2ae7fc 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -52,4 +52,4 @@ class TupleDataTypeTree(SequenceDataTypeTree):
             hashes: List[object] = []
             for child in self:
                 hashes.append(child._get_hash())
-            return tuple(hashes)
+            return type(self).__name__, tuple(hashes)
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..6449b0c 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return "type", self.data.__name__
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From bcd5e6f4be6bbde5752f8b32e9b4c2cbe3161861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 13/63] fix: name the dtype of numpy arrays by its scalar type
 and tell the dtypes apart

---
 .../simple_data_type_tree/numpy_data_type_tree.py         | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..2811098 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -12,4 +14,8 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
-        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype}]"'
+        return f'{self.name}: TypeAlias = "NDArray[np.{self.data.dtype.type.__name__}]"'
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return "NDArray", self.data.dtype.type.__name__
-- 
2.43.0


From cfdbe425b60fe39c31a5dad4147e4f2087a85352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:39 +0000
Subject: [PATCH 14/63] fix: merge dictionaries only if the whole types of
 their values are the same

Only the outermost type was compared, and the values of all but one dictionary were lost.
An integer and a float are merged as a float in any order.
---
 .../generic_type/dict_data_type_tree.py       | 25 +++++++++++++------
 .../generic_type/generic_data_type_tree.py    |  3 ++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 43e3b4c..7a07c37 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,9 +1,10 @@
 import json
 import unicodedata
 from collections import defaultdict
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from itertools import islice
 from typing import (
+    AbstractSet,
     Any,
     Dict,
     Hashable,
@@ -38,7 +39,7 @@ ValueT = TypeVar("ValueT")
 class DictMetadataComparison:
     common_keys: Set[Hashable] = field(default_factory=set)
     non_common_keys: Set[Hashable] = field(default_factory=set)
-    value_types: Mapping[Hashable, Set[Type[object]]] = field(default_factory=lambda: defaultdict(set))
+    value_types: Mapping[Hashable, AbstractSet[Hashable]] = field(default_factory=lambda: defaultdict(set))
 
     @property
     def percentage_similarity(self) -> int:
@@ -388,12 +389,17 @@ class DictDataTypeTree(MappingDataTypeTree):
 
         This allows to check its similarity or keys in common for example.
         """
-        dicts_metadata = [
-            tree.dict_metadata
-            for tree in trees
-            if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict
+        typed_dict_trees = [
+            tree for tree in trees if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict
         ]
-        return DictMetadata.compare_multiple_dicts(*dicts_metadata)
+        comparison = DictMetadata.compare_multiple_dicts(*(tree.dict_metadata for tree in typed_dict_trees))
+        # The types to be compared are those of the whole values, not only of their outermost container
+        hashes: Dict[Hashable, List[Hashable]] = defaultdict(list)
+        for tree in typed_dict_trees:
+            for key, child in tree.children.items():
+                hashes[key].append(child._get_hash())
+        value_types = {key: DictDataTypeTree._get_hash_types(hashes_) for key, hashes_ in hashes.items()}
+        return replace(comparison, value_types=value_types)
 
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
@@ -406,7 +412,10 @@ class DictDataTypeTree(MappingDataTypeTree):
         """
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
-            merged_dict.update(d)
+            for key, value in d.items():
+                if type(value) is int and type(merged_dict.get(key)) is float:
+                    continue
+                merged_dict[key] = value
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 7714a19..1e6df72 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -89,7 +89,8 @@ class GenericDataTypeTree(DataTypeTree):
             return type_.__name__
         return f'"{type_.__name__}"'
 
-    def _get_hash_types(self, types: Iterable[Hashable]) -> FrozenSet[Hashable]:
+    @staticmethod
+    def _get_hash_types(types: Iterable[Hashable]) -> FrozenSet[Hashable]:
         """Get the hash of types that are going to be represented as a union."""
         hashes = set(types)
         if id(float) in hashes:  # `int` is not shown next to a `float`
-- 
2.43.0


From d22a4ab38c927eabfd9060d0b1b99e01da41c1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:16 +0000
Subject: [PATCH 15/63] fix: escape the text of docstrings and keep its blank
 lines

---
 lazy_type_hint/utils/docstring_formatter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..1a7393f 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -15,7 +15,7 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
     """
     substrings: List[str] = []
     for line in string.split("\n"):
-        if not line:
+        if not line.strip():
             substrings.append("")
         words = line.split()
         current_substring = ""
@@ -34,6 +34,12 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
     return tuple(substrings)
 
 
+def _escape(string: str) -> str:
+    """Escape whatever cannot be part of a triple quoted string as it is."""
+    string = string.replace("\\", "\\\\").replace('"""', r"\"\"\"").replace("\0", r"\x00")
+    return string.encode("utf-8", "backslashreplace").decode("utf-8")  # Lone surrogates
+
+
 def format_string_as_docstring(string: str, *, max_line_length: int = 90, indentation: str = "") -> str:
     """
     Formats a string as a docstring.
@@ -46,7 +52,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n")
+    string = _escape(string.rstrip("\n"))
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From 7cdca2f84b55a84e1e09523798d276d4bd5c954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 16/63] fix: hint every callable with a signature that can be
 evaluated

Builtins, class methods and functions without source failed; defaults that are not literals, names that are
not imported and imports after a comma broke the generated file; generators and coroutines were said to return
None; functions that only differ in what they return were mixed up.
---
 .../function_data_type_tree.py                | 73 +++++++++++++++----
 lazy_type_hint/utils/import_manager.py        | 29 +++++++-
 2 files changed, 88 insertions(+), 14 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..fd45b4e 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -11,6 +11,16 @@ from lazy_type_hint.data_type_tree.simple_data_type_tree.simple_data_type_tree i
 from lazy_type_hint.utils import TAB
 
 
+class _Verbatim:
+    """Annotation that is represented by the given string."""
+
+    def __init__(self, string: str) -> None:
+        self.string = string
+
+    def __repr__(self) -> str:
+        return self.string
+
+
 class FunctionDataTypeTree(SimpleDataTypeTree):
     wraps = (FunctionType, staticmethod, classmethod, BuiltinFunctionType, MethodType)
     data: Callable[[Any], Any]
@@ -28,10 +38,12 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
 
     @property
     def can_be_inspected(self) -> bool:
+        if isinstance(self.data, BuiltinFunctionType):
+            return False
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (TypeError, ValueError):
             return False
 
     def _get_str_top_node(self) -> str:
@@ -43,16 +55,49 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
         self.imports.add("Protocol")
-        self.imports.import_all_unkown_symbols_from_signature(args)
+        return f"""class {self.name}(Protocol):\n{TAB}def __call__{self._get_signature_str()}: ..."""
 
-        if "->" not in args:
-            if not self._has_return():
-                return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
-            self.imports.add("Any")
-            return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
-        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
+    def _get_signature_str(self) -> str:
+        signature = inspect.signature(self.data)
+        parameters = [
+            parameter.replace(
+                annotation=self._get_annotation(parameter.annotation), default=self._get_default(parameter.default)
+            )
+            for parameter in signature.parameters.values()
+        ]
+        args = str(
+            signature.replace(
+                parameters=parameters, return_annotation=self._get_annotation(signature.return_annotation)
+            )
+        )
+        if signature.return_annotation is not inspect.Signature.empty:
+            return args
+        if self._has_return() is False:
+            return f"{args} -> None"
+        self.imports.add("Any")
+        return f"{args} -> Any"
+
+    def _get_annotation(self, annotation: Any) -> Any:
+        """Get the annotation as it must be written. It will be quoted if it uses names that cannot be imported."""
+        if annotation is Parameter.empty:
+            return annotation
+        string = annotation if isinstance(annotation, str) else inspect.formatannotation(annotation)
+        all_symbols_are_known = self.imports.import_symbols_from_annotation(string)
+        if isinstance(annotation, str) or not all_symbols_are_known:
+            return string
+        return _Verbatim(string)
+
+    @staticmethod
+    def _get_default(default: Any) -> Any:
+        """Get the default value, or `...` if this one cannot be written as a literal."""
+        if default is Parameter.empty:
+            return default
+        try:
+            ast.literal_eval(repr(default))
+        except Exception:  # noqa: BLE001
+            return ...
+        return default
 
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
@@ -72,13 +117,15 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return self._get_signature_str()
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
+        """Check whether anything might be returned. None if that is unknown."""
         try:
-            tree = ast.parse(code)
+            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except:  # noqa: E722
             return None
-        return any(isinstance(node, ast.Return) for node in ast.walk(tree))
+        return any(
+            isinstance(node, (ast.Return, ast.Yield, ast.YieldFrom, ast.AsyncFunctionDef)) for node in ast.walk(tree)
+        )
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index ce78934..6b28c02 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,3 +1,4 @@
+import ast
 import builtins
 import re
 from collections import defaultdict
@@ -113,6 +114,32 @@ class ImportManager:
             return_value = re_output.group(1).rstrip(":")
             self._import_symbols(return_value)
 
+    def import_symbols_from_annotation(self, annotation: str) -> bool:
+        """
+        Imports all symbols of an annotation that are known.
+
+        Args:
+            annotation (str): The annotation as it would be written in a signature.
+
+        Returns:
+            bool: Whether all symbols are known, so that the annotation can be evaluated.
+        """
+        try:
+            nodes = list(ast.walk(ast.parse(annotation, mode="eval")))
+        except (SyntaxError, ValueError):
+            return False
+        modules = {id(node.value) for node in nodes if isinstance(node, ast.Attribute)}
+        all_symbols_are_known = not modules
+        for node in nodes:
+            if not isinstance(node, ast.Name) or id(node) in modules:
+                continue
+            symbol = self._cast_symbol(node.id)
+            if self._is_importable_symbol(symbol) and self.PACKAGE[symbol][-1] == node.id:
+                self.add(symbol)
+            elif not hasattr(builtins, node.id):
+                all_symbols_are_known = False
+        return all_symbols_are_known
+
     def _import_symbols(self, symbol: str) -> None:
         """Import all unknown symbols. Including those belonging to generic type hints."""
         symbols = re.findall(r"\b\w+\b", symbol)
@@ -123,7 +150,7 @@ class ImportManager:
 
     @staticmethod
     def _cast_symbol(symbol: str) -> str:
-        if symbol in ("List", "Tuple", "Set", "Dict"):
+        if symbol in ("List", "Tuple", "Set", "Dict", "Type"):
             return symbol.lower()
         return symbol
 
-- 
2.43.0


From f4a03a287a97b41fac5634ad7d4cd552643846f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:33 +0000
Subject: [PATCH 17/63] fix: hint files as files, not as iterators

---
 lazy_type_hint/data_type_tree/data_type_tree.py          | 9 +++++----
 .../generic_type/iterator_data_type_tree.py              | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 170a50e..ca2db69 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -107,10 +107,11 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
-        for subclass in DataTypeTree.subclasses.values():
-            for wrap in subclass.wraps:
-                if isinstance(data, wrap):
-                    return subclass
+        wraps = [wrap for wrap in DataTypeTree.subclasses if isinstance(data, wrap)]
+        for wrap in wraps:
+            # Files are also iterators: choose the most specific one
+            if not any(issubclass(other, wrap) for other in wraps if other is not wrap):
+                return DataTypeTree.subclasses[wrap]
         return DataTypeTree.subclasses[int]  # For instances created from any custom class.
 
     def _check_tree_is_correct_one(self, data: object) -> None:
diff --git a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
index fe641fe..6eb0a57 100644
--- a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
@@ -1,4 +1,5 @@
-from typing import Any, Iterator, Sequence, Tuple
+from collections.abc import Iterator
+from typing import Any, Sequence, Tuple
 
 from typing_extensions import override
 
-- 
2.43.0


From 4a9719b056a4f0351bfec785af6eb58972571f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 18/63] fix: hint binary files as BinaryIO

---
 .../simple_data_type_tree/io_data_type_tree.py      | 13 +++++++++++--
 lazy_type_hint/utils/import_manager.py              |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..9de8419 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,4 +1,5 @@
 import io
+from typing import Hashable, Literal
 
 from typing_extensions import override
 
@@ -10,5 +11,13 @@ class IoDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        self.imports.add("TextIO").add("TypeAlias")
-        return f"{self.name}: TypeAlias = TextIO"
+        file_type = self._get_file_type()
+        self.imports.add(file_type).add("TypeAlias")
+        return f"{self.name}: TypeAlias = {file_type}"
+
+    @override
+    def _get_hash(self) -> Hashable:
+        return self._get_file_type()
+
+    def _get_file_type(self) -> Literal["TextIO", "BinaryIO"]:
+        return "TextIO" if isinstance(self.data, io.TextIOBase) else "BinaryIO"
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index 6b28c02..96b37ac 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -42,6 +42,7 @@ KEYWORDS_AVAILABLE: "TypeAlias" = Literal[
     "NDArray",
     "ModuleType",
     "TextIO",
+    "BinaryIO",
     "annotations",
 ]
 
@@ -81,6 +82,7 @@ class ImportManager:
             "TypeAlias": ("typing_extensions", "TypeAlias"),
             "pd.Scalar": ("pandas._typing", "Scalar"),
             "TextIO": ("typing", "TextIO"),
+            "BinaryIO": ("typing", "BinaryIO"),
             "Iterator": ("typing", "Iterator"),
             "annotations": ("__future__", "annotations"),
         }
-- 
2.43.0


From 1aab45610d5d4b95c9f14710fc06fcbde3a097da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 19/63] fix: hint subclasses of frozenset as FrozenSet

---
 .../data_type_tree/generic_type/set_data_type_tree.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 2c85130..33a1bed 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -26,7 +26,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_str_top_node(self) -> str:
-        container: Literal["FrozenSet", "set"] = "FrozenSet" if self.holding_type is frozenset else "set"
+        container: Literal["FrozenSet", "set"] = "FrozenSet" if issubclass(self.holding_type, frozenset) else "set"
         self.imports.add(container).add("TypeAlias")
 
         if container == "FrozenSet":
@@ -35,7 +35,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        return self.holding_type is frozenset, super()._get_hash()
+        return issubclass(self.holding_type, frozenset), super()._get_hash()
 
     @override
     def __iter__(self) -> "Self":
-- 
2.43.0


From efb26d2c929b23c56103322ee5d81e94e273b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:39 +0000
Subject: [PATCH 20/63] fix: hint the class of None as Type[None]

---
 .../data_type_tree/simple_data_type_tree/type_data_type_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 6449b0c..1f8beba 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -13,6 +13,8 @@ class TypeDataTypeTree(SimpleDataTypeTree):
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("type").add("TypeAlias")
+        if self.data is type(None):
+            return f"{self.name}: TypeAlias = Type[None]"
         if self.is_builtin_class():
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
-- 
2.43.0


From 208376fae1fc6de63849fe8f59a23858face0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 21/63] fix: read the YAML comments from a temporary directory
 that is removed afterwards

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 12 ++++++++----
 lazy_type_hint/generators/lazy_type_hint_abc.py     |  7 +++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..dd8245c 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -80,7 +80,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text().splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8", errors="surrogateescape").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
@@ -416,16 +416,20 @@ class YamlFileModifier:
             new_lines.insert(comment.key_line, string)
         return "\n".join(new_lines)
 
-    def create_temporary_file_with_comments_as_keys(self) -> Path:
+    def create_temporary_file_with_comments_as_keys(self, directory: Optional[Union[str, Path]] = None) -> Path:
         """Create a new YAML file with new keys containing the documentation.
 
         This method creates a new YAML file by converting the comments in the original file into keys in the new file.
         The comments are extracted from the original file and added as keys in the new file.
 
+        Args:
+            directory (Optional[Union[str, Path]]): Directory where the file will be created. If not given, the one
+                for temporary files of the system is used.
+
         Returns:
             Path: The path to the newly created YAML file.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
-        path.write_text(string)
+        path = Path(tempfile.gettempdir() if directory is None else directory) / f"_{self.path.name}"
+        path.write_text(string, encoding="utf-8", errors="surrogateescape")
         return path
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..6ab119c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from abc import ABC
 from dataclasses import dataclass
 from pathlib import Path
@@ -69,8 +70,10 @@ class LazyTypeHintABC(ABC):
         yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
         original_data = loader(path)
         try:
-            new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
+            # A directory of its own, as other files with the same name might be read at the same time
+            with tempfile.TemporaryDirectory() as directory:
+                new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys(directory))
+                potentially_modified_data = loader(new_path)
             return self.from_data(potentially_modified_data, class_name=class_name)
         except Exception:  # noqa: BLE001
             return self.from_data(original_data, class_name=class_name)
-- 
2.43.0


From 92151bf856fadb26c33857399fc4795c8b01b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 22/63] fix: return the data of the YAML file, without its
 comments, from the live tool

---
 .../generators/lazy_type_hint_abc.py          | 25 ++++++++++++++++---
 .../generators/lazy_type_hint_live.py         |  4 ++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 6ab119c..d9a9ccf 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -8,6 +8,7 @@ from typing import (
     Callable,
     Optional,
     Sequence,
+    Tuple,
     TypeVar,
     Union,
 )
@@ -65,18 +66,34 @@ class LazyTypeHintABC(ABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> Any:
+        original_data, potentially_modified_data = self._load_yaml_file(loader, path, comments_are)
+        return self._from_yaml_data(original_data, potentially_modified_data, class_name=class_name)
+
+    def _from_yaml_data(self, original_data: object, potentially_modified_data: object, *, class_name: str) -> Any:
+        try:
+            return self.from_data(potentially_modified_data, class_name=class_name)
+        except Exception:  # noqa: BLE001
+            return self.from_data(original_data, class_name=class_name)
+
+    @staticmethod
+    def _load_yaml_file(
+        loader: Callable[[PathT], object],
+        path: PathT,
+        comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]],
+    ) -> Tuple[Any, Any]:
+        """Get the data of the YAML file and the one that carries its comments as hidden keys (if they can be read)."""
         if comments_are is None:
-            return self.from_data(loader(path), class_name=class_name)
+            original_data = loader(path)
+            return original_data, original_data
         yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
         original_data = loader(path)
         try:
             # A directory of its own, as other files with the same name might be read at the same time
             with tempfile.TemporaryDirectory() as directory:
                 new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys(directory))
-                potentially_modified_data = loader(new_path)
-            return self.from_data(potentially_modified_data, class_name=class_name)
+                return original_data, loader(new_path)
         except Exception:  # noqa: BLE001
-            return self.from_data(original_data, class_name=class_name)
+            return original_data, original_data
 
     def from_data(
         self,
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..f3f1099 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -107,7 +107,9 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        original_data, potentially_modified_data = self._load_yaml_file(loader, path, comments_are)
+        self._from_yaml_data(original_data, potentially_modified_data, class_name=class_name)
+        return cast(ObjectT, original_data)
 
     @override
     def from_data(
-- 
2.43.0


From 7ef5ecc1e6012c461b3bfda17f6fceedc5fb26e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:44 +0000
Subject: [PATCH 23/63] fix: take the classes added by other instances of the
 live tool into account

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index f3f1099..f40b997 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -70,7 +70,10 @@ class LazyTypeHintLive(LazyTypeHintABC):
     ) -> None:
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
+        self._load_this_file_pyi()
 
+    @final
+    def _load_this_file_pyi(self) -> None:
         if not self._this_file_pyi_path.exists():
             self.this_file_pyi = self._generate_this_file_pyi()
         else:
@@ -122,6 +125,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             raise LazyTypeHintLiveError(
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
+        self._load_this_file_pyi()  # It might have been modified by other instances
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
-- 
2.43.0


From 2f415f3fff5a7487595a084adfb81a24b58e85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 24/63] fix: leave no half-written files if the live tool is
 interrupted

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index f40b997..3245654 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -182,8 +182,14 @@ class LazyTypeHintLive(LazyTypeHintABC):
         if not self._custom_class_dir_path.exists():
             os.makedirs(self._custom_class_dir_path)
 
-        path = self._custom_class_dir_path / f"{class_name}.py"
-        path.write_text(string)
+        self._write_file(self._custom_class_dir_path / f"{class_name}.py", string)
+
+    @final
+    def _write_file(self, path: Path, string: str) -> None:
+        """Write a file that, if interrupted, is left as it was."""
+        temporary_path = self._custom_class_dir_path / f"{path.name}.tmp"
+        temporary_path.write_text(string)
+        os.replace(temporary_path, path)
 
     @final
     def _add_new_class_to_loader_pyi(self, *, new_class: str) -> None:
@@ -191,6 +197,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self._add_import_to_this_file_pyi(new_class)
         for method_name in self._methods_to_be_overloaded:
             self._add_overload_to_this_file_pyi(new_class=new_class, method_name=method_name)
+        self._update_this_file_pyi()
 
     @final
     def _add_import_to_this_file_pyi(self, new_class: str) -> None:
@@ -199,7 +206,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
             import_statement,
             in_type_checking_block=False,
         )
-        self._update_this_file_pyi()
 
     @final
     def _add_overload_to_this_file_pyi(
@@ -233,7 +239,6 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
         idx = self.this_file_pyi.search_method(method_name=method_name, return_index_above_decorator=True)[-1]
         self.this_file_pyi.add_line(idx, signature)
-        self._update_this_file_pyi()
 
     @final
     def _add_class_created_to_this_file_pyi(self, new_class: str) -> None:
@@ -250,8 +255,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
             value = value.replace("], Any]", f', "{new_class}"], Any]')
 
         self.this_file_pyi.replace_assignement(label, value)
-        self._update_this_file_pyi()
 
     @final
     def _update_this_file_pyi(self) -> None:
-        self._this_file_pyi_path.write_text(str(self.this_file_pyi))
+        self._write_file(self._this_file_pyi_path, str(self.this_file_pyi))
-- 
2.43.0


From e99de48c8894413c877e1bbf575454fade1f01cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:56 +0000
Subject: [PATCH 25/63] fix: remove the stub before the classes it refers to
 when resetting

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 3245654..ec7945c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -163,10 +163,11 @@ class LazyTypeHintLive(LazyTypeHintABC):
     @classmethod
     def reset(cls) -> None:
         """Remove all existing type hints generated by this class."""
-        if cls._custom_class_dir_path.exists():
-            shutil.rmtree(cls._custom_class_dir_path)
+        # First the file that refers to the classes, so that it never refers to one that does not exist
         if cls._this_file_pyi_path.exists():
             os.remove(cls._this_file_pyi_path)
+        if cls._custom_class_dir_path.exists():
+            shutil.rmtree(cls._custom_class_dir_path)
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-- 
2.43.0


From 82a507341e8952789bf7ce3585448f620c472fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 26/63] fix: ignore whole docstrings, and nothing else, when
 validating existing type hints

---
 .../generators/lazy_type_hint_live.py         | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index ec7945c..fad320c 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -152,13 +153,20 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
-            return string
-
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+        tree = ast.parse(string)
+        for node in ast.walk(tree):
+            if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)):
+                # Types without keys only have a docstring or an ellipsis
+                node.body = [
+                    statement
+                    for statement in node.body
+                    if not (
+                        isinstance(statement, ast.Expr)
+                        and isinstance(statement.value, ast.Constant)
+                        and (isinstance(statement.value.value, str) or statement.value.value is Ellipsis)
+                    )
+                ]
+        return ast.dump(tree)
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From 169428d8d36740598a5f072164b39c4e129f1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 27/63] fix: write the generated files in the encoding that
 Python reads them with

---
 lazy_type_hint/generators/lazy_type_hint.py      | 2 +-
 lazy_type_hint/generators/lazy_type_hint_abc.py  | 2 +-
 lazy_type_hint/generators/lazy_type_hint_live.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 0e3e295..2caa569 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -39,7 +39,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHint(LazyTypeHintABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index d9a9ccf..0ee472d 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -43,7 +43,7 @@ class Tree:
                     "(create_non_existing_dir input argument) were not set"
                 )
             os.makedirs(path_to_py.parent)
-        path_to_py.write_text(self.to_string(include_imports=True))
+        path_to_py.write_text(self.to_string(include_imports=True), encoding="utf-8")
 
 
 class LazyTypeHintABC(ABC):
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index fad320c..14d670f 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -179,7 +179,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @final
     def _generate_this_file_pyi(self) -> PyFileModifier:
-        content = Path(__file__).read_text()
+        content = Path(__file__).read_text(encoding="utf-8")
 
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
@@ -197,7 +197,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
     def _write_file(self, path: Path, string: str) -> None:
         """Write a file that, if interrupted, is left as it was."""
         temporary_path = self._custom_class_dir_path / f"{path.name}.tmp"
-        temporary_path.write_text(string)
+        temporary_path.write_text(string, encoding="utf-8")
         os.replace(temporary_path, path)
 
     @final
-- 
2.43.0


From 960d4855c450ecaf01f2857c9d9afe2a449ac32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:07 +0000
Subject: [PATCH 28/63] fix: do not type hint the columns of DataFrames if told
 so

---
 .../generic_type/pandas_data_frame_data_type_tree.py       | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index f943dc6..8c123ed 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -141,6 +141,9 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
+
         if not self.are_all_columns_literal_compatible:
             return {}
 
@@ -163,14 +166,14 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        if not self.children or self.strategies.pandas_strategies == "Do not type hint columns":
+        if not self.children:
             return "pd.DataFrame"
         return "pd.DataFrame", tuple((type(key), key, child._get_hash()) for key, child in self.children.items())
 
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("pandas")
-        if len(self) == 0 or not self.strategies.pandas_strategies:
+        if len(self) == 0:
             self.imports.add("TypeAlias")
             return f"{self.name}: TypeAlias = pd.DataFrame"
         self.imports.add("overload")
-- 
2.43.0


From 1e38bb38964da45b821e0053513280ed082d3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 29/63] fix: do not recurse forever into DataFrames with
 repeated columns

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 8c123ed..2165a4c 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -147,6 +147,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         if not self.are_all_columns_literal_compatible:
             return {}
 
+        # A repeated label gives access to a DataFrame with that same label
+        if not data.columns.is_unique:
+            return {}
+
         # Corner case to avoid infinite recursion
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
-- 
2.43.0


From c607d54cda709351b523dc4df6fac010b5e44cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 30/63] fix: reject a maximum number of elements to check of 0

---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From af92b8401e61b955b174f9e1d42c9b922cf79206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 31/63] fix: take no more elements out of an iterator than
 those to be checked

---
 .../generic_type/set_and_sequence_operations.py              | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index bb0c4e3..5b2bd00 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -5,6 +5,7 @@ hinting they are quite similar.
 """
 
 from dataclasses import dataclass
+from itertools import islice
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -42,9 +43,7 @@ class SetAndSequenceOperations:
 
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
-        for idx, element in enumerate(data):
-            if n_elements_to_check and idx >= n_elements_to_check:
-                break
+        for element in islice(data, n_elements_to_check):
             name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
             # Generate new name in case this one was already added
             if name in names_added:
-- 
2.43.0


From b79aa4d4757346d173a5b955bc0ca80cc4be005b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 32/63] fix: do not count the comments of a YAML file as keys
 to be checked

---
 .../data_type_tree/generic_type/dict_data_type_tree.py       | 3 ++-
 .../data_type_tree/generic_type/mapping_data_type_tree.py    | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 7a07c37..e71b708 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -240,7 +240,8 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            items = (item for item in self.data.items() if not self._is_hidden_key(item[0]))
+            self.data = dict(islice(items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index b83250f..b76d73d 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -26,7 +26,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
-            if isinstance(key, str) and key.startswith(self.hidden_keys_prefix):
+            if self._is_hidden_key(key):
                 continue
             child = data_type_tree_factory(
                 data=value,
@@ -41,6 +41,9 @@ class MappingDataTypeTree(GenericDataTypeTree):
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
 
+    def _is_hidden_key(self, key: Hashable) -> bool:
+        return isinstance(key, str) and key.startswith(self.hidden_keys_prefix)
+
     def _assign_same_data_type_tree_to_keys_with_same_value_type(
         self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
     ) -> None:
-- 
2.43.0


From d37c7f74c98ecffaece7e34e4fca158b45fabe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 33/63] fix: export the exception that LazyTypeHint raises

---
 lazy_type_hint/generators/lazy_type_hint.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint.py b/lazy_type_hint/generators/lazy_type_hint.py
index 2caa569..ab7a909 100644
--- a/lazy_type_hint/generators/lazy_type_hint.py
+++ b/lazy_type_hint/generators/lazy_type_hint.py
@@ -13,13 +13,10 @@ from typing import (
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.file_modifiers.yaml_file_modifier import YAML_COMMENTS_POSITION
 from lazy_type_hint.generators.lazy_type_hint_abc import LazyTypeHintABC
+from lazy_type_hint.generators.lazy_type_hint_abc import LazyTypeHintError as LazyTypeHintError
 from lazy_type_hint.strategies import ParsingStrategies
 
 
-class LazyTypeHintError(Exception):
-    """Raised by `LazyTypeHint` class."""
-
-
 PathT = TypeVar("PathT", str, Path)
 
 
-- 
2.43.0


From dca1ae81b205992246847307cf9b15a65985b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:17 +0000
Subject: [PATCH 34/63] fix: name the strategy in the message of the error
 about its value

---
 lazy_type_hint/strategies.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index fb3ba99..47eea98 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -36,8 +36,8 @@ class ParsingStrategies:
             raise ValueError("`min_height_to_define_type_alias` must be greater or equal than 0")
 
         if self.merge_different_typed_dicts_if_similarity_above <= 0:
-            raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
+            raise ValueError("`merge_different_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
-            raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
+            raise ValueError("`merge_different_typed_dicts_if_similarity_above` must be less or equal than 100")
         if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
-            raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
+            raise ValueError("`check_max_n_elements_within_container` must be at least 1")
-- 
2.43.0


From 535f9085da2c019690d4d7553e0e03a0b51db457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 35/63] fix: compute the similarity of dictionaries without
 rounding errors

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e71b708..f5fecf6 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -46,7 +46,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-- 
2.43.0


From 9182d676fd1e577055864c58034f1b01f8bf5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 36/63] fix: hint DataFrames with tuples as plain column labels
 as DataFrames

---
 .../generic_type/pandas_data_frame_data_type_tree.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 2165a4c..98da2fc 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -151,6 +151,10 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         if not data.columns.is_unique:
             return {}
 
+        # Tuples that are labels on their own, not the levels of a multi-level index, cannot be written as literals
+        if self.can_be_accessed_multilevel and data.columns.nlevels == 1:
+            return {}
+
         # Corner case to avoid infinite recursion
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
-- 
2.43.0


From 64f159fc8f910e88993ef454ce586f7099b11d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 37/63] fix: write the class of DataFrames with tuples next to
 other labels on its own

---
 .../generic_type/pandas_data_frame_data_type_tree.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 98da2fc..75a0990 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -89,9 +89,12 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         Situations where permission is given:
             - If columns are tuples: And first level are str, int or bool
             - If columns are not tuples: And columns are str, int, bool
+            - If any of its columns is type hinted, as this requires a class
 
         Otherwise delegate to super class
         """
+        if self.children:
+            return True
         if all(isinstance(column, tuple) for column in self.data.columns):
             if all(isinstance(column[0], (str, bool, int)) for column in self.data.columns):
                 return True
-- 
2.43.0


From d6cf275e00c9e3450eaf8d7faf22b7e3fab08648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:25 +0000
Subject: [PATCH 38/63] fix: do not use the comments of a YAML file if they
 change its structure

---
 .../generators/lazy_type_hint_abc.py          | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 0ee472d..00efa21 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -91,9 +91,34 @@ class LazyTypeHintABC(ABC):
             # A directory of its own, as other files with the same name might be read at the same time
             with tempfile.TemporaryDirectory() as directory:
                 new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys(directory))
-                return original_data, loader(new_path)
+                data_with_comments = loader(new_path)
         except Exception:  # noqa: BLE001
             return original_data, original_data
+        if not LazyTypeHintABC._is_same_structure(original_data, data_with_comments):
+            return original_data, original_data
+        return original_data, data_with_comments
+
+    @staticmethod
+    def _is_same_structure(data: object, data_with_comments: object) -> bool:
+        """Check that the comments did nothing else than adding their hidden keys."""
+        if type(data) is not type(data_with_comments):
+            return False
+        if isinstance(data, dict) and isinstance(data_with_comments, dict):
+            keys = [
+                key
+                for key in data_with_comments
+                if not (isinstance(key, str) and key.startswith(YamlFileModifier.prefix))
+            ]
+            return keys == list(data) and all(
+                LazyTypeHintABC._is_same_structure(data[key], data_with_comments[key]) for key in keys
+            )
+        if isinstance(data, (list, tuple)) and isinstance(data_with_comments, (list, tuple)):
+            return len(data) == len(data_with_comments) and all(
+                LazyTypeHintABC._is_same_structure(*elements) for elements in zip(data, data_with_comments)
+            )
+        if isinstance(data, (set, frozenset)):
+            return data == data_with_comments
+        return True
 
     def from_data(
         self,
-- 
2.43.0


From 46c01e34091692d7ec2aa01be418933a4ea7df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:26 +0000
Subject: [PATCH 39/63] fix: take only the lines that are comments as the
 comments above or below a key

---
 .../file_modifiers/yaml_file_modifier.py          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index dd8245c..f1628c7 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -3,7 +3,6 @@
 import re
 import tempfile
 from collections import defaultdict
-from contextlib import suppress
 from dataclasses import dataclass
 from pathlib import Path
 from typing import (
@@ -199,12 +198,11 @@ class YamlFileModifier:
         idx_first_char = line.find(line.strip().replace("-", "").strip()[0])
 
         step: Final = -1 if comments_are == "above" else 1
-        increment = step
         multi_line_comments: List[str] = []
-        with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
-                multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
-                increment += step
+        idx = line_idx + step
+        while 0 <= idx < len(self.lines) and self._is_comment_aligned_with(self.lines[idx], idx_first_char):
+            multi_line_comments.append(self.lines[idx][idx_first_char + 1 :].strip())
+            idx += step
 
         if not multi_line_comments:
             return ""
@@ -215,6 +213,11 @@ class YamlFileModifier:
             string = self._join_multi_line_comments(multi_line_comments)
         return string.replace("'''", "").replace('"""', "")
 
+    @staticmethod
+    def _is_comment_aligned_with(line: str, idx: int) -> bool:
+        """Check that the whole line is a comment that starts at the given index."""
+        return line[idx : idx + 1] == "#" and not line[:idx].strip()
+
     @staticmethod
     def _find_first_occurrence_that_is_not_between(
         line: str, occurrence: str, not_between: FrozenSet[str] = frozenset({"'", '"'})
-- 
2.43.0


From b87a6c3a562f3a9bf8b59beb6e5c7045ae9454cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 40/63] fix: read the keys and side comments of a YAML file the
 way YAML does

---
 .../file_modifiers/yaml_file_modifier.py      | 87 +++++++++++++------
 1 file changed, 62 insertions(+), 25 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index f1628c7..5bbc9d5 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -21,6 +21,23 @@ YAML_COMMENTS_POSITION = Literal["above", "below", "side"]
 """Possible locations where comments can be written."""
 
 
+KEY_LINE_PATTERN: Final = re.compile(
+    r"""
+    (?P<prefix>[ \t]*(?:-[ \t]+)*)
+    (?P<key>
+        "(?:\\.|[^"\\])*"
+        | '(?:''|[^'])*'
+        | (?:[^\s\-?:,\[\]{}\#&*!|>'"%@`]|[\-?:](?=\S))(?:[^:\#]|:(?=\S)|(?<=\S)\#)*?
+    )
+    [ \t]*:(?=\s|$)
+    """,
+    re.VERBOSE,
+)
+"""Line that has a key and, before it, the hyphens of the lists whose first element is that key."""
+QUOTED_PATTERN: Final = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:''|[^'])*'")
+"""Value that is between quotes."""
+
+
 @dataclass(frozen=True)
 class Comment:
     """Characterization of a single multi-line comment."""
@@ -156,19 +173,33 @@ class YamlFileModifier:
         Example:
             yaml_key: value  # My comment
         """
-        idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line, "#")
-        if not idx:
-            return ""
-        try:
-            if line[idx - 1] != " ":
-                return ""
-        except IndexError:
+        idx = YamlFileModifier._find_comment(line)
+        if idx is None:
             return ""
         comment = line[idx + 1 :].strip().rstrip()
         if comment and not comment.endswith("."):
             return comment + "."
         return comment
 
+    @staticmethod
+    def _find_comment(line: str) -> Optional[int]:
+        """Find where the comment of a line starts. That is, a hash that is neither quoted nor part of a word."""
+        idx = 0
+        is_start_of_value = True
+        while idx < len(line):
+            # Quotes that are in the middle of a value have no special meaning
+            quoted = QUOTED_PATTERN.match(line, idx) if is_start_of_value else None
+            if quoted:
+                idx = quoted.end()
+                is_start_of_value = False
+                continue
+            if line[idx] == "#" and (idx == 0 or line[idx - 1].isspace()):
+                return idx
+            if not line[idx].isspace():
+                is_start_of_value = line[idx] in ":-?,[{"
+            idx += 1
+        return None
+
     def _extract_single_block_comment(self, line_idx: int, *, comments_are: Literal["above", "below"]) -> str:
         """
         Extracts a single block comment from the specified line index.
@@ -193,9 +224,10 @@ class YamlFileModifier:
             line = self.lines[line_idx]
         except IndexError:
             return ""
-        if not self._find_first_occurrence_that_is_not_between(line, ":"):
+        match = KEY_LINE_PATTERN.match(line)
+        if not match:
             return ""
-        idx_first_char = line.find(line.strip().replace("-", "").strip()[0])
+        idx_first_char = match.start("key")
 
         step: Final = -1 if comments_are == "above" else 1
         multi_line_comments: List[str] = []
@@ -251,15 +283,10 @@ class YamlFileModifier:
             - key: value
               key2: value
         """
-        line = YamlFileModifier._remove_spacing(line)
-        if line[0] == "-":  # Detect list cases
-            line = " " + line[1:]
-
-        idx_first_char = line.find(line.strip()[0])
-        idx_last_char = YamlFileModifier._find_first_occurrence_that_is_not_between(line=line, occurrence=":")
-        if not idx_last_char:
+        match = KEY_LINE_PATTERN.match(line)
+        if not match:
             return ""
-        line = line[idx_first_char:idx_last_char]
+        line = match["key"].lstrip("-")
         if line.startswith('"') and line.endswith('"'):
             return line.strip('"')
         elif line.startswith("'") and line.endswith("'"):
@@ -326,14 +353,17 @@ class YamlFileModifier:
             A tuple of Comment objects representing the extracted comments.
         """
         comments: List[Comment] = []
-        indentation = self._detect_indentation(self.lines)
+        indentation: Literal["spaces", "tabs", "??"] = "spaces"
+        # Tabs that are not at the beginning of the line do not indent
+        if any("\t" in match["prefix"] for match in map(KEY_LINE_PATTERN.match, self.lines) if match):
+            indentation = self._detect_indentation(self.lines)
         if indentation == "??":
             return ()
 
         for idx, line in enumerate(self.lines):
-            line_with_no_spacing = self._remove_spacing(line)
-            if len(line_with_no_spacing) > 0 and (line_with_no_spacing[0].isalpha() or line_with_no_spacing[0] == "-"):
-                spaces_or_tabs = self._count_spaces_or_tabs_at_start(line, indentation=indentation)
+            match = KEY_LINE_PATTERN.match(line)
+            if match:
+                spaces_or_tabs = self._count_spaces_or_tabs_at_start(match["prefix"], indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
 
@@ -347,7 +377,7 @@ class YamlFileModifier:
                         comment = self._capitalize_only_first_letter(comment)
                     elif comments_are == "side":
                         comment = self._extract_side_comment(line)
-                    is_key_first_element_within_list = line_with_no_spacing[0] == "-"
+                    is_key_first_element_within_list = "-" in match["prefix"]
 
                     if not comment:
                         continue
@@ -412,10 +442,17 @@ class YamlFileModifier:
         reverse_order_comments = sorted(comments, key=lambda comment: comment.key_line, reverse=True)
         new_lines = list(self.lines).copy()
         for comment in reverse_order_comments:
-            key = self.prefix + comment.associated_with_key
-            string = f"{comment.spacing}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
+            match = KEY_LINE_PATTERN.match(self.lines[comment.key_line])
+            if not match:
+                continue
+            # The new key is written as the existing one
+            key = match["key"]
+            quote = key[0] if key[0] in ("'", '"') else ""
+            key = f"{quote}{self.prefix}{key[len(quote) :]}"
+            string = f"{match['prefix']}{key}: |{self._format_comment_as_multiline_yaml(comment)}"
             if comment.must_replace_its_key_as_first_element_of_list:
-                new_lines[comment.key_line] = new_lines[comment.key_line].replace("-", " ", 1)
+                line = self.lines[comment.key_line]
+                new_lines[comment.key_line] = match["prefix"].replace("-", " ") + line[match.end("prefix") :]
             new_lines.insert(comment.key_line, string)
         return "\n".join(new_lines)
 
-- 
2.43.0


From e9c20abe61bd3825c0f58f4c8497e2098a3c698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 41/63] fix: keep the docstrings of the keys of all the
 dictionaries that share a hint

---
 .../generic_type/dict_data_type_tree.py       | 18 ++++++++++++++++++
 .../generic_type/generic_data_type_tree.py    | 11 +++++++++++
 .../generic_type/mapping_data_type_tree.py    |  5 +++++
 .../set_and_sequence_operations.py            | 19 +++----------------
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index f5fecf6..62527af 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -23,6 +23,7 @@ from typing import (
 from typing_extensions import Self, TypeGuard, override
 
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
+from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree
 from lazy_type_hint.data_type_tree.generic_type.mapping_data_type_tree import MappingDataTypeTree
 from lazy_type_hint.strategies import ParsingStrategies
 from lazy_type_hint.utils import (
@@ -362,6 +363,21 @@ class DictDataTypeTree(MappingDataTypeTree):
         """Given another child, this will update the current node with all the data and metadata."""
         self.data = dict(self.dict_metadata.update(other.dict_metadata))
 
+    @override
+    def update_from_equal_tree(self, other: GenericDataTypeTree) -> None:
+        if not (isinstance(other, DictDataTypeTree) and self.dict_metadata.is_typed_dict):
+            super().update_from_equal_tree(other)
+            return
+        self.update_data_and_metadata(other)
+        self._update_children_from_equal_children(other)
+
+    def _update_children_from_equal_children(self, other: "DictDataTypeTree") -> None:
+        for key, other_child in other.children.items():
+            child = self.children[key]
+            if isinstance(child, GenericDataTypeTree) and isinstance(other_child, GenericDataTypeTree):
+                if child is not other_child and child == other_child:
+                    child.update_from_equal_tree(other_child)
+
     def _insert_class_docstring(self, lines: Sequence[str], *, key_used_as_doc: str) -> List[str]:
         string = self.data[key_used_as_doc]
         lines = list(lines)
@@ -444,4 +460,6 @@ class DictDataTypeTree(MappingDataTypeTree):
             parent=trees[0].parent,
         )
         new_tree.dict_metadata = random_tree.dict_metadata
+        for tree in trees:
+            new_tree._update_children_from_equal_children(tree)
         return new_tree
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 1e6df72..2ee4cc4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -97,6 +97,17 @@ class GenericDataTypeTree(DataTypeTree):
             hashes.discard(id(int))
         return frozenset(hashes)
 
+    def update_from_equal_tree(self, other: "GenericDataTypeTree") -> None:
+        """Take whatever another tree, that is equal from the point of view of types, carries additionally.
+
+        This extra information can be hidden docstrings at any depth.
+        """
+        children = {child: child for child in self}
+        for other_child in list(other):
+            child = children.get(other_child)
+            if isinstance(child, GenericDataTypeTree) and isinstance(other_child, GenericDataTypeTree):
+                child.update_from_equal_tree(other_child)
+
     @override
     def _get_hash(self) -> Hashable:
         return type(self).__name__, self._get_hash_types(child._get_hash() for child in self)
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index b76d73d..be78cdd 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -23,6 +23,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
     def _instantiate_children(self, data: Mapping[Hashable, object]) -> Mapping[Hashable, DataTypeTree]:  # type: ignore
         children: Dict[Hashable, DataTypeTree] = {}
         children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
+        equal_children: Dict[DataTypeTree, DataTypeTree] = {}
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
@@ -38,6 +39,10 @@ class MappingDataTypeTree(GenericDataTypeTree):
             )
             children_info[child].add(key)
             children[key] = child
+            equal_child = equal_children.setdefault(child, child)
+            if isinstance(equal_child, GenericDataTypeTree) and isinstance(child, GenericDataTypeTree):
+                if equal_child is not child:
+                    equal_child.update_from_equal_tree(child)
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
 
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 5b2bd00..c0ccf8b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -10,7 +10,6 @@ from typing import (
     TYPE_CHECKING,
     Any,
     Dict,
-    Iterable,
     List,
     Sequence,
     Set,
@@ -20,6 +19,7 @@ from typing import (
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
 from lazy_type_hint.data_type_tree.generic_type.dict_data_type_tree import DictDataTypeTree
+from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree
 
 if TYPE_CHECKING:
     from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
@@ -68,8 +68,8 @@ class SetAndSequenceOperations:
                 continue
 
             child_added = children_added[child]
-            if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                self._update_existing_typed_dict_child_from_another_equal_child([child_added], child)
+            if isinstance(child_added, GenericDataTypeTree) and isinstance(child, GenericDataTypeTree):
+                child_added.update_from_equal_tree(child)
             if allow_repeated_children:  # Tuple case
                 children.append(child_added)
 
@@ -79,19 +79,6 @@ class SetAndSequenceOperations:
             allow_repeated_children=allow_repeated_children,
         )
 
-    def _update_existing_typed_dict_child_from_another_equal_child(
-        self, children: "Iterable[DataTypeTree]", child: DictDataTypeTree
-    ) -> None:
-        """
-        Merge dicts equal from the point of view of types but that might carry any extra information or metadata.
-
-        This extra information can be hidden docstrings. Therefore, this will transfer all the information
-        to the already added DictDataTypeTree child
-        """
-        for child_added in children:
-            if child == child_added and isinstance(child_added, DictDataTypeTree):
-                child_added.update_data_and_metadata(child)
-
     @staticmethod
     def _merge_similar_typed_dicts(
         children: "Union[Set[DataTypeTree], Sequence[DataTypeTree]]",
-- 
2.43.0


From efa16d1abb4659c076e6355b8e08a876e162a78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:54 +0000
Subject: [PATCH 42/63] fix: write lone surrogates in docstrings in a way that
 can be imported

---
 lazy_type_hint/utils/docstring_formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 1a7393f..0ad7286 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -36,8 +36,9 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
 
 def _escape(string: str) -> str:
     """Escape whatever cannot be part of a triple quoted string as it is."""
-    string = string.replace("\\", "\\\\").replace('"""', r"\"\"\"").replace("\0", r"\x00")
-    return string.encode("utf-8", "backslashreplace").decode("utf-8")  # Lone surrogates
+    # Lone surrogates cannot be part of a docstring in any way. Their escape sequences are written instead
+    string = string.encode("utf-8", "backslashreplace").decode("utf-8")
+    return string.replace("\\", "\\\\").replace('"""', r"\"\"\"").replace("\0", r"\x00")
 
 
 def format_string_as_docstring(string: str, *, max_line_length: int = 90, indentation: str = "") -> str:
-- 
2.43.0


From 020e5e65330ec7688ec5d5a52d547e06ad18f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 43/63] fix: do not accept __debug__ as a name, as Python does
 not let it be defined

---
 lazy_type_hint/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index fc62f8b..1b0f173 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -2,6 +2,7 @@ import ast
 import keyword
 import os
 import subprocess
+import unicodedata
 from itertools import zip_longest
 from typing import Any, Final, List, Protocol, TypeVar, Union, cast
 
@@ -18,7 +19,8 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return string.isidentifier() and not keyword.iskeyword(string)
+    is_assignable = unicodedata.normalize("NFKC", string) != "__debug__"  # Only name that Python does not let assign
+    return string.isidentifier() and not keyword.iskeyword(string) and is_assignable
 
 
 def compare_ast(
-- 
2.43.0


From 7adbeeba83cb64a68a4af91b2a8636c2333a5693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:40 +0000
Subject: [PATCH 44/63] fix: refer by quoted name to classes that share their
 name with a builtin

---
 .../data_type_tree/generic_type/generic_data_type_tree.py | 2 +-
 .../simple_data_type_tree/instance_data_type_tree.py      | 6 +-----
 .../simple_data_type_tree/type_data_type_tree.py          | 8 ++------
 3 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 2ee4cc4..724fc1b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -85,7 +85,7 @@ class GenericDataTypeTree(DataTypeTree):
         """Get the name of a type in a way that can be evaluated without importing the type."""
         if type_ is type(None):
             return "None"
-        if isinstance(getattr(builtins, type_.__name__, None), type):
+        if getattr(builtins, type_.__name__, None) is type_:
             return type_.__name__
         return f'"{type_.__name__}"'
 
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
index ddb98ac..8043228 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/instance_data_type_tree.py
@@ -34,8 +34,4 @@ class InstanceDataTypeTree(SimpleDataTypeTree):
         return
 
     def _is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.holding_type.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        return getattr(builtins, self.holding_type.__name__, None) is self.holding_type
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 1f8beba..81ce902 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -21,11 +21,7 @@ class TypeDataTypeTree(SimpleDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        return "type", self.data.__name__
+        return "type", self.data.__name__, self.is_builtin_class()
 
     def is_builtin_class(self) -> bool:
-        try:
-            cls = getattr(builtins, self.data.__name__)
-            return isinstance(cls, type)
-        except AttributeError:
-            return False
+        return getattr(builtins, self.data.__name__, None) is self.data
-- 
2.43.0


From fa2d8b0335ee20863aa58f37af525073ffbbf4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:46 +0000
Subject: [PATCH 45/63] fix: keep Python from mangling the names of hints for
 class names with two leading underscores

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index ca2db69..4ff5ec8 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -91,7 +91,7 @@ class DataTypeTree(ABC):
         self._check_tree_is_correct_one(data)
 
         self.data = data
-        self.name = name
+        self.name = name if parent is None else self._prevent_name_mangling(name)
         self.holding_type = type(data)
         self.strategies = strategies
         self.depth = depth
@@ -141,6 +141,11 @@ class DataTypeTree(ABC):
         if not is_string_python_keyword_compatible(name):
             raise DataTypeTreeError(f"The given name ({name}) is not Python-keyword compatible")
 
+    @staticmethod
+    def _prevent_name_mangling(name: str) -> str:
+        """Within the body of a class, Python changes the names that start with two underscores."""
+        return f"_{name.lstrip('_')}" if name.startswith("__") else name
+
     @abstractmethod
     def _instantiate_children(self, data: object) -> Optional[ChildrenStructure[DataTypeTree]]:
         """Instantiate the child structure that will be assigned to `self.children`.
@@ -334,6 +339,8 @@ class DataTypeTree(ABC):
     @final
     def rename(self, new_name: str) -> None:
         """Rename the current node and all its subsequent children."""
+        if self.parent is not None:
+            new_name = self._prevent_name_mangling(new_name)
         self._rename(new_name, len_old_name=len(self.name))
 
     @final
-- 
2.43.0


From 395f9a1a6bdd60dc4c7d60e8de3ca2cdf6a942ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 46/63] fix: write NotRequired around ReadOnly, as type
 checkers demand it in functional TypedDicts

---
 .../data_type_tree/generic_type/dict_data_type_tree.py     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 62527af..28aa84a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -282,12 +282,13 @@ class DictDataTypeTree(MappingDataTypeTree):
                 else:
                     content[key] = value.name
                 if key in self.dict_metadata.key_info:
-                    if not self.dict_metadata.key_info[key].required:
-                        self.imports.add("NotRequired")
-                        content[key] = f"NotRequired[{content[key]}]"
                     if self.strategies.typed_dict_read_only_values:
                         self.imports.add("ReadOnly")
                         content[key] = f"ReadOnly[{content[key]}]"
+                    if not self.dict_metadata.key_info[key].required:
+                        # Outermost, where every type checker allows it
+                        self.imports.add("NotRequired")
+                        content[key] = f"NotRequired[{content[key]}]"
         return self._build_typed_dict(
             name=self.name,
             content=content,
-- 
2.43.0


From b759c5649fb4989bb88b8d388d6ce2713f6723b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 47/63] fix: write None, and not NoneType, within the
 annotations of callables

---
 .../simple_data_type_tree/function_data_type_tree.py       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index fd45b4e..09a41b3 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -1,5 +1,6 @@
 import ast
 import inspect
+import re
 import textwrap
 from inspect import Parameter
 from types import BuiltinFunctionType, FunctionType, MappingProxyType, MethodType
@@ -82,7 +83,11 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         """Get the annotation as it must be written. It will be quoted if it uses names that cannot be imported."""
         if annotation is Parameter.empty:
             return annotation
-        string = annotation if isinstance(annotation, str) else inspect.formatannotation(annotation)
+        if isinstance(annotation, str):
+            string = annotation
+        else:
+            # None is represented by the name of its class within other types
+            string = re.sub(r"(?<![\w.'\"])NoneType\b", "None", inspect.formatannotation(annotation))
         all_symbols_are_known = self.imports.import_symbols_from_annotation(string)
         if isinstance(annotation, str) or not all_symbols_are_known:
             return string
-- 
2.43.0


From b9067a8b320afde06327832dc33fcf55051ba009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:03 +0000
Subject: [PATCH 48/63] fix: read the comments of YAML files that start with a
 byte order mark

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 5bbc9d5..a4b4cb5 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -96,7 +96,7 @@ class YamlFileModifier:
         self.path = Path(path)
         if not self.path.suffix.endswith((".yaml", ".yml")):
             raise YamlFileModifierError(f"Only `.yaml` or `.yml` are allowed. File given is: {self.path}")
-        self.lines = tuple(Path(path).read_text(encoding="utf-8", errors="surrogateescape").splitlines())
+        self.lines = tuple(Path(path).read_text(encoding="utf-8-sig", errors="surrogateescape").splitlines())
         comments_are = (comments_are,) if isinstance(comments_are, str) else tuple(comments_are)
         self.comments_are = comments_are
 
-- 
2.43.0


From ffd80d9e51a8d0d5f651dc701944a475ba1091f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 49/63] fix: number the hints that share a name in linear time

With n different dictionaries under keys that are not strings (or under keys that look alike), every one of them
was rendered again for every number already taken: 2000 of them took ten seconds, which grew with the square.
---
 .../data_type_tree/data_type_tree.py          | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 4ff5ec8..2a83d4e 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -218,7 +218,9 @@ class DataTypeTree(ABC):
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
         strings: Dict[str, str] = {}
-        self._get_strs_all_nodes_unformatted(types=strings, reserved_names=self.imports.names_available | {self.name})
+        self._get_strs_all_nodes_unformatted(
+            types=strings, names={}, reserved_names=self.imports.names_available | {self.name}
+        )
         strings_lst = list(strings.values())
         if not strings_lst:
             raise DataTypeTreeError("No type hints could be built")
@@ -250,32 +252,43 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Dict[str, str], reserved_names: AbstractSet[str]) -> None:
+    def _get_strs_all_nodes_unformatted(
+        self, *, types: Dict[str, str], names: Dict[str, Dict[str, str]], reserved_names: AbstractSet[str]
+    ) -> None:
         if self.depth == 0 and not self.children:
             if self.permission_to_be_created_as_type_alias:
-                self._add_str_top_node(types, reserved_names)
+                self._add_str_top_node(types, names, reserved_names)
             return
         if not self.children:
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types, reserved_names=reserved_names)
+            child._get_strs_all_nodes_unformatted(types=types, names=names, reserved_names=reserved_names)
             if child.permission_to_be_created_as_type_alias:
-                child._add_str_top_node(types, reserved_names)
+                child._add_str_top_node(types, names, reserved_names)
         if self.permission_to_be_created_as_type_alias:
-            self._add_str_top_node(types, reserved_names)
+            self._add_str_top_node(types, names, reserved_names)
         return
 
     @final
-    def _add_str_top_node(self, types: Dict[str, str], reserved_names: AbstractSet[str]) -> None:
+    def _add_str_top_node(
+        self, types: Dict[str, str], names: Dict[str, Dict[str, str]], reserved_names: AbstractSet[str]
+    ) -> None:
         """Add the string of this node, whose name gets a number if it already means something else."""
         name = self.name
         string = self.get_str_top_node()
-        count = 2
-        while self.parent is not None and (self.name in reserved_names or types.get(self.name, string) != string):
-            self.name = f"{name}{count}"
+        if self.parent is not None and (name in reserved_names or types.get(name, string) != string):
+            # All that wanted this name, and the one they got
+            new_names = names.setdefault(name, {})
+            new_name = new_names.get(string, "")
+            count = len(new_names) + 2
+            while not new_name:
+                candidate = f"{name}{count}"
+                if candidate not in reserved_names and candidate not in types:
+                    new_name = new_names[string] = candidate
+                count += 1
+            self.name = new_name
             string = self.get_str_top_node()
-            count += 1
         types[self.name] = string
 
     @final
-- 
2.43.0


From 6c3f4908b048323896e0803985cc5246e91e3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:09 +0000
Subject: [PATCH 50/63] fix: merge similar dictionaries that are nested without
 doing exponential work

To merge dictionaries, the children of all of them were built again from the data, so that every nested merge
(comments with replies, for instance) took twice the time of the one within: 16 levels never ended. The children that
already exist are used instead, and those found more than once are renamed, rendered and hashed only once.
---
 .../data_type_tree/data_type_tree.py          | 10 +++++++--
 .../generic_type/dict_data_type_tree.py       | 17 ++++++++++++---
 .../generic_type/mapping_data_type_tree.py    | 21 ++++++++++++-------
 .../generic_type/tuple_data_type_tree.py      |  2 +-
 4 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 2a83d4e..0ac739b 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -14,6 +14,7 @@ from typing import (
     Dict,
     FrozenSet,
     Hashable,
+    Iterable,
     Mapping,
     Optional,
     Sequence,
@@ -135,6 +136,11 @@ class DataTypeTree(ABC):
             max_height = max(child.height, max_height)
         return max_height + 1
 
+    @final
+    def _get_unique_children(self) -> Iterable["DataTypeTree"]:
+        """Get all children. Those that are found several times are returned only once."""
+        return {id(child): child for child in self}.values()
+
     @staticmethod
     def _validate_name(name: str) -> None:
         """CHeck that any given name is compatible with Python keyword naming rules."""
@@ -262,7 +268,7 @@ class DataTypeTree(ABC):
         if not self.children:
             return
 
-        for child in self:
+        for child in self._get_unique_children():
             child._get_strs_all_nodes_unformatted(types=types, names=names, reserved_names=reserved_names)
             if child.permission_to_be_created_as_type_alias:
                 child._add_str_top_node(types, names, reserved_names)
@@ -360,7 +366,7 @@ class DataTypeTree(ABC):
     def _rename(self, new_name: str, *, len_old_name: int) -> None:
         """Rename the current node and all its subsequent children."""
         if self.children:
-            for child in self:
+            for child in self._get_unique_children():
                 child._rename(new_name=new_name, len_old_name=len_old_name)
         if self.parent is not None:
             self.name = new_name + self.name[len_old_name:]
diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 28aa84a..e897257 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -429,11 +429,14 @@ class DictDataTypeTree(MappingDataTypeTree):
             - Override `DictMetadata` with new information relative to all new information
         """
         merged_dict: Dict[Hashable, object] = {}
-        for d in (tree.data for tree in trees):
-            for key, value in d.items():
+        children: Dict[Hashable, DataTypeTree] = {}
+        for tree in trees:
+            for key, value in tree.data.items():
                 if type(value) is int and type(merged_dict.get(key)) is float:
                     continue
                 merged_dict[key] = value
+                if key in tree.children:
+                    children[key] = tree.children[key]
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
@@ -453,14 +456,22 @@ class DictDataTypeTree(MappingDataTypeTree):
             shortest_name = min(shortest_name, tree.name)
 
         new_tree = cls(
-            data=merged_dict,
+            data={},
             name=shortest_name,
             imports=check_same(trees, param="imports"),
             depth=check_same(trees, param="depth"),
             strategies=check_same(trees, param="strategies"),
             parent=trees[0].parent,
         )
+        new_tree.data = merged_dict
         new_tree.dict_metadata = random_tree.dict_metadata
+        # All children already exist: to build them again would take twice the time per nested merge
+        for key, child in children.items():
+            child.parent = new_tree
+            child.rename(new_tree._get_child_name(key))
+        new_tree._simplify_children(children)
+        new_tree.children = children
+        new_tree.height = new_tree._get_height()
         for tree in trees:
             new_tree._update_children_from_equal_children(tree)
         return new_tree
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index be78cdd..c2a6363 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -22,29 +22,34 @@ class MappingDataTypeTree(GenericDataTypeTree):
     @override
     def _instantiate_children(self, data: Mapping[Hashable, object]) -> Mapping[Hashable, DataTypeTree]:  # type: ignore
         children: Dict[Hashable, DataTypeTree] = {}
-        children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
-        equal_children: Dict[DataTypeTree, DataTypeTree] = {}
-
         for key, value in data.items():
-            suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
             if self._is_hidden_key(key):
                 continue
-            child = data_type_tree_factory(
+            children[key] = data_type_tree_factory(
                 data=value,
-                name=f"{self.name}{suffix}",
+                name=self._get_child_name(key),
                 imports=self.imports,
                 depth=self.depth + 1,
                 strategies=self.strategies,
                 parent=self,
             )
+        self._simplify_children(children)
+        return children
+
+    def _get_child_name(self, key: Hashable) -> str:
+        suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
+        return f"{self.name}{suffix}"
+
+    def _simplify_children(self, children: Dict[Hashable, DataTypeTree]) -> None:
+        children_info: Dict[DataTypeTree, Set[Hashable]] = defaultdict(set)
+        equal_children: Dict[DataTypeTree, DataTypeTree] = {}
+        for key, child in children.items():
             children_info[child].add(key)
-            children[key] = child
             equal_child = equal_children.setdefault(child, child)
             if isinstance(equal_child, GenericDataTypeTree) and isinstance(child, GenericDataTypeTree):
                 if equal_child is not child:
                     equal_child.update_from_equal_tree(child)
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
-        return children
 
     def _is_hidden_key(self, key: Hashable) -> bool:
         return isinstance(key, str) and key.startswith(self.hidden_keys_prefix)
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index d2ae7fc..899b2c8 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -51,5 +51,5 @@ class TupleDataTypeTree(SequenceDataTypeTree):
         else:
             hashes: List[object] = []
             for child in self:
-                hashes.append(child._get_hash())
+                hashes.append(hash(child))
             return type(self).__name__, tuple(hashes)
-- 
2.43.0


From 1b0b1badda47e2c06c8d2faedb8144a4465b9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 51/63] fix: name the elements of a container in linear time

---
 .../generic_type/set_and_sequence_operations.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index c0ccf8b..ca2e090 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -40,6 +40,7 @@ class SetAndSequenceOperations:
         children: List[DataTypeTree] = []
         children_added: Dict[DataTypeTree, DataTypeTree] = {}
         names_added: Set[str] = set()  # Used to generate new and unique names in a quicker way.
+        counts: Dict[str, int] = {}  # Lower numbers of each name are already taken
 
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
@@ -47,12 +48,11 @@ class SetAndSequenceOperations:
             name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
             # Generate new name in case this one was already added
             if name in names_added:
-                modified_name = name
-                count = 2
-                while modified_name in names_added:
-                    modified_name = f"{name}{count}"
+                count = counts.get(name, 2)
+                while f"{name}{count}" in names_added:
                     count += 1
-                name = modified_name
+                counts[name] = count
+                name = f"{name}{count}"
             child = data_type_tree_factory(
                 data=element,
                 name=name,
-- 
2.43.0


From 950b7600e3f21429e43e7966142d56f7c541af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 52/63] fix: do not define types for the columns of a DataFrame
 that are not part of its hint

---
 .../generic_type/pandas_data_frame_data_type_tree.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 75a0990..901b171 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -12,7 +12,7 @@ from typing import (
 )
 
 import pandas as pd
-from typing_extensions import override
+from typing_extensions import Self, override
 
 from lazy_type_hint.data_type_tree import data_type_tree_factory
 from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
@@ -175,6 +175,12 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
                         children[column[0]] = self._create_child(column[0])
         return children
 
+    @override
+    def __iter__(self) -> "Self":
+        # Only what can be written as a literal is part of the type hint
+        self._iterator = iter([key for key in self.children if isinstance(key, self.literal_compatible_types)])
+        return self
+
     @override
     def _get_hash(self) -> Hashable:
         if not self.children:
-- 
2.43.0


From fc0079de81ef5abc71aa135937770a18f60a90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 53/63] fix: iterate over the elements of a container without
 copying all of them each time

---
 .../data_type_tree/generic_type/pandas_series_data_type_tree.py | 2 +-
 .../data_type_tree/generic_type/sequence_data_type_tree.py      | 2 +-
 .../data_type_tree/generic_type/set_data_type_tree.py           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 176d6d4..8884bdc 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -36,7 +36,7 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
     @override
     def __next__(self) -> "DataTypeTree":
         if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
+            element = self.children[self._iterator]
             self._iterator += 1
             return element
         else:
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index a2de182..942dac8 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -28,7 +28,7 @@ class SequenceDataTypeTree(GenericDataTypeTree):
     @override
     def __next__(self) -> "DataTypeTree":
         if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
+            element = self.children[self._iterator]
             self._iterator += 1
             return element  # type: ignore
         else:
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 33a1bed..f15078b 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -45,7 +45,7 @@ class SetDataTypeTree(GenericDataTypeTree):
     @override
     def __next__(self) -> "DataTypeTree":
         if self._iterator < len(self.children):
-            element = list(self.children)[self._iterator]
+            element = self.children[self._iterator]
             self._iterator += 1
             return element
         else:
-- 
2.43.0


From a2127d74e925a3ee92c156a0542b473c096dc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:47 +0000
Subject: [PATCH 54/63] fix: do not count comments as keys of the mapping
 proxies that a loader of YAML files returns

---
 .../generic_type/mapping_proxy_data_type_tree.py               | 3 ++-
 lazy_type_hint/generators/lazy_type_hint_abc.py                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
index bc493a4..f58276d 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_proxy_data_type_tree.py
@@ -14,4 +14,5 @@ class MappingProxyDataTypeTree(MappingDataTypeTree):
     @override
     def __pre_child_instantiation__(self) -> None:
         if check_n_max := self.strategies.check_max_n_elements_within_container:
-            self.data = MappingProxyType(dict(islice(self.data.items(), check_n_max)))
+            items = (item for item in self.data.items() if not self._is_hidden_key(item[0]))
+            self.data = MappingProxyType(dict(islice(items, check_n_max)))
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 00efa21..e0246d4 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from typing import (
     Any,
     Callable,
+    Mapping,
     Optional,
     Sequence,
     Tuple,
@@ -103,7 +104,7 @@ class LazyTypeHintABC(ABC):
         """Check that the comments did nothing else than adding their hidden keys."""
         if type(data) is not type(data_with_comments):
             return False
-        if isinstance(data, dict) and isinstance(data_with_comments, dict):
+        if isinstance(data, Mapping) and isinstance(data_with_comments, Mapping):
             keys = [
                 key
                 for key in data_with_comments
-- 
2.43.0


From 5bd4a43f56a1d31aa45fbb3314d69bc081c8a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:00 +0000
Subject: [PATCH 55/63] fix: keep the texts of YAML files as they are although
 their lines look like keys with comments

---
 .../generators/lazy_type_hint_abc.py          | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index e0246d4..f539004 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -3,6 +3,7 @@ import tempfile
 from abc import ABC
 from dataclasses import dataclass
 from pathlib import Path
+from types import MappingProxyType
 from typing import (
     Any,
     Callable,
@@ -97,7 +98,10 @@ class LazyTypeHintABC(ABC):
             return original_data, original_data
         if not LazyTypeHintABC._is_same_structure(original_data, data_with_comments):
             return original_data, original_data
-        return original_data, data_with_comments
+        try:
+            return original_data, LazyTypeHintABC._restore_texts(original_data, data_with_comments)
+        except Exception:  # noqa: BLE001
+            return original_data, original_data
 
     @staticmethod
     def _is_same_structure(data: object, data_with_comments: object) -> bool:
@@ -121,6 +125,22 @@ class LazyTypeHintABC(ABC):
             return data == data_with_comments
         return True
 
+    @staticmethod
+    def _restore_texts(data: Any, data_with_comments: Any) -> Any:
+        """Put the original texts in the data with comments, as their lines can look like keys that have comments."""
+        if isinstance(data, str):
+            return data_with_comments if data == data_with_comments else data
+        if type(data) is tuple:
+            return tuple(LazyTypeHintABC._restore_texts(*elements) for elements in zip(data, data_with_comments))
+        if isinstance(data, MappingProxyType):
+            return MappingProxyType(LazyTypeHintABC._restore_texts(dict(data), dict(data_with_comments)))
+        if isinstance(data, (dict, list)):
+            for key, element in data.items() if isinstance(data, dict) else enumerate(data):
+                restored_element = LazyTypeHintABC._restore_texts(element, data_with_comments[key])
+                if restored_element is not data_with_comments[key]:
+                    data_with_comments[key] = restored_element
+        return data_with_comments
+
     def from_data(
         self,
         data: object,
-- 
2.43.0


From a7329d21a035495988a70b090d2e433ccb7668f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 56/63] fix: tell DataFrames apart by their labels as they are
 written, not by the hashes of these

---
 .../generic_type/pandas_data_frame_data_type_tree.py      | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 901b171..242f934 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -185,7 +185,13 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     def _get_hash(self) -> Hashable:
         if not self.children:
             return "pd.DataFrame"
-        return "pd.DataFrame", tuple((type(key), key, child._get_hash()) for key, child in self.children.items())
+        # Labels as they are written, since different ones can have the same hash (-1 and -2)
+        literals = tuple(
+            (repr(key), child._get_hash())
+            for key, child in self.children.items()
+            if isinstance(key, self.literal_compatible_types)
+        )
+        return "pd.DataFrame", literals, len(literals) < len(self.children)
 
     @override
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From bee24227bc26d0f91e49ccede40db75c3bb88ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 57/63] fix: name the aliases and imports of classes whose
 names are not identifiers

---
 .../data_type_tree/generic_type/mapping_data_type_tree.py  | 5 +++--
 .../generic_type/set_and_sequence_operations.py            | 3 ++-
 lazy_type_hint/utils/__init__.py                           | 3 +++
 lazy_type_hint/utils/utils.py                              | 7 ++++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index c2a6363..67b67fd 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -9,6 +9,7 @@ from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
 from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree
 from lazy_type_hint.file_modifiers.yaml_file_modifier import YamlFileModifier
+from lazy_type_hint.utils import get_type_name_as_identifier
 
 
 class MappingDataTypeTree(GenericDataTypeTree):
@@ -37,7 +38,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         return children
 
     def _get_child_name(self, key: Hashable) -> str:
-        suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
+        suffix = get_type_name_as_identifier(type(key)) if not isinstance(key, str) else self._to_camel_case(key)
         return f"{self.name}{suffix}"
 
     def _simplify_children(self, children: Dict[Hashable, DataTypeTree]) -> None:
@@ -67,7 +68,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         for data_type_tree, values in children_info.items():
             if len(values) > 1:  # Perform replacement if some values were detected to be the same in terms of types
                 parent_name = data_type_tree.parent.name if data_type_tree.parent is not None else ""
-                new_name = f"{parent_name}{data_type_tree.holding_type.__name__.capitalize()}"
+                new_name = f"{parent_name}{get_type_name_as_identifier(data_type_tree.holding_type).capitalize()}"
                 if data_type_tree.holding_type in last_name_added:
                     new_name += str(last_name_added[data_type_tree.holding_type] + 1)
                     last_name_added[data_type_tree.holding_type] += 1
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index ca2e090..8bf52c3 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -20,6 +20,7 @@ from typing import (
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
 from lazy_type_hint.data_type_tree.generic_type.dict_data_type_tree import DictDataTypeTree
 from lazy_type_hint.data_type_tree.generic_type.generic_data_type_tree import GenericDataTypeTree
+from lazy_type_hint.utils import get_type_name_as_identifier
 
 if TYPE_CHECKING:
     from lazy_type_hint.data_type_tree.data_type_tree import DataTypeTree
@@ -45,7 +46,7 @@ class SetAndSequenceOperations:
         child: DataTypeTree
         n_elements_to_check = self.data_type_tree.strategies.check_max_n_elements_within_container
         for element in islice(data, n_elements_to_check):
-            name = f"{self.data_type_tree.name}{type(element).__name__.capitalize()}"
+            name = f"{self.data_type_tree.name}{get_type_name_as_identifier(type(element)).capitalize()}"
             # Generate new name in case this one was already added
             if name in names_added:
                 count = counts.get(name, 2)
diff --git a/lazy_type_hint/utils/__init__.py b/lazy_type_hint/utils/__init__.py
index c3d152d..9187d21 100644
--- a/lazy_type_hint/utils/__init__.py
+++ b/lazy_type_hint/utils/__init__.py
@@ -11,6 +11,9 @@ from lazy_type_hint.utils.utils import (
 from lazy_type_hint.utils.utils import (
     check_if_command_available as check_if_command_available,
 )
+from lazy_type_hint.utils.utils import (
+    get_type_name_as_identifier as get_type_name_as_identifier,
+)
 from lazy_type_hint.utils.utils import (
     is_string_python_keyword_compatible as is_string_python_keyword_compatible,
 )
diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index 1b0f173..094e63c 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -4,7 +4,7 @@ import os
 import subprocess
 import unicodedata
 from itertools import zip_longest
-from typing import Any, Final, List, Protocol, TypeVar, Union, cast
+from typing import Any, Final, List, Protocol, Type, TypeVar, Union, cast
 
 TAB: Final = "    "
 
@@ -23,6 +23,11 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     return string.isidentifier() and not keyword.iskeyword(string) and is_assignable
 
 
+def get_type_name_as_identifier(type_: Type[object]) -> str:
+    """Get the name of a type without whatever cannot be part of an identifier, such as the brackets in `A[int]`."""
+    return "".join(char for char in type_.__name__ if f"_{char}".isidentifier())
+
+
 def compare_ast(
     node1: Union[ast.expr, List[ast.expr], ast.Module],
     node2: Union[ast.expr, List[ast.expr], ast.Module],
-- 
2.43.0


From b9d942031cd704b9e168aea47d9745cac85d7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 58/63] fix: find the names of methods over callables that have
 none of their own

---
 .../simple_data_type_tree/function_data_type_tree.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 09a41b3..fb7c63f 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -28,7 +28,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
 
     @property
     def is_lambda(self) -> bool:
-        return bool(self.data.__name__ == "<lambda>")
+        # Methods whose function is any other callable might not have a name
+        return bool(getattr(self.data, "__name__", "") == "<lambda>")
 
     @override
     @property
-- 
2.43.0


From 2f11dcacdcd1dfc0023ec970d6d558b93056341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:22 +0000
Subject: [PATCH 59/63] fix: write keys and labels of types that inherit from
 str or int as plain ones

---
 .../generic_type/dict_data_type_tree.py           |  1 +
 .../generic_type/mapping_data_type_tree.py        |  2 +-
 .../pandas_data_frame_data_type_tree.py           | 15 +++++++++++----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index e897257..f9238dc 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -342,6 +342,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         for key, value in content.items():
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
+            key = str.__str__(key)  # Members of an enumeration would be formatted in another way
             if self.dict_metadata.is_functional_syntax:
                 # Lone surrogates are escaped as well because they cannot be encoded
                 quoted_key = json.dumps(key, ensure_ascii=False).encode("utf-8", "backslashreplace").decode("utf-8")
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 67b67fd..b2000a4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -109,7 +109,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
     def _to_camel_case(string: str) -> str:
         """Make it camel case and compatible with Python keywords."""
         # Python normalizes the identifiers this way
-        string = unicodedata.normalize("NFKC", string)
+        string = unicodedata.normalize("NFKC", str.__str__(string))
         # Remove any initial number within the string
         match = re.match(r"^\d+", string)
         if match:
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index 242f934..f0444ac 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -129,6 +129,13 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
                 return False
         return True
 
+    @staticmethod
+    def _get_literal(label: Union[str, bool, int]) -> str:
+        """Get how the label is written, which is not the representation of what inherits from those types."""
+        if isinstance(label, str):
+            return repr(str.__str__(label))
+        return repr(label) if isinstance(label, bool) else int.__repr__(label)
+
     def _create_child(self, column: Hashable) -> DataTypeTree:
         suffix = self._to_camel_case(str(column))
         suffix = suffix if suffix else "WSpace"
@@ -187,7 +194,7 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
             return "pd.DataFrame"
         # Labels as they are written, since different ones can have the same hash (-1 and -2)
         literals = tuple(
-            (repr(key), child._get_hash())
+            (self._get_literal(key), child._get_hash())
             for key, child in self.children.items()
             if isinstance(key, self.literal_compatible_types)
         )
@@ -213,16 +220,16 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         for literal, child in self.children.items():
             if isinstance(literal, self.literal_compatible_types):
                 if child.permission_to_be_created_as_type_alias:
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=child.name))
+                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=self._get_literal(literal), rtype=child.name))
                 else:
                     rtype = child.get_str_top_node_without_lvalue()
-                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=repr(literal), rtype=rtype))
+                    overloads.append(LITERAL_OVERLOAD_TEMPLATE.format(literal=self._get_literal(literal), rtype=rtype))
         if self.strategies.pandas_strategies == "Full type hint":
             literal_compatible_keys: List[str] = []
             extra_types = ""
             for key in self.children:
                 if isinstance(key, self.literal_compatible_types):
-                    literal_compatible_keys.append(repr(key))
+                    literal_compatible_keys.append(self._get_literal(key))
                 else:
                     self.imports.add("Hashable")
                     extra_types = ", Hashable"  # This can be more precise, but not supported yet
-- 
2.43.0


From 5fa2ba1a444bea17a8fe5ec568fdd6ea96b11995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:24 +0000
Subject: [PATCH 60/63] fix: keep the names of classes that have an equals sign
 within them

---
 lazy_type_hint/data_type_tree/data_type_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 0ac739b..7241433 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -200,7 +200,7 @@ class DataTypeTree(ABC):
     @final
     def get_str_top_node_without_lvalue(self) -> str:
         """This method will return either the type alias or its content depending on the permissions of the tree."""
-        return self.get_str_top_node().split("=")[-1].strip()
+        return self.get_str_top_node().split("=", 1)[-1].strip()
 
     @final
     def get_str_top_node(self) -> str:
-- 
2.43.0


From de87113a0898b52e44b28b8feb01f9c59411383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:53 +0000
Subject: [PATCH 61/63] fix: find the comments of YAML lines whose quoted value
 follows a tag or an anchor

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a4b4cb5..4668cff 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -36,6 +36,8 @@ KEY_LINE_PATTERN: Final = re.compile(
 """Line that has a key and, before it, the hyphens of the lists whose first element is that key."""
 QUOTED_PATTERN: Final = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:''|[^'])*'")
 """Value that is between quotes."""
+NODE_PROPERTY_PATTERN: Final = re.compile(r"[!&]\S*")
+"""Tag or anchor that precedes a value."""
 
 
 @dataclass(frozen=True)
@@ -187,6 +189,10 @@ class YamlFileModifier:
         idx = 0
         is_start_of_value = True
         while idx < len(line):
+            node_property = NODE_PROPERTY_PATTERN.match(line, idx) if is_start_of_value else None
+            if node_property:
+                idx = node_property.end()
+                continue
             # Quotes that are in the middle of a value have no special meaning
             quoted = QUOTED_PATTERN.match(line, idx) if is_start_of_value else None
             if quoted:
-- 
2.43.0


From c3897b6da54c270aca709d32ebacb4dc5526a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:53 +0000
Subject: [PATCH 62/63] fix: take no lines within texts and brackets of YAML
 files for comments or keys

---
 .../file_modifiers/yaml_file_modifier.py      | 66 +++++++++++++++++--
 1 file changed, 62 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 4668cff..bfa0935 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -13,6 +13,7 @@ from typing import (
     Mapping,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Union,
 )
@@ -36,8 +37,16 @@ KEY_LINE_PATTERN: Final = re.compile(
 """Line that has a key and, before it, the hyphens of the lists whose first element is that key."""
 QUOTED_PATTERN: Final = re.compile(r"\"(?:\\.|[^\"\\])*\"|'(?:''|[^'])*'")
 """Value that is between quotes."""
+LIST_LINE_PATTERN: Final = re.compile(r"(?P<prefix>[ \t]*(?:-[ \t]+)+)(?P<key>)")
+"""Line that has the hyphens of lists."""
 NODE_PROPERTY_PATTERN: Final = re.compile(r"[!&]\S*")
 """Tag or anchor that precedes a value."""
+VALUE_PATTERN: Final = re.compile(r"[ \t]*(?:[!&]\S*[ \t]+)*(?P<value>[|>](?=[-+\d]*(?:[ \t]+\#|[ \t]*$))|[\"'\[{])")
+"""Beginning of a value that might continue in the following lines."""
+FLOW_TOKEN_PATTERN: Final = re.compile(
+    r"(?<!\S)\#[^\n]*|(?<![^\s:,\[\]{}])(?:\"(?:\\.|[^\"\\])*\"|'(?:''|[^'])*')|[\[\]{}]", re.DOTALL
+)
+"""Comments, quoted values and brackets of a collection that is written between brackets."""
 
 
 @dataclass(frozen=True)
@@ -206,7 +215,48 @@ class YamlFileModifier:
             idx += 1
         return None
 
-    def _extract_single_block_comment(self, line_idx: int, *, comments_are: Literal["above", "below"]) -> str:
+    def _find_lines_within_values(self) -> FrozenSet[int]:
+        """Find the lines that continue the value of a previous one. What looks like comments and keys there is not."""
+        text = "\n".join(self.lines)
+        offset = 0
+        lines_within_values: Set[int] = set()
+        for idx, line in enumerate(self.lines):
+            match = None if idx in lines_within_values else KEY_LINE_PATTERN.match(line) or LIST_LINE_PATTERN.match(line)
+            value = VALUE_PATTERN.match(line, match.end()) if match else None
+            if match and value and value["value"] in "|>":
+                indentation = match.start("key") if match["key"] else match["prefix"].rindex("-")
+                end = idx + 1
+                while end < len(self.lines) and not self.lines[end][: indentation + 1].strip():
+                    end += 1
+                lines_within_values.update(range(idx + 1, end))
+            elif value:
+                n_lines = self._find_end_of_value(text, offset + value.start("value"))
+                lines_within_values.update(range(idx + 1, idx + 1 + n_lines))
+            offset += len(line) + 1
+        return frozenset(lines_within_values)
+
+    @staticmethod
+    def _find_end_of_value(text: str, start: int) -> int:
+        """Find how many line breaks there are within a value that starts with either a quote or a bracket."""
+        depth = 0
+        for token in FLOW_TOKEN_PATTERN.finditer(text, start):
+            if depth == 0 and token.start() != start:
+                break
+            if token.group() in ("[", "{"):
+                depth += 1
+            elif token.group() in ("]", "}"):
+                depth -= 1
+            if depth == 0:
+                return text.count("\n", start, token.end())
+        return 0
+
+    def _extract_single_block_comment(
+        self,
+        line_idx: int,
+        *,
+        comments_are: Literal["above", "below"],
+        lines_within_values: FrozenSet[int] = frozenset(),
+    ) -> str:
         """
         Extracts a single block comment from the specified line index.
 
@@ -224,6 +274,7 @@ class YamlFileModifier:
             line_idx (int): The index of the line to extract the comment from.
             comments_are (Literal["above", "below"]): Specifies whether the comments are located above
                 or below the line.
+            lines_within_values (FrozenSet[int]): Lines that cannot be comments.
         """
         # Find first non space/tab character
         try:
@@ -238,7 +289,11 @@ class YamlFileModifier:
         step: Final = -1 if comments_are == "above" else 1
         multi_line_comments: List[str] = []
         idx = line_idx + step
-        while 0 <= idx < len(self.lines) and self._is_comment_aligned_with(self.lines[idx], idx_first_char):
+        while (
+            0 <= idx < len(self.lines)
+            and idx not in lines_within_values
+            and self._is_comment_aligned_with(self.lines[idx], idx_first_char)
+        ):
             multi_line_comments.append(self.lines[idx][idx_first_char + 1 :].strip())
             idx += step
 
@@ -359,6 +414,7 @@ class YamlFileModifier:
             A tuple of Comment objects representing the extracted comments.
         """
         comments: List[Comment] = []
+        lines_within_values = self._find_lines_within_values()
         indentation: Literal["spaces", "tabs", "??"] = "spaces"
         # Tabs that are not at the beginning of the line do not indent
         if any("\t" in match["prefix"] for match in map(KEY_LINE_PATTERN.match, self.lines) if match):
@@ -368,7 +424,7 @@ class YamlFileModifier:
 
         for idx, line in enumerate(self.lines):
             match = KEY_LINE_PATTERN.match(line)
-            if match:
+            if match and idx not in lines_within_values:
                 spaces_or_tabs = self._count_spaces_or_tabs_at_start(match["prefix"], indentation=indentation)
                 if spaces_or_tabs is None:
                     continue
@@ -379,7 +435,9 @@ class YamlFileModifier:
 
                 for comments_are in self.comments_are:
                     if comments_are == "above" or comments_are == "below":
-                        comment = self._extract_single_block_comment(idx, comments_are=comments_are)
+                        comment = self._extract_single_block_comment(
+                            idx, comments_are=comments_are, lines_within_values=lines_within_values
+                        )
                         comment = self._capitalize_only_first_letter(comment)
                     elif comments_are == "side":
                         comment = self._extract_side_comment(line)
-- 
2.43.0


From 37a70e28c87b972a1ff8911b49f2774769cb0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:34 +0000
Subject: [PATCH 63/63] fix: a class derived from the live tool can generate
 the first hints

---
 lazy_type_hint/generators/lazy_type_hint_live.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 14d670f..719d420 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -184,7 +184,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
         file_handler = PyFileModifier(content)
         file_handler.remove_all_method_bodies()
         file_handler.remove_all_private_methods()
-        file_handler.remove_all_instance_variables(class_name=(type(self)).__name__)
+        file_handler.remove_all_instance_variables(class_name=LazyTypeHintLive.__name__)
         return file_handler
 
     def _create_custom_class_py(self, string: str, class_name: str) -> None:
-- 
2.43.0

