From bcfbd08d5f0ebfc23418b27c8c587e68dc9ea741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 01/97] fix: results of child groups ended up in the previous
 record of a parent without own values

A group record that has no values of its own (for instance started by a line
with {{ _start_ }} only) was not added to an existing results list, so that
results of its child groups were merged into the record before it.
---
 ttp/ttp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c96f224..39617b7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2689,6 +2689,7 @@ class _results_class:
             "GRP_ID": None,
         }
         self.dyn_path_cache = {}
+        self.empty_records = []  # records saved without values - (list, record) tuples
         self._ttp_["results_object"] = self
 
     def make_results(self, variables, raw_results, main_results):
@@ -2839,6 +2840,10 @@ class _results_class:
             self.save_curelements(
                 result_data=self.record["result"], result_path=self.record["PATH"]
             )
+        # remove records that remained empty
+        for records, record in self.empty_records:
+            if not record:
+                records[:] = [i for i in records if i is not record]
 
     def save_vars(self, variables):
         # need to sort keys first to introduce deterministic behavior
@@ -3010,11 +3015,16 @@ class _results_class:
         """Method to save current group results in self.results"""
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list) and result_data:
+        if isinstance(E, list):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E[-1], result_data)
-            else:
+            elif result_data:
                 E.append(result_data)
+            else:
+                # record without values of its own, results of child groups might
+                # follow and should not end up in the previous record
+                E.append({})
+                self.empty_records.append((E, E[-1]))
         elif isinstance(E, dict):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E, result_data)
-- 
2.43.0


From 9465614a6812cd6540f010ba1e3446d17a462363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/97] fix: _exact_space_ made digits of the line to match
 literally

'_exact_' is a substring of '_exact_space_', the latter should only affect
matching of spaces.
---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 39617b7..b075fd2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2178,7 +2178,8 @@ class _variable_class:
                     )
                     # prior to 0.8.0 variant that only accounts for spaces
                     # string_before_var = re.sub(r"(\\ )+", r"\\ +", string_before_var)
-                if not "_exact_" in self.LINE:
+                # _exact_space_ alone does not make digits to match literally
+                if not re.search("_exact_(?!space_)", self.LINE):
                     string_before_var = re.sub(r"\d+", r"\\d+", string_before_var)
                 line_chunks.append(string_before_var)
             # append current match variable to chunks
-- 
2.43.0


From 664d5e4ca8ad855acb785a0f3bcd7c8e150c7fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 03/97] fix: several null path items in a group path, or one in
 the middle of a new path, were stored as a '_' key

---
 ttp/ttp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b075fd2..32e836e 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2895,7 +2895,7 @@ class _results_class:
         if PATH:
             name = PATH[0][0]
             # add support for null path
-            if name == "_":
+            while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, process DATA and return it
                     if isinstance(DATA, dict):
                         DATA.update(result)
@@ -2934,7 +2934,7 @@ class _results_class:
         """
         if KEYS:  # check if list is not empty:
             # add support for null path
-            if KEYS[0] == "_":
+            while KEYS[0][0] == "_":
                 if len(KEYS) == 1:
                     return {}
                 else:
@@ -2971,7 +2971,7 @@ class _results_class:
                 # convert key to integer if it is integer
                 name = int(name) if name.isdigit() else name
             # add support for null path
-            if name == "_":
+            while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
                     return ELEMENT
                 else:  # have more path items, need to skip null path,
-- 
2.43.0


From 9237873c11c6ae53ed4d206c62b4bf0121639095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 04/97] fix: dynamic path item values are used verbatim

---
 ttp/ttp.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 32e836e..67b4362 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3219,26 +3219,23 @@ class _results_class:
         for index, path_item in enumerate(path):
             asterisk_count = len(path_item) - len(path_item.rstrip("*"))
             path_item = path_item.rstrip("*")
-            match = re.findall(r"{{\s*(\S+)\s*}}", path_item)
+            match = re.findall(r"{{\s*(\S+?)\s*}}", path_item)
             if match:
+                values = {}
                 for m in match:
-                    pattern = r"{{\s*" + m + r"\s*}}"
                     if m in self.record["result"]:
-                        self.dyn_path_cache[m] = self.record["result"][m]
-                        repl = str(self.record["result"].pop(m))
-                        # try re replacement first
-                        try:
-                            path_item = re.sub(pattern, repl, path_item)
-                        # might fail if match contains '\', try string replace
-                        except re.error:
-                            path_item = re.sub(pattern, "__replace_me__", path_item)
-                            path_item = path_item.replace("__replace_me__", repl)
+                        self.dyn_path_cache[m] = self.record["result"].pop(m)
+                        values[m] = str(self.dyn_path_cache[m])
                     elif m in self.dyn_path_cache:
-                        path_item = re.sub(pattern, self.dyn_path_cache[m], path_item)
+                        values[m] = str(self.dyn_path_cache[m])
                     elif m in self.variables:
-                        path_item = re.sub(pattern, str(self.variables[m]), path_item)
+                        values[m] = str(self.variables[m])
                     else:
                         return False
+                # use function for replacement to insert values as is
+                path_item = re.sub(
+                    r"{{\s*(\S+?)\s*}}", lambda i: values[i.group(1)], path_item
+                )
             path[index] = (
                 path_item,
                 asterisk_count * "*",
-- 
2.43.0


From bef5dc21b00e692e46c1a83fbac7cce5d521db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 05/97] fix: dynamic_path_key_to_int lost results of repeated
 keys and of keys after null path

---
 ttp/ttp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 67b4362..6f10d76 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2905,6 +2905,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdecimal() else name
             if isinstance(DATA, dict):
                 if name in DATA:
                     DATA[name] = self.value_to_list(DATA[name], PATH[1:], result)
@@ -2943,7 +2946,7 @@ class _results_class:
             asterisk_count = KEYS[0][1]
             if self._ttp_["dynamic_path_key_to_int"]:
                 # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
+                name = int(name) if name.isdecimal() else name
             if asterisk_count == "*":  # if one * at the end - make a list
                 if len(KEYS) == 1:  # if KEYS=[1,2,3,4*], returns {1:{2:{3:{4:[{}]}}}}
                     return {name: []}  # if last item in PATH - return emplty list
@@ -2967,9 +2970,6 @@ class _results_class:
             return ELEMENT  # check if PATH is empty, if so - stop and return ELEMENT
         elif isinstance(ELEMENT, dict):
             name = PATH[0][0]
-            if self._ttp_["dynamic_path_key_to_int"]:
-                # convert key to integer if it is integer
-                name = int(name) if name.isdigit() else name
             # add support for null path
             while name == "_":
                 if len(PATH) == 1:  # reached end of PATH, need to return ELEMENT
@@ -2977,6 +2977,9 @@ class _results_class:
                 else:  # have more path items, need to skip null path,
                     _ = PATH.pop(0)  # remove null path item to skip it
                     name = PATH[0][0]
+            if self._ttp_["dynamic_path_key_to_int"]:
+                # convert key to integer if it is integer
+                name = int(name) if name.isdecimal() else name
             if name in ELEMENT:  # check if first element of the list is in ELEMENT
                 return self.dict_by_path(
                     PATH[1:], ELEMENT[name]
-- 
2.43.0


From 08eb0f07754e08c62f8fd553ee5c20e4f651f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 06/97] fix: records of a group shared default values that are
 lists or dictionaries

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6f10d76..6b4ce72 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3249,7 +3249,9 @@ class _results_class:
         """Method to process group results"""
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
-            self.record["result"].setdefault(k, v)
+            # copy default value as it can be a structure changed later on
+            if k not in self.record["result"]:
+                self.record["result"][k] = copy.deepcopy(v)
         # if merge_with_last - tail match, attempt to reconstruct group result
         # this only will work if self.record["result"] contains enough info to form PATH
         if self.record.get("merge_with_last") is True:
-- 
2.43.0


From 60131cd94b53273265b6f8fd3e2d23007b11d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 07/97] fix: value of a variable used by unconditional set was
 itself taken for a variable name

---
 ttp/ttp.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6b4ce72..174555c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1921,10 +1921,9 @@ class _group_class:
 
     def update_runs(self, data):
         # func to update runs of the groups using data dictionary
-        for k, v in data.items():
-            for dk, dv in self.runs.items():
-                if dv == k:
-                    self.runs[dk] = v
+        for dk, dv in self.runs.items():
+            if isinstance(dv, str) and dv in data:
+                self.runs[dk] = data[dv]
         # run recursion for children:
         for child in self.children:
             child.update_runs(data)
@@ -2610,10 +2609,9 @@ class _parser_class:
             else:
                 # form a tuple of ({results}, [group.outputs],)
                 grps_unsort_rslts.append((run_re(group, results={}), group.outputs))
-        # update groups runs (group default values) with global variables
-        self.update_groups_runs(self._ttp_["global_vars"])
-        # update groups runs (group default values) with group specific/local variables
-        self.update_groups_runs(self.vars)
+        # update groups runs (group default values) with group specific/local and
+        # global variables, in one go - variables' values are not variables names
+        self.update_groups_runs({**self.vars, **self._ttp_["global_vars"]})
 
         # sort results for groups with global outputs
         for group_result in unsort_rslts:
-- 
2.43.0


From 580d89666e590c09c6f0a0eff97e77f4d39314c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 08/97] fix: joinmatches lost values matched before a child
 group

---
 ttp/ttp.py | 48 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 174555c..e2434da 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2688,6 +2688,7 @@ class _results_class:
             "GRP_ID": None,
         }
         self.dyn_path_cache = {}
+        self.matched_values = {}  # matched values of the last record of each group
         self.empty_records = []  # records saved without values - (list, record) tuples
         self._ttp_["results_object"] = self
 
@@ -3151,8 +3152,33 @@ class _results_class:
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
+        # if different path - that can happen if we have group ended and result
+        # actually belongs to another already started group, hence need to save
+        # directly into results
+        if (
+            self.record["PATH"] != PATH
+            and REDICT["GROUP"].group_id in self.started_groups
+        ):
+            # save current results to results structure and start new record by calling self.start
+            self.start(
+                result={},
+                PATH=PATH,
+                DEFAULTS=DEFAULTS,
+                FUNCTIONS=FUNCTIONS,
+                REDICT=REDICT,
+            )
+            # mark new record as needed to be merged with last item in results
+            self.record["merge_with_last"] = True
+            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
+            self.record["DEFAULTS"] = {}
         # if same path - save into self.record
         if self.record["PATH"] == PATH:
+            # record continues after child groups, need values it already has
+            if self.record.get("merge_with_last"):
+                matched = self.matched_values.get(self.record["GRP_ID"], {})
+                for k in result.keys():
+                    if k in matched:
+                        self.record["result"].setdefault(k, copy.copy(matched[k]))
             # retrieve joinchar to use
             joinchar = "\n"
             for varname, varvalue in result.items():
@@ -3177,22 +3203,6 @@ class _results_class:
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
                     self.record["result"][k] = result[k]  # if first result
-        # if different path - that can happen if we have group ended and result
-        # actually belongs to another already started group, hence need to save
-        # directly into results
-        elif REDICT["GROUP"].group_id in self.started_groups:
-            # save current results to results structure and start new record by calling self.start
-            self.start(
-                result=result,
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
-            self.record["DEFAULTS"] = {}
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3245,6 +3255,12 @@ class _results_class:
 
     def processgrp(self):
         """Method to process group results"""
+        # keep matched values in case if more of them need to be joined later on
+        if not self.record.get("merge_with_last"):
+            self.matched_values[self.record["GRP_ID"]] = {}
+        self.matched_values.setdefault(self.record["GRP_ID"], {}).update(
+            self.record["result"]
+        )
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
             # copy default value as it can be a structure changed later on
-- 
2.43.0


From cbfde216e96a695e5c4e69026afbe681b61217a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 09/97] fix: joinmatches failed to join strings with values of
 other types

---
 ttp/ttp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index e2434da..281269a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3192,13 +3192,17 @@ class _results_class:
             # join results:
             for k in result.keys():
                 if k in self.record["result"]:  # if we already have results
-                    if isinstance(self.record["result"][k], str):
+                    if isinstance(self.record["result"][k], str) and isinstance(
+                        result[k], str
+                    ):
                         self.record["result"][k] += joinchar + result[k]  # join strings
                     elif isinstance(self.record["result"][k], list):
                         if isinstance(result[k], list):
                             self.record["result"][k] += result[k]  # join lists
                         else:
                             self.record["result"][k].append(result[k])  # append to list
+                    elif isinstance(result[k], list):  # combine result with list
+                        self.record["result"][k] = [self.record["result"][k]] + result[k]
                     else:  # transform result to list and append new result to it
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
-- 
2.43.0


From e4ed5d12cb419d46fafd614de58196a2d6d72545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 10/97] fix: child groups of an ended or rejected group were
 attached to a previous record

---
 ttp/ttp.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 281269a..afc7dba 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2815,7 +2815,7 @@ class _results_class:
 
                 # check if result is false, add group to ended groups if so
                 if result_data == False:
-                    self.ended_groups.add(re_["GROUP"].group_id)
+                    self.end_group(re_["GROUP"])
                     continue
                 # if parent is ended skip this child group results
                 elif re_["GROUP"].parent_group_id in self.ended_groups:
@@ -3221,7 +3221,18 @@ class _results_class:
         ):
             return
         # action to end current group by adding it to ended groups
-        self.ended_groups.add(REDICT["GROUP"].group_id)
+        self.end_group(REDICT["GROUP"])
+
+    def end_group(self, group):
+        """
+        Method to add group to ended groups together with all its child groups,
+        results of the latter belong to the ended group as well
+
+        :param group: (obj) group object
+        """
+        self.ended_groups.add(group.group_id)
+        for child in group.children:
+            self.end_group(child)
 
     def form_path(self, path):
         """
-- 
2.43.0


From d23956dc19b0bbd1c25bec9b5eb845ad2a05c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 11/97] fix: line matching several start regexes was dropped if
 the last of them failed validation

---
 ttp/ttp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index afc7dba..35dcbbc 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2727,6 +2727,15 @@ class _results_class:
                             startempty_re.append(index)
                         else:
                             normal_re.append(index)
+                    # start matches that did not pass validation check only
+                    # count if there is no valid start match for this line
+                    if any(
+                        result[index][1] != False for index in startempty_re + start_re
+                    ):
+                        startempty_re = [
+                            i for i in startempty_re if result[i][1] != False
+                        ]
+                        start_re = [i for i in start_re if result[i][1] != False]
                     # startempty RE always more preferred
                     if startempty_re:
                         # first run - look for results with same path as current record
-- 
2.43.0


From a48a97eac51d3acb38dc6b06c0a81847405cf7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 12/97] fix: group contains rejected results if first of the
 given variables had default value

---
 ttp/group/contains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/group/contains.py b/ttp/group/contains.py
index bccb22d..b589ae4 100644
--- a/ttp/group/contains.py
+++ b/ttp/group/contains.py
@@ -4,6 +4,6 @@ def contains(data, *args):
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
                 if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
-                    return data, False
+                    continue
             return data, True
     return data, False
-- 
2.43.0


From bb7af513172ecedf0c117165fdc87f02386a236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 13/97] fix: group exclude and excludeall ignored matches of
 variables with default value

---
 ttp/group/exclude.py    | 3 ++-
 ttp/group/excludeall.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttp/group/exclude.py b/ttp/group/exclude.py
index 548f682..db4c1ed 100644
--- a/ttp/group/exclude.py
+++ b/ttp/group/exclude.py
@@ -3,6 +3,7 @@ def exclude(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             return data, False
     return data, True
diff --git a/ttp/group/excludeall.py b/ttp/group/excludeall.py
index bedfa15..03817d7 100644
--- a/ttp/group/excludeall.py
+++ b/ttp/group/excludeall.py
@@ -4,7 +4,8 @@ def excludeall(data, *args):
     for var in args:
         if var in data:
             if var in _ttp_["results_object"].record["DEFAULTS"]:
-                continue
+                if _ttp_["results_object"].record["DEFAULTS"][var] == data[var]:
+                    continue
             found_vars.append(var)
     if list(args) == found_vars:
         return data, False
-- 
2.43.0


From 410e710230171b3e26bdec310dbae98fcf63edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 14/97] fix: function arguments named as names used by
 get_attributes module were not taken as strings

---
 ttp/utils/get_attributes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/get_attributes.py b/ttp/utils/get_attributes.py
index a2634f6..64d6042 100644
--- a/ttp/utils/get_attributes.py
+++ b/ttp/utils/get_attributes.py
@@ -59,7 +59,8 @@ def get_attributes(line):
         if options:
             try:
                 args_kwargs = eval(
-                    "_get_args_kwargs({})".format(options), _UndefSubst(globals())
+                    "_get_args_kwargs({})".format(options),
+                    _UndefSubst({"_get_args_kwargs": _get_args_kwargs}),
                 )
             except:
                 exc_type, exc_value, exc_traceback = sys.exc_info()
-- 
2.43.0


From 782525540175d93a1fc933ea6299798010b6d7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 15/97] fix: itemize lost items with values such as 0

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 35dcbbc..41fe568 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3030,7 +3030,7 @@ class _results_class:
         if isinstance(E, list):
             if self.record.get("merge_with_last"):
                 self._merge_recursively(E[-1], result_data)
-            elif result_data:
+            elif result_data or not isinstance(result_data, dict):
                 E.append(result_data)
             else:
                 # record without values of its own, results of child groups might
-- 
2.43.0


From 0f5146db80e670fc7fcf5ec5723cd1c5abf16280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 16/97] fix: to_float raised ValueError and to_int raised
 TypeError for values that cannot be converted

---
 ttp/match/to.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/to.py b/ttp/match/to.py
index 997cd4b..c9b31ba 100644
--- a/ttp/match/to.py
+++ b/ttp/match/to.py
@@ -14,9 +14,9 @@ def to_list(data):
 def to_int(data):
     try:
         return int(data), None
-    except ValueError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: ValueError, failed to convert value '{}' to integer".format(
+            "ttp.to_int: failed to convert value '{}' to integer".format(
                 data
             )
         )
@@ -26,9 +26,9 @@ def to_int(data):
 def to_float(data):
     try:
         return float(data), None
-    except TypeError:
+    except (TypeError, ValueError):
         log.error(
-            "ttp.to_int: TypeError, failed to convert value '{}' to float".format(data)
+            "ttp.to_float: failed to convert value '{}' to float".format(data)
         )
         return data, None
 
-- 
2.43.0


From 8084e5cfaa1323e3f7154a60c35cb7af011bb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 17/97] fix: append and prepend ignored global variables

---
 ttp/match/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 740b518..734b8d6 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -62,7 +62,7 @@ def append(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (data + char_value), None
     elif isinstance(data, list):
@@ -76,7 +76,7 @@ def prepend(data, char):
     # try to get char from global variables
     char_value = _ttp_["global_vars"].get(char, char)
     # try to get from input specific variables
-    char_value = _ttp_["vars"].get(char, char)
+    char_value = _ttp_["vars"].get(char, char_value)
     if isinstance(data, str):
         return (char_value + data), None
     elif isinstance(data, list):
-- 
2.43.0


From e217001b5d5bf959949fc077011736cd14ccf0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 18/97] fix: startswith_re and endswith_re anchored first or
 last alternative of the pattern only

---
 ttp/match/re_.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/re_.py b/ttp/match/re_.py
index a25b03a..ffbbaf9 100644
--- a/ttp/match/re_.py
+++ b/ttp/match/re_.py
@@ -2,13 +2,13 @@ import re
 
 
 def startswith_re(data, pattern):
-    if re.search("^{}".format(pattern), data):
+    if re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def endswith_re(data, pattern):
-    if re.search("{}$".format(pattern), data):
+    if re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
@@ -20,13 +20,13 @@ def contains_re(data, pattern):
 
 
 def notstartswith_re(data, pattern):
-    if not re.search("^{}".format(pattern), data):
+    if not re.search("^(?:{})".format(pattern), data):
         return data, True
     return data, False
 
 
 def notendswith_re(data, pattern):
-    if not re.search("{}$".format(pattern), data):
+    if not re.search("(?:{})$".format(pattern), data):
         return data, True
     return data, False
 
-- 
2.43.0


From ed0bd8148c7f1aa7214ee1a8715062505db4f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 19/97] fix: unrange duplicated number of ranges such as 5-5
 and failed or lost text on incomplete ranges

---
 ttp/match/unrange.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ttp/match/unrange.py b/ttp/match/unrange.py
index 3a5d452..a5232cf 100644
--- a/ttp/match/unrange.py
+++ b/ttp/match/unrange.py
@@ -15,20 +15,24 @@ def unrange(data, rangechar, joinchar):
     if rangechar not in data:
         return data, None
 
-    for item in data.split(rangechar):
+    for index, item in enumerate(data.split(rangechar)):
         # form split list checking that i is not empty
         item_split = [i for i in item.split(joinchar) if i]
-        if result:
-            start_int = int(result[-1])
+        if index > 0:
             try:
+                start_int = int(result[-1])
                 end_int = int(item_split[0])
-            except ValueError as e:
+            except (ValueError, IndexError) as e:
                 log.error(
                     "ttp.match.unrange: Unrange failed, data '{}', rangechar '{}', joinchar '{}', error: {}".format(
                         data, rangechar, joinchar, e
                     )
                 )
                 return data, None
+            # range of one number only, that number is in the results already
+            if start_int == end_int:
+                result += item_split[1:]
+                continue
             list_of_ints_range = [str(i) for i in list(range(start_int, end_int))]
             result += list_of_ints_range[1:] + item_split
         else:
-- 
2.43.0


From 4ac95fc3013e73d9f28e3b9dac968275a267eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 20/97] fix: item function failed for empty match results

---
 ttp/match/item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/match/item.py b/ttp/match/item.py
index 83c86a1..28f489e 100644
--- a/ttp/match/item.py
+++ b/ttp/match/item.py
@@ -1,6 +1,9 @@
 def item(data, item_index):
     """Method to return item of iterable at given index"""
     item_index = int(item_index)
+    # nothing to return item of
+    if not data:
+        return data, None
     # item_index not out of range
     if 0 <= item_index and item_index <= len(data) - 1:
         return data[item_index], None
-- 
2.43.0


From 4f1ad82f90936bf42d8bba117225167d897c06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:19 +0000
Subject: [PATCH 21/97] fix: greaterthan and lessthan failed if value given as
 integer

---
 ttp/match/string.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 734b8d6..16976b8 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -38,15 +38,15 @@ def notdigit(data):
 
 
 def greaterthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) > int(value.strip()):
+    if data.strip().isdigit() and str(value).strip().isdigit():
+        if int(data.strip()) > int(value):
             return data, True
     return data, False
 
 
 def lessthan(data, value):
-    if data.strip().isdigit() and value.strip().isdigit():
-        if int(data.strip()) < int(value.strip()):
+    if data.strip().isdigit() and str(value).strip().isdigit():
+        if int(data.strip()) < int(value):
             return data, True
     return data, False
 
-- 
2.43.0


From 708f3bb419f3ef403fbef9f6192984a90a640fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 22/97] fix: replaceall ignored template variables with string
 values

---
 ttp/match/string.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 16976b8..1ad97f4 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -111,6 +111,8 @@ def replaceall(data, *args):
                                 data = data.replace(i, newVal)
                     elif isinstance(oldVal, str):
                         data = data.replace(oldVal, newVal)
+            elif isinstance(vars_[oldValue], str):
+                data = data.replace(vars_[oldValue], new)
         else:
             data = data.replace(oldValue, new)
     return data, None
-- 
2.43.0


From d5cbcaa2cc7a633ec2228522d6e8629fa62f7b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 23/97] fix: join did not insert character in between of string
 characters as documented

---
 ttp/match/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/string.py b/ttp/match/string.py
index 1ad97f4..e1f459c 100644
--- a/ttp/match/string.py
+++ b/ttp/match/string.py
@@ -52,7 +52,7 @@ def lessthan(data, value):
 
 
 def join(data, char):
-    if isinstance(data, list):
+    if isinstance(data, (list, str)):
         return char.join(data), None
     else:
         return data, None
-- 
2.43.0


From 905591e6f0a7fa439fdb2d3866efc0b62de6c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 24/97] fix: replace group results with value 1 returned by
 macro

---
 ttp/group/macro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/group/macro.py b/ttp/group/macro.py
index 338cc52..8cec975 100644
--- a/ttp/group/macro.py
+++ b/ttp/group/macro.py
@@ -8,7 +8,7 @@ def macro(data, *macro):
             res = _ttp_["macro"][macro_item](result)
             if res is False:
                 return result, False
-            elif res in [True, None]:
+            elif res is True or res is None:
                 continue
             else:
                 result = res
-- 
2.43.0


From 7a27302cd137c88e357db9f91aee7aebe86cfeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 25/97] fix: support list of names in input macro attribute

---
 ttp/input/macro.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/ttp/input/macro.py b/ttp/input/macro.py
index 8bc24e3..fb9994b 100644
--- a/ttp/input/macro.py
+++ b/ttp/input/macro.py
@@ -1,12 +1,15 @@
-def macro(data, macro_name):
-    result = None
-    if macro_name in _ttp_["macro"]:
-        result = _ttp_["macro"][macro_name](data)
-    # process macro result
-    if result is True:
-        return data, True
-    elif result is False:
-        return data, False
-    elif result is None:
-        return data, None
-    return result, None
+def macro(data, *macro):
+    # extract macro names
+    macro_names_list = [i.strip() for item in macro for i in item.split(",")]
+    # run macro
+    for macro_item in macro_names_list:
+        if macro_item in _ttp_["macro"]:
+            res = _ttp_["macro"][macro_item](data)
+            # process macro result
+            if res is False:
+                return data, False
+            elif res is True or res is None:
+                continue
+            else:
+                data = res
+    return data, None
-- 
2.43.0


From 8e563330e30abe6b96fb3934e6c650ce3db36adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 26/97] fix: match first and last line of text returned by
 input functions

---
 ttp/ttp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 41fe568..b66596c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2399,6 +2399,12 @@ class _parser_class:
             )
             if flags == False:
                 break
+        # text returned by functions needs same new lines around it as input text
+        if input_functions and D[0] != "structured_data":
+            if not self.DATATEXT.startswith("\n"):
+                self.DATATEXT = "\n" + self.DATATEXT
+            while not self.DATATEXT.endswith("\n\n"):
+                self.DATATEXT += "\n"
 
     def update_groups_runs(self, D):
         """Method to update groups runs dictionaries with new values deirved
-- 
2.43.0


From 712efd4a39bdb1be65847f630e9ba6ddef82adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 27/97] fix: keep macro of templates separate when custom macro
 added

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b66596c..3ff9094 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -923,7 +923,8 @@ class _template_class:
         self.base_path = base_path
         self.results = []
         self.name = name
-        self.macro = ttp_macro  # dictionary of macro name to function mapping
+        self.ttp_macro = ttp_macro  # need to save it to pass to child templates
+        self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
             set()
@@ -1191,6 +1192,7 @@ class _template_class:
                 base_path=self.base_path,
                 ttp_vars=self.ttp_vars,
                 name=str(template_index),
+                ttp_macro=self.ttp_macro,
                 _ttp_=self._ttp_,
             )
         )
-- 
2.43.0


From 5db69d272835ba4efe7f3aea0f93f72f189164f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 28/97] fix: do not run macro of other templates in outputs

---
 ttp/ttp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3ff9094..073b831 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3458,9 +3458,8 @@ class _outputter_class:
         :param data: (dict or list) data to run outputter for
         :param macro: (dict) dictionary of macro functions
         """
-        marco = macro or {}
         self._ttp_["output_object"] = self
-        if macro:
+        if macro is not None:
             self._ttp_["macro"] = macro
         format_type = self.attributes["format"]
         results = data
-- 
2.43.0


From f2758b0ab4867dc11a7f32f0f14552bcafda6596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 29/97] fix: leave value unchanged if lookup data is not a
 dictionary

---
 ttp/group/lookup.py | 13 +++++++------
 ttp/match/lookup.py | 16 ++++++++++------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index 6d6a290..dc97760 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -26,7 +26,7 @@ def lookup(
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -50,12 +50,13 @@ def lookup(
         return data, None
     # traverse to lookup data
     for i in path:
-        lookup_data = lookup_data.get(i, {})
-    # perform lookup:
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
+    # perform lookup, only dictionary can have an entry for the value:
+    if not isinstance(lookup_data, dict):
+        return data, None
     try:
-        if isinstance(lookup_data, dict):
-            found_value = lookup_data[data[key]]
-    except KeyError:
+        found_value = lookup_data[data[key]]
+    except (KeyError, TypeError):
         return data, None
     # decide what action to do with found value
     if add_field:
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 6c9a64e..ddcca0e 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -17,7 +17,7 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
             if template.name == path[0]:
                 # use first input results in the template:
                 if isinstance(template.results, list):
-                    lookup_data = template.results[0]
+                    lookup_data = template.results[0] if template.results else {}
                 # if not list its dictionary, per_template results mode used
                 else:
                     lookup_data = template.results
@@ -35,11 +35,13 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
         log.info("ttp.lookup no lookup data name provided, doing nothing.")
         return data, None
     for i in path:
-        lookup_data = lookup_data.get(i, {})
-    # perform lookup:
+        lookup_data = lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
+    # perform lookup, only dictionary can have an entry for the value:
+    if not isinstance(lookup_data, dict):
+        return data, None
     try:
         found_value = lookup_data[data]
-    except KeyError:
+    except (KeyError, TypeError):
         return data, None
     # decide to replace match result or add new field:
     if add_field is not False:
@@ -55,7 +57,7 @@ def rlookup(data, name, add_field=False):
     try:
         rlookup = _ttp_["parser_object"].lookups
         for i in path:
-            rlookup = rlookup.get(i, {})
+            rlookup = rlookup.get(i, {}) if isinstance(rlookup, dict) else {}
     except KeyError:
         return data, None
     # perfrom rlookup:
@@ -81,7 +83,9 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
     try:
         lookup_data = _ttp_["parser_object"].lookups
         for i in path:
-            lookup_data = lookup_data.get(i, {})
+            lookup_data = (
+                lookup_data.get(i, {}) if isinstance(lookup_data, dict) else {}
+            )
     except KeyError:
         log.error("gpvlookup: lookup data not found")
         return data, None
-- 
2.43.0


From a0ddc6d19fb6c88dacbd12e12e97d2d3a18187a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 30/97] fix: skip keys that are not strings in rlookup

---
 ttp/match/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index ddcca0e..c0c2579 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -64,7 +64,7 @@ def rlookup(data, name, add_field=False):
     if isinstance(rlookup, dict) is False:
         return data, None
     for key in rlookup.keys():
-        if key in data:
+        if isinstance(key, str) and key in data:
             found_value = rlookup[key]
             break
     # decide to replace match result or add new field:
-- 
2.43.0


From a61fd7c5dbb24dcab8271e10e0e3480633870549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:38 +0000
Subject: [PATCH 31/97] fix: list each key once in gpvlookup multimatch results

---
 ttp/match/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index c0c2579..62eaf26 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -110,7 +110,8 @@ def gpvlookup(data, name, add_field=False, record=False, multimatch=False):
     # iterate over all patterns and collect all matches
     elif multimatch is True:
         for key, patterns in lookup_data.items():
-            found_value += [key for pattern in patterns if fnmatch(data, pattern)]
+            if any(fnmatch(data, pattern) for pattern in patterns):
+                found_value.append(key)
     # record found_value if told to do so:
     if record is not False:
         _ttp_["vars"].update({record: found_value})
-- 
2.43.0


From d130e89b5081e0ed1b02c379ff5d7eabc1d4f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 32/97] fix: do not share lookup table data with results

---
 ttp/group/lookup.py | 4 +++-
 ttp/match/lookup.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ttp/group/lookup.py b/ttp/group/lookup.py
index dc97760..68b838e 100644
--- a/ttp/group/lookup.py
+++ b/ttp/group/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -55,7 +56,8 @@ def lookup(
     if not isinstance(lookup_data, dict):
         return data, None
     try:
-        found_value = lookup_data[data[key]]
+        # use copy, results must not share data with lookup table
+        found_value = deepcopy(lookup_data[data[key]])
     except (KeyError, TypeError):
         return data, None
     # decide what action to do with found value
diff --git a/ttp/match/lookup.py b/ttp/match/lookup.py
index 62eaf26..b272992 100644
--- a/ttp/match/lookup.py
+++ b/ttp/match/lookup.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -40,7 +41,8 @@ def lookup(data, name=None, template=None, group=None, add_field=False):
     if not isinstance(lookup_data, dict):
         return data, None
     try:
-        found_value = lookup_data[data]
+        # use copy, results must not share data with lookup table
+        found_value = deepcopy(lookup_data[data])
     except (KeyError, TypeError):
         return data, None
     # decide to replace match result or add new field:
@@ -65,7 +67,7 @@ def rlookup(data, name, add_field=False):
         return data, None
     for key in rlookup.keys():
         if isinstance(key, str) and key in data:
-            found_value = rlookup[key]
+            found_value = deepcopy(rlookup[key])
             break
     # decide to replace match result or add new field:
     if found_value is None:
-- 
2.43.0


From fb7c7361a462b92e69363d42376fb0ee03b6195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 33/97] fix: prefer input's own variables over recorded by
 other inputs in set

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 073b831..320a5b6 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2619,7 +2619,7 @@ class _parser_class:
                 grps_unsort_rslts.append((run_re(group, results={}), group.outputs))
         # update groups runs (group default values) with group specific/local and
         # global variables, in one go - variables' values are not variables names
-        self.update_groups_runs({**self.vars, **self._ttp_["global_vars"]})
+        self.update_groups_runs({**self._ttp_["global_vars"], **self.vars})
 
         # sort results for groups with global outputs
         for group_result in unsort_rslts:
-- 
2.43.0


From 8194aadf79d638f412c91bb88893c2be9574ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 34/97] fix: do not share template variables and literals with
 results

---
 ttp/group/set_.py | 9 ++++++---
 ttp/match/let.py  | 8 ++++++--
 ttp/match/set_.py | 9 ++++++---
 ttp/ttp.py        | 3 ++-
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ttp/group/set_.py b/ttp/group/set_.py
index b1bbea6..a65912d 100644
--- a/ttp/group/set_.py
+++ b/ttp/group/set_.py
@@ -1,15 +1,18 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
 def set_func(data, source, target="_use_source_", default="_no_default_value_"):
+    # use copies, results must not share data with template
     # source - name of source variable to retrieve value
     # target - name of variable to save into
     if source in _ttp_["vars"]:
-        source_var_value = _ttp_["vars"][source]
+        source_var_value = deepcopy(_ttp_["vars"][source])
     elif source in _ttp_["global_vars"]:
-        source_var_value = _ttp_["global_vars"][source]
+        source_var_value = deepcopy(_ttp_["global_vars"][source])
     elif default != "_no_default_value_":
-        source_var_value = default
+        source_var_value = deepcopy(default)
     else:
         source_var_value = source
     # get target var name:
diff --git a/ttp/match/let.py b/ttp/match/let.py
index 25d00e0..35964a8 100644
--- a/ttp/match/let.py
+++ b/ttp/match/let.py
@@ -1,6 +1,10 @@
+from copy import deepcopy
+
+
 def let(data, name_or_value, var_value="__Undefined_Var_Value__"):
     if var_value == "__Undefined_Var_Value__":
-        data = name_or_value
+        # use copies, results must not share data with template
+        data = deepcopy(name_or_value)
         return data, None
     else:
-        return data, {"new_field": {name_or_value: var_value}}
+        return data, {"new_field": {name_or_value: deepcopy(var_value)}}
diff --git a/ttp/match/set_.py b/ttp/match/set_.py
index fc53481..72de249 100644
--- a/ttp/match/set_.py
+++ b/ttp/match/set_.py
@@ -1,14 +1,17 @@
+from copy import deepcopy
+
 _name_map_ = {"set_func": "set"}
 
 
 def set_func(data, value, match_line):
+    # use copies, results must not share data with template
     vars = _ttp_["vars"]
     if data.rstrip() == match_line:
         if isinstance(value, str):
             if value in vars:
-                return vars[value], None
+                return deepcopy(vars[value]), None
             elif value in _ttp_["global_vars"]:
-                return _ttp_["global_vars"][value], None
-        return value, None
+                return deepcopy(_ttp_["global_vars"][value]), None
+        return deepcopy(value), None
     else:
         return data, False
diff --git a/ttp/ttp.py b/ttp/ttp.py
index 320a5b6..6123cc1 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2873,7 +2873,8 @@ class _results_class:
             result = {}
             for var_name in vars_names:
                 if var_name in variables:
-                    result[var_name] = variables[var_name]
+                    # use copy, results must not share data with variables
+                    result[var_name] = copy.deepcopy(variables[var_name])
             self.record = {
                 "result": result,
                 "PATH": [i.strip() for i in path_item.split(".")],
-- 
2.43.0


From 1b40ddfa373f1bc1d9bacc9fb548547b8262e54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 35/97] fix: keep functions of parser objects separate

---
 ttp/ttp.py | 55 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 6123cc1..b361293 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -12,6 +12,7 @@ from xml.etree import cElementTree as ET
 from multiprocessing import Process, cpu_count, JoinableQueue, Queue
 from sys import version_info
 from sys import getsizeof
+from types import FunctionType
 from collections import OrderedDict
 
 
@@ -29,10 +30,13 @@ TTP LAZY IMPORT SYSTEM
 class CachedModule:
     """Class that contains name of the function and path to module/file
     that contains that function, on first call to this class, function
-    will be imported into _ttp_ dictionary, subsequent calls we call
-    function directly
+    will be imported, subsequent calls run imported function. Each _ttp_
+    dictionary has its own functions, for them to have this dictionary
+    in global space instead of the dictionary of some other parser object.
     """
 
+    function = None  # imported function
+
     def __init__(self, import_path, parent_dir, function_name, functions, _ttp_):
         self.import_path = import_path
         self.parent_dir = parent_dir
@@ -47,26 +51,45 @@ class CachedModule:
             abs_import = ""
         path = "{abs}{imp}".format(abs=abs_import, imp=self.import_path)
         module = __import__(path, fromlist=[None])
-        # add _ttp_ to module globals space
-        setattr(module, "_ttp_", self._ttp_)
-        try:
-            _name_map_ = getattr(module, "_name_map_")
-        except AttributeError:
-            _name_map_ = {}
+        # make copy of module's functions with _ttp_ in their globals space
+        module_globals = dict(vars(module), _ttp_=self._ttp_)
+        for name, item in vars(module).items():
+            if isinstance(item, FunctionType) and item.__globals__ is vars(module):
+                module_globals[name] = FunctionType(
+                    item.__code__,
+                    module_globals,
+                    item.__name__,
+                    item.__defaults__,
+                    item.__closure__,
+                )
+                module_globals[name].__dict__.update(item.__dict__)
+                module_globals[name].__doc__ = item.__doc__
+                if getattr(item, "__kwdefaults__", None):
+                    module_globals[name].__kwdefaults__ = item.__kwdefaults__
+        _name_map_ = module_globals.get("_name_map_", {})
         for func_name in self.parent_module_functions:
             name = _name_map_.get(func_name, func_name)
-            self._ttp_[self.parent_dir][name] = getattr(module, func_name)
+            # skip functions replaced with custom functions
+            if isinstance(self._ttp_[self.parent_dir].get(name), CachedModule):
+                self._ttp_[self.parent_dir][name].function = module_globals[func_name]
+            if name == self.function_name:
+                self.function = module_globals[func_name]
 
     def __call__(self, *args, **kwargs):
-        # this method invoked on CachedModule class call, triggering function import
-        log.info(
-            "calling CachedModule: module '{}', function '{}'".format(
-                self.import_path, self.function_name
+        # function imported on first CachedModule class call
+        if self.function is None:
+            log.info(
+                "calling CachedModule: module '{}', function '{}'".format(
+                    self.import_path, self.function_name
+                )
             )
-        )
-        self.load()
+            self.load()
         # call original function
-        return self._ttp_[self.parent_dir][self.function_name](*args, **kwargs)
+        return self.function(*args, **kwargs)
+
+    def __getstate__(self):
+        # do not pickle function, it is imported on first call after unpickling
+        return {k: v for k, v in self.__dict__.items() if k != "function"}
 
 
 def lazy_import_functions():
-- 
2.43.0


From fa47c6579e7366851fd3a769e0526c0b0fe05307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 36/97] fix: input groups given in tag text no longer
 overridden by the default

---
 ttp/ttp.py | 67 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index b361293..472d01f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1480,16 +1480,17 @@ class _input_class:
             # hashing, groups can be attempted to extract before name attribute
             self.name = element.attrib.get("name", input_name).strip()
             # set default attribute values
-            element.attrib.setdefault("groups", groups)
             element.attrib.setdefault("load", "python")
             # extract attributes
             self.get_attributes(data=element.attrib, element_text=element.text)
+            self.get_groups_indexes()
             self.load_data(element_text=element.text)
         # if no input element given, use input_name and groups with data
         # as well as default python loader
         else:
             self.name = input_name
             self.get_attributes(data={"groups": groups, "load": "python"})
+            self.get_groups_indexes()
             self.load_data(data=data)
 
     def get_attributes(self, data, element_text=""):
@@ -1505,34 +1506,7 @@ class _input_class:
                     self.get_attributes(data=attribs)
 
         def extract_groups(O):
-            if isinstance(O, list):
-                groups_list = O
-            else:
-                groups_list = [i.strip() for i in O.split(",")]
-            # create a list of groups with no input attribute matched by this input groups attribute
-            if "all" in groups_list:
-                self.input_groups = [
-                    grp_obj.grp_index
-                    for grp_obj in self.template_obj.groups
-                    if not grp_obj.inputs
-                ]
-            else:
-                self.input_groups = [
-                    grp_obj.grp_index
-                    for grp_obj in self.template_obj.groups
-                    if (grp_obj.name in groups_list and not grp_obj.inputs)
-                ]
-            # iterate over all groups to get a list of groups that match this input in input attribute
-            self.group_inputs = [
-                grp_obj.grp_index
-                for grp_obj in self.template_obj.groups
-                if self.name in grp_obj.inputs
-            ]
-            # form input groups_indexes - group_inputs more preferred
-            if self.group_inputs:
-                self.groups_indexes = sorted(list(set(self.group_inputs)))
-            else:
-                self.groups_indexes = sorted(list(set(self.input_groups)))
+            self.input_groups = O
 
         def extract_extensions(O):
             if isinstance(O, str):
@@ -1619,6 +1593,41 @@ class _input_class:
             else:
                 self.attributes[attr_name] = attributes
 
+    def get_groups_indexes(self):
+        """
+        Method to form a list of indexes of the groups to use for this input,
+        called once all attributes known, as name and groups can come from tag
+        attributes or from tag text in any order
+        """
+        if isinstance(self.input_groups, list):
+            groups_list = self.input_groups
+        else:
+            groups_list = [i.strip() for i in self.input_groups.split(",")]
+        # create a list of groups with no input attribute matched by this input groups attribute
+        if "all" in groups_list:
+            self.input_groups = [
+                grp_obj.grp_index
+                for grp_obj in self.template_obj.groups
+                if not grp_obj.inputs
+            ]
+        else:
+            self.input_groups = [
+                grp_obj.grp_index
+                for grp_obj in self.template_obj.groups
+                if (grp_obj.name in groups_list and not grp_obj.inputs)
+            ]
+        # iterate over all groups to get a list of groups that match this input in input attribute
+        self.group_inputs = [
+            grp_obj.grp_index
+            for grp_obj in self.template_obj.groups
+            if self.name in grp_obj.inputs
+        ]
+        # form input groups_indexes - group_inputs more preferred
+        if self.group_inputs:
+            self.groups_indexes = sorted(list(set(self.group_inputs)))
+        else:
+            self.groups_indexes = sorted(list(set(self.input_groups)))
+
     def load_data(self, element_text=None, data=None):
         if self.attributes["load"] == "text" and element_text:
             self.data = [("text_data", element_text)]
-- 
2.43.0


From 3e0de761c79cbe9add3a23c4728a0d59d67cacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:48 +0000
Subject: [PATCH 37/97] fix: groups of combined inputs run in template order

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 472d01f..ee0b3dd 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1071,7 +1071,7 @@ class _template_class:
         if input_obj.name in self.inputs:
             self.inputs[input_obj.name].load_data(data=input_obj.data)
             self.inputs[input_obj.name].groups_indexes += input_obj.groups_indexes
-            self.inputs[input_obj.name].groups_indexes = list(
+            self.inputs[input_obj.name].groups_indexes = sorted(
                 set(self.inputs[input_obj.name].groups_indexes)
             )
             del input_obj
-- 
2.43.0


From bd8d78b5a89c921fce563ea824fc5974bb647640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 38/97] fix: template tag with text only keeps its name and
 other attributes

---
 ttp/ttp.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ee0b3dd..28d5624 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1416,11 +1416,9 @@ class _template_class:
             template_ET = ET.XML("<template>\n{}\n</template>".format(template_text))
         # check if template has children, if not, make it an _anonymous_  group
         if not list(template_ET):
-            template_ET = ET.XML(
-                '<template><group name="_anonymous_">\n{}\n</group></template>'.format(
-                    template_text
-                )
-            )
+            group_ET = ET.SubElement(template_ET, "group", {"name": "_anonymous_"})
+            group_ET.text = "\n{}\n".format(template_ET.text or "")
+            template_ET.text = None
         return template_ET
 
     def load_template_xml(self, template_text):
-- 
2.43.0


From 0269bc40006e1d300b94b52d8157a7d61795ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 39/97] fix: dict_to_list does not add key field to the data
 given

---
 ttp/output/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 9cec30d..319ed66 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -57,7 +57,9 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
         for k, v in traversed_data.items():
             if not isinstance(v, dict):
                 return traversed_data
-            v.update({key_name: k})
+            # copy the item to not add key_name to the data given
+            v = v.copy()
+            v[key_name] = k
             result.append(v)
     elif isinstance(traversed_data, list):
         # run recusrsion
-- 
2.43.0


From c074c6a33326a9d77b3ddae56db01734aac5c491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 40/97] fix: excel formatter keeps tab names for the next run

---
 ttp/formatters/excel_formatter.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 06ec250..5e796cf 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -35,11 +35,7 @@ def excel_formatter(data, **kwargs):
     # form table_tabs - list of dictionaries
     table_tabs = []
     for index, tab_det in enumerate(table):
-        tab_name = (
-            tab_det.pop("tab_name")
-            if "tab_name" in tab_det
-            else "Sheet{}".format(index)
-        )
+        tab_name = tab_det.get("tab_name", "Sheet{}".format(index))
         headers = tab_det.get("headers", None)
         if isinstance(headers, str):
             headers = [i.strip() for i in headers.split(",")]
-- 
2.43.0


From cc50712c5db1ccd17f5d94f485116cb5dac13903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 41/97] fix: per_template results do not mix with results of
 group outputs

---
 ttp/ttp.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 28d5624..bf4fe7f 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -539,10 +539,11 @@ class ttp:
                             datum, main_results={}, input_functions=input_obj.functions
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
-                        result = parserObj.main_results
+                        result = parserObj.join_results()
                         template.form_results(result)
             elif template.results_method.lower() == "per_template":
                 results_data = {}
+                groups_results = []
                 for input_name, input_obj in template.inputs.items():
                     for datum in input_obj.data:
                         parserObj.set_data(
@@ -552,7 +553,8 @@ class ttp:
                         )
                         parserObj.parse(groups_indexes=input_obj.groups_indexes)
                         results_data = parserObj.main_results
-                template.form_results(results_data)
+                        groups_results += parserObj.groups_results
+                template.form_results(parserObj.join_results(groups_results))
 
     def result(self, templates=None, structure="list", **kwargs):
         """Method to get parsing results, supports basic filtering based on
@@ -898,7 +900,7 @@ class _worker(Process):
             )
             # parse and get results
             self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.main_results
+            result = self.parserObj.join_results()
             # put results in the queue and finish task
             self.task_queue.task_done()
             self.results_queue.put(result)
@@ -2387,6 +2389,7 @@ class _parser_class:
         self.original_vars = vars
         self.groups = groups
         self.main_results = {}
+        self.groups_results = []  # results of groups with group specific outputs
         self.DATATEXT = ""
         self.DATANAME = ""
         self._ttp_ = _ttp_
@@ -2399,6 +2402,7 @@ class _parser_class:
         main_results = main_results or {}
         input_functions = input_functions or []
         self.main_results = main_results
+        self.groups_results = []
         if D[0] == "text_data":
             self.DATATEXT = "\n" + D[1] + "\n\n"
             self.DATANAME = "text_data"
@@ -2685,14 +2689,16 @@ class _parser_class:
             grp_result = RSLTSOBJ.results
             for output in grp_raw_result[1]:
                 grp_result = output.run(data=grp_result)
-            # transform results into list:
-            if isinstance(self.main_results, dict):
-                if self.main_results:
-                    self.main_results = [self.main_results]
-                else:
-                    self.main_results = []
-            # save results into global results list:
-            self.main_results.append(grp_result)
+            self.groups_results.append(grp_result)
+
+    def join_results(self, groups_results=None):
+        """Method to join main results with results of group specific outputs,
+        main results returned as is if there are no results of such groups.
+        """
+        groups_results = groups_results or self.groups_results
+        if not groups_results:
+            return self.main_results
+        return ([self.main_results] if self.main_results else []) + groups_results
 
 
 """
-- 
2.43.0


From 77ca69b15f0f811596fb7ee686bfdba65772c390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 42/97] fix: group outputs after one that does not exist are
 found

---
 ttp/ttp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index bf4fe7f..469bd78 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1104,7 +1104,9 @@ class _template_class:
         self.groups_outputs
         """
         for G in self.groups:
-            for output_index, grp_output in enumerate(G.outputs):
+            # iterate over copy as outputs that are not found removed from the list
+            for grp_output in list(G.outputs):
+                output_index = G.outputs.index(grp_output)
                 group_output_found = False
                 # search through global outputs:
                 for glob_index, glob_output in enumerate(self.outputs):
-- 
2.43.0


From c8d15409fc7dd87aef02c763868b198c7b4ebb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 43/97] fix: csv formatter escapes quote characters within
 values

---
 ttp/formatters/csv_formatter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ttp/formatters/csv_formatter.py b/ttp/formatters/csv_formatter.py
index a5ae61b..b74d976 100644
--- a/ttp/formatters/csv_formatter.py
+++ b/ttp/formatters/csv_formatter.py
@@ -14,11 +14,12 @@ def csv_formatter(data, **kwargs):
     quote = kwargs.get("quote", '"')
     sep = "{q}{s}{q}".format(s=sep, q=quote)
     row_formatter = "\n{q}{{}}{q}".format(q=quote)
-    # form results:
-    result = "{q}{d}{q}".format(d=sep.join(table[0]), q=quote)
+    # form results doubling quote characters within the values:
+    def form_row(row):
+        row = [str(i) for i in row]
+        return sep.join([i.replace(quote, quote * 2) for i in row] if quote else row)
+
+    result = "{q}{d}{q}".format(d=form_row(table[0]), q=quote)
     for row in table[1:]:
-        try:
-            result += row_formatter.format(sep.join(row))
-        except TypeError:  # might happen if not all values in row are strings
-            result += row_formatter.format(sep.join([str(i) for i in row]))
+        result += row_formatter.format(form_row(row))
     return result
-- 
2.43.0


From d197380c30074f99413f3e07c59847b8fd88afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 44/97] fix: excel tab without path uses results as is

---
 ttp/formatters/excel_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/formatters/excel_formatter.py b/ttp/formatters/excel_formatter.py
index 5e796cf..767ea08 100644
--- a/ttp/formatters/excel_formatter.py
+++ b/ttp/formatters/excel_formatter.py
@@ -41,7 +41,7 @@ def excel_formatter(data, **kwargs):
             headers = [i.strip() for i in headers.split(",")]
         # get attributes out of tab_det
         tab_kwargs = {
-            "path": [i.strip() for i in tab_det.get("path", "").split(".")],
+            "path": [i.strip() for i in tab_det.get("path", "").split(".") if i.strip()],
             "headers": headers,
             "missing": tab_det.get("missing", ""),
             "key": tab_det.get("key", ""),
-- 
2.43.0


From d9074ffd35359111515934c41c403e98ba37e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 45/97] fix: output tag attribute strict='False' is honoured

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 469bd78..28734c7 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3433,6 +3433,12 @@ class _outputter_class:
             else:
                 self.attributes["headers"] = O
 
+        def extract_strict(O):
+            # tag attributes are strings
+            if isinstance(O, str):
+                O = O.strip().lower() != "false"
+            self.attributes["strict"] = O
+
         def extract_condition(O):
             condition_attributes = self._ttp_["utils"]["get_attributes"](
                 "condition({})".format(O)
@@ -3477,6 +3483,7 @@ class _outputter_class:
             "format_attributes": extract_format_attributes,
             "path": extract_path,
             "headers": extract_headers,
+            "strict": extract_strict,
             "condition": extract_condition,
         }
         functions = {"functions": extract_functions}
-- 
2.43.0


From 657e68148b8623b6e1273355f811cdb0a624c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:52 +0000
Subject: [PATCH 46/97] fix: multiprocess results order, form results in order
 of inputs instead of order of completion

---
 ttp/ttp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 28734c7..dd26392 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -503,6 +503,7 @@ class ttp:
             for input_name, input_obj in template.inputs.items():
                 for datum in input_obj.data:
                     task_dict = {
+                        "index": num_jobs,
                         "data": datum,
                         "groups_indexes": input_obj.groups_indexes,
                         "input_functions": input_obj.functions,
@@ -514,9 +515,10 @@ class ttp:
             # wait for all tasks to complete
             tasks.join()
 
-            for i in range(num_jobs):
-                result = results_queue.get()
-                template.form_results(result)
+            # results come in order of completion, form them in order of inputs
+            results = dict(results_queue.get() for i in range(num_jobs))
+            for index in range(num_jobs):
+                template.form_results(results[index])
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -903,7 +905,7 @@ class _worker(Process):
             result = self.parserObj.join_results()
             # put results in the queue and finish task
             self.task_queue.task_done()
-            self.results_queue.put(result)
+            self.results_queue.put((next_task["index"], result))
         return
 
 
-- 
2.43.0


From c7e5b8904f6593dba0ab18897541c89ee9672241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 47/97] fix: multiprocess mode with functions added by
 add_function, keep built-in functions of that scope

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index dd26392..af5f8d5 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -861,7 +861,8 @@ class _worker(Process):
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
-        self._ttp_.update(custom_functions)
+        for scope, functions in custom_functions.items():
+            self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
         self.task_queue = task_queue
         self.results_queue = results_queue
-- 
2.43.0


From c81565806ef07152ca9820e12e9fc7f0a5aca67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 48/97] fix: multiprocess mode macros, load macro tags in order
 of definition

---
 ttp/ttp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index af5f8d5..5a79def 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -955,8 +955,8 @@ class _template_class:
         self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
         self.results_method = "per_input"  # how to join results
         self.macro_text = (
-            set()
-        )  # set to contain macro functions text to transfer into other processes
+            []
+        )  # list to contain macro functions text to transfer into other processes
         self.filters = filters  # list that contains names of child templates to extract
         self.__doc__ = ""  # string to contain template doc/description
         self.template = template_text  # attribute to store template text
@@ -1200,7 +1200,7 @@ class _template_class:
             )
             self.macro.update(funcs)
             # save macro text to be able to restore macro functions within another process
-            self.macro_text.add(element.text)
+            self.macro_text.append(element.text)
         except SyntaxError as e:
             log.error(
                 "template.parse_macro: syntax error, failed to load macro: \n{},\nError: {}".format(
-- 
2.43.0


From bc53cfd1cf2efac868a09941b44d7bee232bdcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 49/97] fix: multiprocess mode lookup in results of templates,
 give worker processes template objects

---
 ttp/ttp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5a79def..a380de0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -495,6 +495,8 @@ class ttp:
                     macro_text=template.macro_text,
                     custom_functions=self._ttp_.get("_custom_functions_", {}),
                     dynamic_path_key_to_int=self._ttp_["dynamic_path_key_to_int"],
+                    ttp_object=self,
+                    template_obj=template,
                 )
                 for i in range(num_processes)
             ]
@@ -858,12 +860,17 @@ class _worker(Process):
         macro_text,
         custom_functions,
         dynamic_path_key_to_int,
+        ttp_object,
+        template_obj,
     ):
         Process.__init__(self)
         self._ttp_ = lazy_import_functions()
         for scope, functions in custom_functions.items():
             self._ttp_.setdefault(scope, {}).update(functions)
         self._ttp_["dynamic_path_key_to_int"] = dynamic_path_key_to_int
+        # results to lookup data in
+        self._ttp_["ttp_object"] = ttp_object
+        self._ttp_["template_obj"] = template_obj
         self.task_queue = task_queue
         self.results_queue = results_queue
         self.macro_text = macro_text
-- 
2.43.0


From 10c93eb63af9aa463f2b943921786296d5a4ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 50/97] fix: multiprocess mode, transfer errors of worker
 processes to the caller instead of waiting forever

---
 ttp/ttp.py | 86 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a380de0..64003ed 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -9,12 +9,17 @@ import copy
 import ast
 import pickle
 from xml.etree import cElementTree as ET
-from multiprocessing import Process, cpu_count, JoinableQueue, Queue
+from multiprocessing import Process, cpu_count, Queue
 from sys import version_info
 from sys import getsizeof
 from types import FunctionType
 from collections import OrderedDict
 
+try:
+    from queue import Empty
+except ImportError:  # python 2
+    from Queue import Empty
+
 
 # Initiate global variables
 log = logging.getLogger(__name__)
@@ -482,7 +487,7 @@ class ttp:
 
         for template in self._templates:
             num_jobs = 0
-            tasks = JoinableQueue()
+            tasks = Queue()
             results_queue = Queue()
 
             workers = [
@@ -513,14 +518,43 @@ class ttp:
                     tasks.put(task_dict)
                     num_jobs += 1
             [tasks.put(None) for i in range(num_processes)]
-
-            # wait for all tasks to complete
-            tasks.join()
+            # tasks not taken by workers must not block exit of this process
+            tasks.cancel_join_thread()
 
             # results come in order of completion, form them in order of inputs
-            results = dict(results_queue.get() for i in range(num_jobs))
+            results = self.__get_multiprocess_results(workers, results_queue, num_jobs)
             for index in range(num_jobs):
-                template.form_results(results[index])
+                result, error = results[index]
+                if error is not None:
+                    raise error
+                template.form_results(result)
+
+    def __get_multiprocess_results(self, workers, results_queue, num_jobs):
+        """Method to wait for results of all the jobs, raises RuntimeError if
+        worker processes ended without producing them.
+
+        Returns dictionary of ``{job_index: (result, error)}``
+        """
+        results = {}
+        workers_ended = False
+        try:
+            while len(results) < num_jobs:
+                try:
+                    index, result, error = pickle.loads(results_queue.get(timeout=1))
+                    results[index] = (result, error)
+                except Empty:
+                    if workers_ended:
+                        raise RuntimeError(
+                            "ttp.parse: worker process ended unexpectedly"
+                        )
+                    # try to get results once more, processes could have
+                    # put them in the queue right before they ended
+                    exitcodes = [w.exitcode for w in workers]
+                    workers_ended = any(exitcodes) or None not in exitcodes
+        finally:
+            [w.terminate() for w in workers]
+            [w.join() for w in workers]
+        return results
 
     def __parse_in_one_process(self):
         """Method to parse data in single process, each data item parsed
@@ -893,6 +927,16 @@ class _worker(Process):
                     )
                 )
 
+    def pickle_error(self, index, error):
+        # transfer error to parent process or its text if error cannot be transferred
+        try:
+            item = pickle.dumps((index, None, error))
+            pickle.loads(item)
+        except Exception:
+            error = RuntimeError("{}: {}".format(type(error).__name__, error))
+            item = pickle.dumps((index, None, error))
+        return item
+
     def run(self):
         self.load_functions()
         # run tasks
@@ -900,20 +944,22 @@ class _worker(Process):
             next_task = self.task_queue.get()
             # check for dead pill to stop process
             if next_task is None:
-                self.task_queue.task_done()
                 break
-            # set parser object parameters
-            self.parserObj.set_data(
-                next_task["data"],
-                main_results={},
-                input_functions=next_task["input_functions"],
-            )
-            # parse and get results
-            self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
-            result = self.parserObj.join_results()
-            # put results in the queue and finish task
-            self.task_queue.task_done()
-            self.results_queue.put((next_task["index"], result))
+            try:
+                # set parser object parameters
+                self.parserObj.set_data(
+                    next_task["data"],
+                    main_results={},
+                    input_functions=next_task["input_functions"],
+                )
+                # parse and get results
+                self.parserObj.parse(groups_indexes=next_task["groups_indexes"])
+                result = self.parserObj.join_results()
+                item = pickle.dumps((next_task["index"], result, None))
+            except (Exception, SystemExit) as e:
+                item = self.pickle_error(next_task["index"], e)
+            # put results in the queue
+            self.results_queue.put(item)
         return
 
 
-- 
2.43.0


From 787377da831ca8d39fdc8a360ccbec35071b8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 51/97] fix: clear_result method, do not empty results obtained
 before and reset results changed by outputs

---
 ttp/ttp.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 64003ed..ac49422 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -768,14 +768,9 @@ class ttp:
         # filter templates objects to clear results for
         templates = [templates] if isinstance(templates, str) else templates
         # clear results
-        if templates:
-            [
-                t_obj.results.clear()
-                for t_obj in self._templates
-                if t_obj.name in templates
-            ]
-        else:
-            [t_obj.results.clear() for t_obj in self._templates]
+        for t_obj in self._templates:
+            if not templates or t_obj.name in templates:
+                t_obj.results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
-- 
2.43.0


From 40a768dee29b8f89de379b340d42ca76fc0031fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 52/97] fix: repeated parse of templates with outputs, run
 outputs on parsed results

---
 ttp/ttp.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ac49422..a24776b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -457,6 +457,9 @@ class ttp:
         In addition to 3 TTP will check if number of input data items more then 1, if so
         multiple processes will be used and one process otherwise.
         """
+        # results obtained before must not change
+        for template in self._templates:
+            template.parsed_results = copy.copy(template.parsed_results)
         # add self.__data to templates and get file count and size:
         self._calculate_overall_data_size()
         log.info(
@@ -771,6 +774,7 @@ class ttp:
         for t_obj in self._templates:
             if not templates or t_obj.name in templates:
                 t_obj.results = []
+                t_obj.parsed_results = []
 
     def add_function(self, fun, scope, name=None, add_ttp=False):
         """Method to add custom function in ``_ttp_`` dictionary.
@@ -998,6 +1002,7 @@ class _template_class:
         self.templates = []
         self.base_path = base_path
         self.results = []
+        self.parsed_results = []  # results as they were before outputs run
         self.name = name
         self.ttp_macro = ttp_macro  # need to save it to pass to child templates
         self.macro = dict(ttp_macro)  # dictionary of macro name to function mapping
@@ -1064,6 +1069,9 @@ class _template_class:
 
     def run_outputs(self):
         """Method to run template outputs with template results"""
+        # outputs can modify results, keep parsed results for the next parse
+        if self.outputs:
+            self.results = copy.deepcopy(self.parsed_results)
         for output in self.outputs:
             self.results = output.run(self.results, macro=self.macro)
 
@@ -1084,10 +1092,11 @@ class _template_class:
             datum = result
         # for per_template mode, results already combined
         if self.results_method == "per_template":
-            self.results = datum
+            self.parsed_results = datum
         # append this input results to overall results
         elif self.results_method == "per_input":
-            self.results.append(datum)
+            self.parsed_results.append(datum)
+        self.results = self.parsed_results
 
     def get_var_functions(self):
         """optimization method to move variable functions
-- 
2.43.0


From bd9819efb999a81d9123dbdcbca9e0798cc6799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 53/97] fix: ttp object vars, do not modify dictionary given by
 the caller

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a24776b..1615f47 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -259,7 +259,7 @@ class ttp:
         self._templates = []
         self.base_path = base_path
         self.multiproc_threshold = 5242880  # in bytes, equal to 5MBytes
-        self.vars = vars or {}  # dictionary of variables to add to each template vars
+        self.vars = dict(vars or {})  # dictionary of variables to add to each template vars
         self.lookups = {}
         # setup logging
         logging_config(log_level, log_file)
-- 
2.43.0


From 9ee91fe1eaf23e15520d70bc71fde0c95d32dad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 54/97] fix: extend tag, replace tag in place at any level and
 apply filters by kind

---
 ttp/ttp.py | 68 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 1615f47..901b7be 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1405,11 +1405,16 @@ class _template_class:
                     ret.append(t)
         return ret
 
-    def handle_extend(self, template_text=None, template_ET=None, top=True):
+    def handle_extend(
+        self, template_text=None, template_ET=None, top=True, in_group=False
+    ):
         """
         Function to handle all extend tags including nested within groups.
 
         :param template_text: (str) template string
+        :param template_ET: (obj) ET.XML object to handle extend tags for
+        :param top: (bool) indicator of the main template
+        :param in_group: (bool) indicator if template_ET content is within a group
         :return: (str) final template string after extending it
         """
         # load template string to XML etree object
@@ -1420,8 +1425,9 @@ class _template_class:
             for child in template_ET:
                 if child.tag == "macro":
                     self.parse_macro(child)
-        # recursively iterate over etree handling extend tags
-        for index, child in enumerate(template_ET):
+        # recursively iterate over etree handling extend tags, iterate over
+        # copy of children as extend tags replaced with extended templates
+        for child in list(template_ET):
             if child.tag == "extend":
                 path_to_template = child.attrib.get("template", "")
                 content = self._ttp_["utils"]["load_files"](path_to_template, read=True)
@@ -1442,25 +1448,65 @@ class _template_class:
                     len(extend_ET) == 1
                     and extend_ET[0].attrib.get("name") == "_anonymous_"
                 ):
-                    template_ET.text += extend_ET[0].text
-                    template_ET.remove(child)
+                    self.replace_extend_tag(template_ET, child, text=extend_ET[0].text)
                 # process extended template children to extend parent element
                 else:
                     # run filtering for extended template tags
-                    filtered_ET = self.filter_extend(
-                        extend_template=extend_ET, extend_tag=child, top=top
+                    filtered_ET = ET.Element("template")
+                    filtered_ET.extend(
+                        list(
+                            self.filter_extend(
+                                extend_template=extend_ET,
+                                extend_tag=child,
+                                top=not in_group,
+                            )
+                        )
                     )
                     # run recursion for newly extended groups to handle nested extend tags
-                    self.handle_extend(template_ET=filtered_ET, top=False)
+                    self.handle_extend(
+                        template_ET=filtered_ET, top=False, in_group=in_group
+                    )
                     # save extended elements as parent children
-                    template_ET[index : index + 1] = filtered_ET
+                    self.replace_extend_tag(
+                        template_ET,
+                        child,
+                        text="" if len(filtered_ET) else filtered_ET.text,
+                        elements=list(filtered_ET),
+                    )
             # run recursion for child groups looking for extend tags
-            elif child.tag == "group":
-                self.handle_extend(template_ET=child, top=False)
+            elif child.tag in ["g", "grp", "group"]:
+                self.handle_extend(template_ET=child, top=False, in_group=True)
 
         if top:
             return ET.tostring(template_ET).decode()
 
+    def replace_extend_tag(self, parent, extend_tag, text="", elements=()):
+        """
+        Method to replace extend tag with text and elements preserving the
+        text that follows extend tag
+
+        :param parent: (obj) ET.XML object of extend tag parent
+        :param extend_tag: (obj) ET.XML object of extend tag
+        :param text: (str) text to insert
+        :param elements: (list) list of ET.XML objects to insert
+        """
+
+        def add_text(index, data):
+            # text before first child is parent's text, otherwise it is a tail of the child
+            if index == 0:
+                parent.text = (parent.text or "") + data
+            else:
+                parent[index - 1].tail = (parent[index - 1].tail or "") + data
+
+        index = list(parent).index(extend_tag)
+        parent.remove(extend_tag)
+        add_text(index, text or "")
+        for element in elements:
+            parent.insert(index, element)
+            index += 1
+        if (extend_tag.tail or "").strip():
+            add_text(index, extend_tag.tail)
+
     def construct_etree(self, template_text):
         """
         Method to construct XML etree out of template text reconstructing
-- 
2.43.0


From 04dea05408774ff94095b40a37a3711fbc71e755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:37 +0000
Subject: [PATCH 55/97] fix: load_files, support file objects, sort directory
 files, skip files that cannot be decoded

---
 ttp/ttp.py           | 5 +++--
 ttp/utils/loaders.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 901b7be..26b952b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2519,8 +2519,9 @@ class _parser_class:
             self.DATANAME = "structured_data"
         else:
             data = self._ttp_["utils"]["load_files"](path=D[1], read=True)
-            # data is a list of one tuple - [(data_type, data_text,)]
-            self.DATATEXT = "\n" + data[0][1] + "\n\n"
+            # data is a list of one tuple - [(data_type, data_text,)] or empty
+            # list if file content cannot be decoded
+            self.DATATEXT = "\n" + (data[0][1] if data else "") + "\n\n"
             self.DATANAME = D[1]
         # set vars to original vars copy and run vars functions against DATATEXT
         self.vars = self.original_vars.copy()
diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 99d6b17..579d62e 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -19,6 +19,7 @@ def _load_template_file(filepath, read):
             log.warning(
                 'ttp_utils.load_files: Unicode read error, file "{}"'.format(filepath)
             )
+            return []
     else:
         return [("file_name", filepath)]
 
@@ -44,6 +45,10 @@ def load_files(path, extensions=None, filters=None, read=False):
     # and has length more then X symbols, os.path will choke with "path too long"
     # error, hence the safe-assumption that no os path exists longer then 5000 symbols
 
+    # check if file object given, read its content if so
+    if hasattr(path, "read"):
+        return [("text_data", path.read())]
+
     # check if structured, non text, data given, return it as is if so
     # to process within input macro/function
     if not isinstance(path, str):
@@ -69,7 +74,9 @@ def load_files(path, extensions=None, filters=None, read=False):
     elif os.path.isdir(path[0:5000]):
         from re import search as re_search
 
-        files = [f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))]
+        files = sorted(
+            f for f in os.listdir(path) if os.path.isfile(os.path.join(path, f))
+        )
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
         for filter in filters:
-- 
2.43.0


From 518b2d206f64fbfa13a477807e1af18c1b099fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 56/97] fix: functions cache, rebuild cache that is not a
 dictionary of this version

---
 ttp/ttp.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 26b952b..9a908a3 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -96,6 +96,12 @@ class CachedModule:
         # do not pickle function, it is imported on first call after unpickling
         return {k: v for k, v in self.__dict__.items() if k != "function"}
 
+    def __setstate__(self, state):
+        # refuse cache that has no reference to parser's _ttp_ dictionary
+        if "_ttp_" not in state:
+            raise ValueError("unsupported cache content")
+        self.__dict__.update(state)
+
 
 def lazy_import_functions():
     """function to collect a list of all files/directories within ttp module,
@@ -108,6 +114,7 @@ def lazy_import_functions():
         "global_vars": {},
         "template_obj": {},
         "vars": {},
+        "__version__": __version__,
     }
     log.info("ttp.lazy_import_functions: starting functions lazy import")
 
@@ -117,26 +124,17 @@ def lazy_import_functions():
     try:
         if os.path.isfile(cache_file):
             with open(cache_file, "rb") as f:
-                _ttp_ = pickle.load(f)
-            # use unpickled _ttp_ dictionary if it of the same python version
+                cached_ttp = pickle.load(f)
+            # use unpickled _ttp_ dictionary if it of the same python version,
+            # rebuild it otherwise
             if (
-                _ttp_["python_major_version"] == version_info.major
-                and _ttp_.get("__version__") == __version__
+                cached_ttp["python_major_version"] == version_info.major
+                and cached_ttp.get("__version__") == __version__
             ):
                 log.info(
                     "ttp.lazy_import_functions: loaded _ttp_ dictionary from ttp_dict_cache.pickle"
                 )
-                return _ttp_
-            # rebuilt _ttp_ dictionary as it is of different version
-            else:
-                _ttp_ = {
-                    "macro": {},
-                    "python_major_version": version_info.major,
-                    "global_vars": {},
-                    "template_obj": {},
-                    "vars": {},
-                    "__version__": __version__,
-                }
+                return cached_ttp
     except Exception as e:
         log.warning(
             "ttp.lazy_import_functions: failed load ttp_dict_cache.pickle, loading functions directly, error '{}'".format(
-- 
2.43.0


From e727f4947c6080c6b26c732d59f7ab0102c04ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:11 +0000
Subject: [PATCH 57/97] fix: vars tag, do not fail when tag with name has no
 loadable content

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9a908a3..de6ae43 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1288,7 +1288,7 @@ class _template_class:
         if vars:
             self.vars.update(vars)
         # check if var has name attribute:
-        if "name" in element.attrib:
+        if vars and "name" in element.attrib:
             path = element.attrib["name"]
             for key in vars.keys():
                 self.vars["_vars_to_results_"].setdefault(path, []).append(key)
-- 
2.43.0


From f9d5d975566f5f9a788574f95be11d5d09e6e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 58/97] fix: csv loader, keep new lines of quoted values

---
 ttp/utils/loaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 579d62e..609bb6e 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -282,7 +282,8 @@ def load_csv(text_data, include=None, **kwargs):
     headers = []
     if include:
         text_data = _get_include_data(text_data, include)
-    for row in reader(iter(text_data.splitlines())):
+    # lines must keep newline, it can be a part of quoted value
+    for row in reader(iter(text_data.splitlines(True))):
         if not row:
             continue
         if not headers:
-- 
2.43.0


From 34024c8e04ab07bfefbae4884627e569926d30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 59/97] fix: input and output tags, accept loaded text that is
 not a dictionary or has keys other than strings

---
 ttp/ttp.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index de6ae43..9ef98a0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1609,6 +1609,8 @@ class _input_class:
                 attribs = self._ttp_["utils"]["load_struct"](element_text, **data)
                 if attribs:
                     self.parameters = attribs
+                # only dictionary can be combined with tag attributes
+                if attribs and isinstance(attribs, dict):
                     self.get_attributes(data=attribs)
 
         def extract_groups(O):
@@ -1690,10 +1692,12 @@ class _input_class:
         }
         # extract attributes from element tag attributes
         for attr_name, attributes in data.items():
-            if attr_name.lower() in options:
-                options[attr_name.lower()](attributes)
-            elif attr_name.lower() in functions:
-                functions[attr_name.lower()](attributes)
+            # loaded structure can have keys other than strings
+            name = attr_name.lower() if hasattr(attr_name, "lower") else attr_name
+            if name in options:
+                options[name](attributes)
+            elif name in functions:
+                functions[name](attributes)
             elif attr_name in self._ttp_["input"]:
                 extract_function(attr_name, attributes)
             else:
@@ -3593,10 +3597,12 @@ class _outputter_class:
         }
         functions = {"functions": extract_functions}
         for attr_name, attributes in data.items():
-            if attr_name.lower() in options:
-                options[attr_name.lower()](attributes)
-            elif attr_name.lower() in functions:
-                functions[attr_name.lower()](attributes)
+            # loaded structure can have keys other than strings
+            name = attr_name.lower() if hasattr(attr_name, "lower") else attr_name
+            if name in options:
+                options[name](attributes)
+            elif name in functions:
+                functions[name](attributes)
             elif attr_name in self._ttp_["output"]:
                 extract_function(attr_name, attributes)
             else:
-- 
2.43.0


From 440719e65532ce36366654fad408494714ede7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 60/97] fix: _headers_ indicator, at least one column is
 mandatory

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9ef98a0..323eaac 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2393,7 +2393,7 @@ class _variable_class:
             # find all headers
             headers = re.findall(r"(\S+\s+|\S+)", self.regex)
             # form columns count
-            columns = len(headers) - 2
+            columns = max(1, len(headers) - 2)
             for attribute in self.attributes:
                 if attribute["name"] == "columns":
                     columns = max(1, int(attribute["args"][0]))
-- 
2.43.0


From 33a8a9eaf97de7e838cd56260a84fe647f4ffd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 61/97] fix: _headers_ indicator, do not drop rows with values
 containing header name

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 323eaac..c744ee9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2431,7 +2431,7 @@ class _variable_class:
             # form sub variables dictionary out of headers
             self.sub_variables = {
                 var.strip(): _variable_class(
-                    "{var} | strip | exclude({var})".format(var=var.strip()),
+                    "{var} | strip | notequal({var})".format(var=var.strip()),
                     line="",
                     _ttp_=self._ttp_,
                     group=self.group,
-- 
2.43.0


From b373c87837dba10c64f5476ee03b750cf7938d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:11 +0000
Subject: [PATCH 62/97] fix: text data, convert CRLF new lines same as for
 files

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c744ee9..0e04aad 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2514,7 +2514,8 @@ class _parser_class:
         self.main_results = main_results
         self.groups_results = []
         if D[0] == "text_data":
-            self.DATATEXT = "\n" + D[1] + "\n\n"
+            # same as for files, convert new lines to "\n"
+            self.DATATEXT = "\n" + D[1].replace("\r\n", "\n") + "\n\n"
             self.DATANAME = "text_data"
         elif D[0] == "structured_data":
             self.DATATEXT = D[1]
-- 
2.43.0


From 110dd46873864e4183e9afa12bc501657f8d5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:18 +0000
Subject: [PATCH 63/97] fix: load_files, file has to match any of the filters

---
 ttp/utils/loaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/utils/loaders.py b/ttp/utils/loaders.py
index 609bb6e..1cd3eb3 100644
--- a/ttp/utils/loaders.py
+++ b/ttp/utils/loaders.py
@@ -79,8 +79,8 @@ def load_files(path, extensions=None, filters=None, read=False):
         )
         if extensions:
             files = [f for f in files if f.split(".")[-1] in extensions]
-        for filter in filters:
-            files = [f for f in files if re_search(filter, f)]
+        if filters:
+            files = [f for f in files if any(re_search(i, f) for i in filters)]
         if read:
             ret = []
             for f in files:
-- 
2.43.0


From f9d2139663470ac7fc1d2d39345d948f43221899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 64/97] fix: cli_tool, give data to all templates

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 0e04aad..32da21b 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3904,7 +3904,7 @@ def cli_tool():
     # add data and templates
     parser_Obj.add_template(template=ttp_template)
     if DATA:
-        parser_Obj.set_input(data=DATA)
+        parser_Obj.set_input(data=DATA, template_name="_all_")
         timing("Data descriptors loaded")
     timing("Template(s) loaded")
 
-- 
2.43.0


From 1e357746b72efe1fdafbf76182520fce015881da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:33 +0000
Subject: [PATCH 65/97] fix: cli_tool, accept valid JSON with single quotes in
 -v values

---
 ttp/ttp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 32da21b..fb0a7ff 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3881,8 +3881,11 @@ def cli_tool():
     if VARS:
         from json import loads
 
-        VARS = VARS.replace("'", '"')
-        ttp_vars = loads(VARS)
+        try:
+            ttp_vars = loads(VARS)
+        except ValueError:
+            # accept single quotes instead of double quotes
+            ttp_vars = loads(VARS.replace("'", '"'))
         if not isinstance(ttp_vars, dict):
             log.error(
                 "cli_tool: Error with -v/--vars argument, value type is '{}', value is '{}', expecting dictionary, exiting...".format(
-- 
2.43.0


From 82cf0cd6e5b5cdd8e6c62c845ac0ae048a622c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 66/97] fix: cli_tool, formatter name is not case sensitive

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index fb0a7ff..54d3d53 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3929,7 +3929,7 @@ def cli_tool():
             )
             OUTPUTTER = "json"
         results = parser_Obj.result(structure=STRUCTURE, templates=OUT_TEMPLATE)
-        print(_ttp_["formatters"][OUTPUTTER](results))
+        print(_ttp_["formatters"][OUTPUTTER.lower()](results))
         timing("{} dumped".format(OUTPUTTER))
     timing("Done")
 
-- 
2.43.0


From 67a58004b5e86fcbee5f1b8e6db3fc3bcf9f1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 67/97] fix: IPV6 and PREFIXV6 patterns, match addresses that
 start with ::

---
 ttp/patterns/get_pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/patterns/get_pattern.py b/ttp/patterns/get_pattern.py
index a5ec8df..dd5f85b 100644
--- a/ttp/patterns/get_pattern.py
+++ b/ttp/patterns/get_pattern.py
@@ -4,8 +4,8 @@ ORPHRASE = r"\S+|(\S+ {1})+?\S+"
 DIGIT = r"\d+"
 IP = r"(?:[0-9]{1,3}\.){3}[0-9]{1,3}"
 PREFIX = r"(?:[0-9]{1,3}\.){3}[0-9]{1,3}/[0-9]{1,2}"
-IPV6 = r"(?:[a-fA-F0-9]{1,4}:|:){1,7}(?:[a-fA-F0-9]{1,4}|:?)"
-PREFIXV6 = r"(?:[a-fA-F0-9]{1,4}:|:){1,7}(?:[a-fA-F0-9]{1,4}|:?)/[0-9]{1,3}"
+IPV6 = r"(?:::|[a-fA-F0-9]{1,4}:|:){1,7}(?:[a-fA-F0-9]{1,4}|:?)"
+PREFIXV6 = r"(?:::|[a-fA-F0-9]{1,4}:|:){1,7}(?:[a-fA-F0-9]{1,4}|:?)/[0-9]{1,3}"
 _line_ = r".+"
 WORD = r"\S+"
 MAC = r"(?:[0-9a-fA-F]{2}(:|\.|\-)){5}([0-9a-fA-F]{2})|(?:[0-9a-fA-F]{4}(:|\.|\-)){2}([0-9a-fA-F]{4})"
-- 
2.43.0


From 38979306cf367241514503a163d50584772eaea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 68/97] fix: output traverse function, values that are not
 dictionaries have no keys in non strict mode

---
 ttp/output/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index 319ed66..d72f1c9 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -16,7 +16,10 @@ def traverse(data, path, strict=True):
         path = [i.strip() for i in path.split(".")]
     if isinstance(data, dict):
         for i in path:
-            result = result[i] if strict else result.get(i, {})
+            if strict:
+                result = result[i]
+            else:
+                result = result.get(i, {}) if isinstance(result, dict) else {}
     elif isinstance(data, list):
         result = [traverse(i, path, strict) for i in data]
     return result
-- 
2.43.0


From ed7ef9eea2617ffb3ca978e4a867948ed43c9a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 69/97] fix: output dict_to_list, return data that is neither
 dictionary nor list as is

---
 ttp/output/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/output/transform.py b/ttp/output/transform.py
index d72f1c9..018844e 100644
--- a/ttp/output/transform.py
+++ b/ttp/output/transform.py
@@ -67,4 +67,7 @@ def dict_to_list(data, key_name="key", path=None, strict=False):
     elif isinstance(traversed_data, list):
         # run recusrsion
         result = [dict_to_list(data=item, key_name=key_name) for item in traversed_data]
+    else:
+        # nothing to transform
+        result = traversed_data
     return result
-- 
2.43.0


From d0a063fa3e79fcf83446869e95d6b46f5eb35c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:18 +0000
Subject: [PATCH 70/97] fix: output tag, empty data loaded from the text is
 still loaded data

---
 ttp/ttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 54d3d53..9e7a3b0 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3507,7 +3507,7 @@ class _outputter_class:
             self.attributes["load"] = "text"
         # run attributes extraction
         attribs = self._ttp_["utils"]["load_struct"](element.text, **self.attributes)
-        self.tag_load = attribs if attribs else element.text
+        self.tag_load = element.text if attribs is None else attribs
         if isinstance(attribs, dict):
             self.attributes.update(attribs)
 
-- 
2.43.0


From 37e763e58269f7c9d34dd5e6673ce02363504fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:26 +0000
Subject: [PATCH 71/97] fix: output validate, do not add info string to the
 results

---
 ttp/output/validate_cerberus.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 9ea1a48..621168e 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -20,7 +20,10 @@ def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
     if info:
         try:
-            formatted, _ = _ttp_["group"]["sformat"](data, string=info, add_field="inf")
+            # use copy to not add inf field to the results
+            formatted, _ = _ttp_["group"]["sformat"](
+                data.copy(), string=info, add_field="inf"
+            )
             ret["info"] = formatted["inf"]
         except:
             ret["info"] = info
-- 
2.43.0


From 344384ca0c24b5f9c8f2108584c64ac00793ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 72/97] fix: output validate, keep list items that are not
 dictionaries

---
 ttp/output/validate_cerberus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 621168e..78a80bd 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -57,6 +57,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     elif isinstance(data, list):
         return [
             _run_validation(i, schema_data, info, errors, result, validator_engine)
-            for i in data
             if isinstance(i, dict)
+            else i
+            for i in data
         ]
-- 
2.43.0


From a5e4ff153dccc4b2809e35836dc16fbf54ff6261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 73/97] fix: output validate_yangson, use modules of the given
 directory only

---
 ttp/output/validate_yangson.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index de85206..546e904 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -98,6 +98,9 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
+    # clear modules data left from other directories
+    modmap.clear()
+    submodmap.clear()
     for infile in os.listdir(ydir):
         if not infile.endswith(".yang"):
             continue
-- 
2.43.0


From 715b27d6791d8b6d7b3c3dd06629a366e056c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:47 +0000
Subject: [PATCH 74/97] fix: output deepdiff, input_after works with var_before
 and template_before

---
 ttp/output/deepdiffer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ttp/output/deepdiffer.py b/ttp/output/deepdiffer.py
index f4459b3..2f6daf1 100644
--- a/ttp/output/deepdiffer.py
+++ b/ttp/output/deepdiffer.py
@@ -41,7 +41,7 @@ def deepdiff_func(
     template_obj = _ttp_["output_object"].template_obj
 
     # get data_before - data to compare with
-    if input_before:
+    if input_before or input_after:
         # get inputs names to results index mapping, e.g.:
         # {'input_after': [3, 4], 'input_before': [0, 1], 'one_more': [2]}
         if template_obj.results_method.lower() == "per_input":
@@ -53,14 +53,13 @@ def deepdiff_func(
                     i + counter for i in range(data_len)
                 ]
                 counter += data_len
-            data_before = [
-                data[index] for index in input_to_results_index[input_before]
-            ]
         elif template_obj.results_method.lower() == "per_template":
             log.error(
                 "ttp.output.deepdiff; Template 'per_template' results method not supported with input_before as a reference to source data"
             )
             return data
+    if input_before:
+        data_before = [data[index] for index in input_to_results_index[input_before]]
     # if template name provided - source data from template results
     elif template_before:
         for template in _ttp_["ttp_object"]._templates:
-- 
2.43.0


From 33b12652d3ba3c5e362b24215c405b1e5d5a60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 75/97] fix: add_vars, values added after template was loaded
 can be getters and replace getters

---
 ttp/ttp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 9e7a3b0..3e2f8a9 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1063,6 +1063,10 @@ class _template_class:
         """Method to update vars with given data"""
         if isinstance(data, dict):
             self.vars.update(data)
+            # new values replace functions and can be functions themselves
+            for var_name in data:
+                self.vars["_var_functions_"].pop(var_name, None)
+            self.get_var_functions()
             [template.add_vars(data) for template in self.templates]
 
     def run_outputs(self):
@@ -1107,7 +1111,8 @@ class _template_class:
             if var_value in self._ttp_["variable"]:
                 self.vars["_var_functions_"][var_name] = var_value
         # remove _var_functions_ from self.vars
-        [self.vars.pop(var_name) for var_name in self.vars["_var_functions_"].keys()]
+        for var_name in self.vars["_var_functions_"]:
+            self.vars.pop(var_name, None)
 
     def update_input(
         self, element=None, data=None, input_name="Default_Input", groups=None
-- 
2.43.0


From e873e100a87f9eb73ba9b269da0c6f368fb46fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 76/97] fix: gethostname, remove BOM from the text before
 searching for prompts

---
 ttp/variable/gethostname.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ttp/variable/gethostname.py b/ttp/variable/gethostname.py
index 1a0e5c8..c80959e 100644
--- a/ttp/variable/gethostname.py
+++ b/ttp/variable/gethostname.py
@@ -31,16 +31,19 @@ def gethostname(data, *args, **kwargs):
         "ÿþ",
         "\ufeff",
     ]  # byte order marks (BOM) to strip from beginning
-    # of the hostname, some text files can have them
+    # of the data, some text files can have them
+    # strip BOM before searching, data starts with new line
+    text = data.lstrip("\n")
+    for i in UTF_BOM:
+        if text.startswith(i):
+            data = "\n" + text[len(i) :]
+            break
     for item in REs:
         name, regex = list(item.items())[0]
         match_iter = finditer(regex, data)
         try:
             match = next(match_iter)
-            hostname_match = match.group(1)
-            for i in UTF_BOM:
-                hostname_match = hostname_match.lstrip(i)
-            return hostname_match
+            return match.group(1)
         except StopIteration:
             continue
     log.error(
-- 
2.43.0


From 960460d9599ab426d52e67655ce732e363dd763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:38 +0000
Subject: [PATCH 77/97] fix: get_timestamp_ms, read the clock once and pad
 milliseconds

---
 ttp/variable/time_funcs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ttp/variable/time_funcs.py b/ttp/variable/time_funcs.py
index dcc1c3f..c947eb9 100644
--- a/ttp/variable/time_funcs.py
+++ b/ttp/variable/time_funcs.py
@@ -12,8 +12,11 @@ def get_date(*args, **kwargs):
 
 
 def get_timestamp_ms(*args, **kwargs):
-    strformat = "%Y-%m-%d %H:%M:%S.{ms}"
-    return time.strftime(strformat).format(ms=str(time.time()).split(".")[-1][:3])
+    import datetime
+
+    # read time once, seconds and milliseconds must be of the same moment
+    now = datetime.datetime.now()
+    return now.strftime("%Y-%m-%d %H:%M:%S.") + "{:03d}".format(now.microsecond // 1000)
 
 
 def get_timestamp(*args, **kwargs):
-- 
2.43.0


From 2cb53d6dc864cf26d10fd4bcf42609936f24aeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 78/97] fix: dns functions use the configured servers, return
 sorted records and survive every failure

---
 ttp/match/dns_lookups.py | 88 +++++++++++++++++++---------------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/ttp/match/dns_lookups.py b/ttp/match/dns_lookups.py
index 544b768..66fba62 100644
--- a/ttp/match/dns_lookups.py
+++ b/ttp/match/dns_lookups.py
@@ -1,59 +1,55 @@
-import dns.resolver as dnspython
+import logging
+
+import dns.exception
+import dns.resolver
 import dns.reversename
 
+log = logging.getLogger(__name__)
+
 _name_map_ = {"dns_forward": "dns", "dns_reverse": "rdns"}
 
-dns_resolver_obj = dnspython.dns.resolver.Resolver()
+
+def _lookup(name, record, timeout, servers):
+    """Returns list of records or None if lookup fails for whatever reason"""
+    if isinstance(servers, str):
+        servers = [i.strip() for i in servers.split(",") if i.strip()]
+    try:
+        # use new resolver for each lookup, as servers of one lookup must not be
+        # used by the others
+        resolver = dns.resolver.Resolver(configure=not servers)
+        if servers:
+            resolver.nameservers = servers
+        resolver.timeout = timeout
+        resolver.lifetime = timeout * len(resolver.nameservers)
+        return [i.to_text() for i in resolver.query(name, record)]
+    except (dns.exception.DNSException, OSError, ValueError) as e:
+        log.debug("dns lookup of '{}' failed: {}".format(name, e))
+        return None
 
 
 def dns_forward(data, record="A", timeout=1, servers=None, add_field=False):
-    """Performs forward dns lookup using dns_resolver_obj global object"""
-    servers = servers or []
-    dns_resolver_obj.timeout = timeout
-    if servers:
-        if isinstance(servers, str):
-            servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = sorted(servers)
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
-    try:
-        dns_records = [i.to_text() for i in dns_resolver_obj.query(data, record)]
-        if add_field and isinstance(add_field, str):
-            return data, {"new_field": {add_field: dns_records}}
-        else:
-            return dns_records, None
-    except dnspython.dns.resolver.NXDOMAIN:
-        pass
-    except dnspython.dns.resolver.NoAnswer:
-        pass
-    except dnspython.dns.exception.Timeout:
-        # re-initialize dns_resolver object, as it will fail to resolve names for
-        # whatever reason after it timeouts
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
-    return data, None
+    """Performs forward dns lookup, returns sorted list of records"""
+    dns_records = _lookup(data, record, timeout, servers)
+    if dns_records is None:
+        return data, None
+    dns_records = sorted(dns_records)
+    if add_field and isinstance(add_field, str):
+        return data, {"new_field": {add_field: dns_records}}
+    return dns_records, None
 
 
 def dns_reverse(data, timeout=1, servers=None, add_field=False):
-    """Performs reverse dns lookup using global dns_resolver_obj
+    """Performs reverse dns lookup
     data - ip address string, e.g. 192.168.0.1
     """
-    servers = servers or []
-    dns_resolver_obj.timeout = timeout
-    if servers:
-        if isinstance(servers, str):
-            servers = [i.strip() for i in servers.split(",")]
-        dns_resolver_obj.nameservers = servers
-    dns_resolver_obj.lifetime = timeout * len(dns_resolver_obj.nameservers)
-    rev_name = dns.reversename.from_address(data)
     try:
-        reverse_record = str(dns_resolver_obj.query(rev_name, "PTR")[0]).rstrip(".")
-        if add_field and isinstance(add_field, str):
-            return data, {"new_field": {add_field: reverse_record}}
-        else:
-            return reverse_record, None
-    except dnspython.dns.resolver.NXDOMAIN:
-        pass
-    except dnspython.dns.resolver.NoAnswer:
-        pass
-    except dnspython.dns.exception.Timeout:
-        globals()["dns_resolver_obj"] = dnspython.dns.resolver.Resolver()
-    return data, None
+        rev_name = dns.reversename.from_address(data)
+    except (dns.exception.DNSException, ValueError):
+        return data, None
+    dns_records = _lookup(rev_name, "PTR", timeout, servers)
+    if not dns_records:
+        return data, None
+    reverse_record = dns_records[0].rstrip(".")
+    if add_field and isinstance(add_field, str):
+        return data, {"new_field": {add_field: reverse_record}}
+    return reverse_record, None
-- 
2.43.0


From b5fb4a0ec648cbe49e96b662bd67a0f5484c1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 79/97] fix: file returner fails without filename for outputs
 that have no name

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 335598e..80f4f67 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -26,7 +26,7 @@ def file_returner(D, **kwargs):
     else:
         filename = "output_{}.txt".format(ctime)
     # if no filename provided, add outputter name to filename
-    if not kwargs.get("filename", False):
+    if not kwargs.get("filename", False) and _ttp_["output_object"].name:
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-- 
2.43.0


From bda6d54469bcb6bf9026c758de891771296571ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 80/97] fix: file returner creates nested folders

---
 ttp/returners/file_returner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index 80f4f67..e2cf5af 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -30,7 +30,7 @@ def file_returner(D, **kwargs):
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.mkdir(url)
+        os.makedirs(url)
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From 100548500064e834e9893caf8f952ba847c20c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:48 +0000
Subject: [PATCH 81/97] fix: syslog returner isolates concurrent calls, accepts
 tag attributes and survives unknown servers

---
 ttp/returners/syslog_returner.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/ttp/returners/syslog_returner.py b/ttp/returners/syslog_returner.py
index a2458ea..c08fba6 100644
--- a/ttp/returners/syslog_returner.py
+++ b/ttp/returners/syslog_returner.py
@@ -20,17 +20,28 @@ def syslog(data, **kwargs):
     facility = kwargs.get("facility", 77)
     path = kwargs.get("path", [])
     iterate = kwargs.get("iterate", True)
-    interval = kwargs.get("interval", 1) / 1000
+    interval = float(kwargs.get("interval", 1)) / 1000
+    # tag attributes are strings
+    if isinstance(facility, str) and facility.strip().isdigit():
+        facility = int(facility)
+    if isinstance(iterate, str):
+        iterate = iterate.strip().lower() != "false"
     # normalize source_data to list:
     source_data = data if isinstance(data, list) else [data]
-    # initiate isolated logger
-    syslog_logger = logging.getLogger("_Custom_Syslog_Logger_")
-    syslog_logger.propagate = False
-    syslog_logger.setLevel(logging.INFO)
+    # initiate isolated logger, not shared with other calls of this function
+    syslog_logger = logging.Logger("_Custom_Syslog_Logger_", logging.INFO)
     for server in servers:
-        handler = logging.handlers.SysLogHandler(
-            address=(server, port), facility=facility
-        )
+        try:
+            handler = logging.handlers.SysLogHandler(
+                address=(server, port), facility=facility
+            )
+        except OSError as e:
+            log.error(
+                "TTP:syslog returner, failed connect to server '{}': {}".format(
+                    server, e
+                )
+            )
+            continue
         handler.append_nul = False
         syslog_logger.addHandler(handler)
         # send data
-- 
2.43.0


From 2476fb0bf354e36fa99c56b7226f52e2efb7ac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 82/97] fix: terminal returner colours data of any type and
 does not corrupt colour codes

---
 ttp/returners/terminal_returner.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ttp/returners/terminal_returner.py b/ttp/returners/terminal_returner.py
index 49f1dbe..32a6a2f 100644
--- a/ttp/returners/terminal_returner.py
+++ b/ttp/returners/terminal_returner.py
@@ -1,3 +1,5 @@
+import re
+
 _name_map_ = {"terminal_returner": "terminal"}
 
 
@@ -25,13 +27,19 @@ def terminal_returner(data, **kwargs):
         red_words = [i.strip() for i in red_words.split(",")]
         green_words = [i.strip() for i in green_words.split(",")]
         yellow_words = [i.strip() for i in yellow_words.split(",")]
-        # add colouring to output
-        for red_word in red_words:
-            data = data.replace(red_word, fttr.format(R, red_word, N))
-        for green_word in green_words:
-            data = data.replace(green_word, fttr.format(G, green_word, N))
-        for yeallow_word in yellow_words:
-            data = data.replace(yeallow_word, fttr.format(Y, yeallow_word, N))
+        # add colouring to output in one go, for colour codes not to be searched for words
+        colours = {}
+        for colour, words in ((R, red_words), (G, green_words), (Y, yellow_words)):
+            colours.update({word: colour for word in words if word})
+        if not isinstance(data, str):
+            data = str(data).replace("\\n", "\n")
+        if colours:
+            words = sorted(colours, key=len, reverse=True)
+            data = re.sub(
+                "|".join(re.escape(word) for word in words),
+                lambda m: fttr.format(colours[m.group()], m.group(), N),
+                data,
+            )
     # print output
     if _ttp_["python_major_version"] is 2:
         if isinstance(data, str) or isinstance(
-- 
2.43.0


From 2086913224ef5332e7825abe8b11b96d6680a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:49 +0000
Subject: [PATCH 83/97] fix: joinmatches uses separator of each variable

---
 ttp/ttp.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 3e2f8a9..5789392 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3350,15 +3350,16 @@ class _results_class:
                 for k in result.keys():
                     if k in matched:
                         self.record["result"].setdefault(k, copy.copy(matched[k]))
-            # retrieve joinchar to use
+            # retrieve joinchar to use for each variable
             joinchar = "\n"
-            for varname, varvalue in result.items():
-                # check if need to skip vars that were added to results on the go
-                if not varname in REDICT["VARIABLES"]:
-                    continue
-                for item in REDICT["VARIABLES"][varname].functions:
+            joinchars = {}
+            for variable in REDICT["VARIABLES"].values():
+                # results keys are original names of variables
+                varname = variable.var_name_original
+                for item in variable.functions:
                     if item["name"] == "joinmatches":
-                        joinchar = item["args"][0] if item["args"] else joinchar
+                        joinchar = item["args"][0] if item["args"] else "\n"
+                        joinchars[varname] = joinchar
                         break
             # join results:
             for k in result.keys():
@@ -3366,7 +3367,10 @@ class _results_class:
                     if isinstance(self.record["result"][k], str) and isinstance(
                         result[k], str
                     ):
-                        self.record["result"][k] += joinchar + result[k]  # join strings
+                        # join strings
+                        self.record["result"][k] += (
+                            joinchars.get(k, joinchar) + result[k]
+                        )
                     elif isinstance(self.record["result"][k], list):
                         if isinstance(result[k], list):
                             self.record["result"][k] += result[k]  # join lists
-- 
2.43.0


From 45e6d7b94c4ba5903908e0067cf36a8c2c3bd725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:25 +0000
Subject: [PATCH 84/97] fix: extract_commands treats hostname and commands as
 text and finds prompts at line start

---
 ttp/input/commands.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ttp/input/commands.py b/ttp/input/commands.py
index 3ec0c85..c167798 100644
--- a/ttp/input/commands.py
+++ b/ttp/input/commands.py
@@ -1,4 +1,4 @@
-from re import search
+from re import escape, search
 
 
 def extract_commands(data, *commands):
@@ -6,9 +6,12 @@ def extract_commands(data, *commands):
     ret = ""
     hostname = _ttp_["variable"]["gethostname"](data, "input find_command function")
     if hostname:
+        # device prompt always starts the line and can have something like
+        # "RP/0/0/CPU0:", "user@" or "<" in front of the hostname
+        prompt = r"^(?:\S*[@:<])?{} ?[#>]".format(escape(hostname))
         for command in commands:
-            regex = r"{}[#>] *{} *\n([\S\s]+?)(?={}[#>]|$)".format(
-                hostname, command, hostname
+            regex = r"(?m){} *{} *\n[\S\s]*?(?={}|\Z)".format(
+                prompt, escape(command), prompt
             )
             match = search(regex, data)
             if match:
-- 
2.43.0


From 78542516364c56e90b48f9403367a3804ad5d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:19 +0000
Subject: [PATCH 85/97] fix: handle empty tags and group tags with no white
 space after them

---
 ttp/ttp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 5789392..c8a4eef 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -1252,6 +1252,9 @@ class _template_class:
         log.warning("template.parse: invalid tag '{}'".format(C.tag))
 
     def parse_macro(self, element):
+        # skip empty tag
+        if element.text is None:
+            return
         funcs = {}
         # extract macro with all the __builtins__ provided
         try:
@@ -1269,7 +1272,7 @@ class _template_class:
             )
 
     def parse_doc(self, element):
-        self.__doc__ += element.text + "\n"
+        self.__doc__ += (element.text or "") + "\n"
 
     def parse_template(self, element, template_index):
         # skip child templates that are not in requested children list
@@ -1943,7 +1946,7 @@ class _group_class:
         varaibles_matches = []  # list of dictionaries
         regexes = []
 
-        for line in data.splitlines():
+        for line in (data or "").splitlines():
             # skip empty lines and comments:
             if not line.strip():
                 continue
@@ -2054,7 +2057,7 @@ class _group_class:
                 )
             )
             # get regexes from tail
-            if group.tail.strip():
+            if (group.tail or "").strip():
                 self.get_regexes(data=group.tail, tail=True)
 
     def set_runs(self):
-- 
2.43.0


From 849c6cc1bfbe29efd7b136f4a277be7fd92d4d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:48 +0000
Subject: [PATCH 86/97] fix: place defaults of groups without matches after
 matches in texts above 10 million characters

---
 ttp/ttp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index c8a4eef..a5d064a 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2706,7 +2706,8 @@ class _parser_class:
             if not group_start_found:
                 # handle group with no matches but with start re default values
                 if group.has_start_re_default:
-                    key = 10000000
+                    # place it after all the matches, their keys are text offsets
+                    key = len(self.DATATEXT)
                     # group.start_re == [] only for tag with no regexes
                     start_re = (
                         {"ACTION": "start", "VARIABLES": group.runs, "GROUP": group}
-- 
2.43.0


From abb14b6ed82776516fb48e109e4e292207628665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:54 +0000
Subject: [PATCH 87/97] fix: use names of patterns only to look up patterns

---
 ttp/patterns/get_pattern.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ttp/patterns/get_pattern.py b/ttp/patterns/get_pattern.py
index dd5f85b..8ab71ad 100644
--- a/ttp/patterns/get_pattern.py
+++ b/ttp/patterns/get_pattern.py
@@ -12,8 +12,8 @@ MAC = r"(?:[0-9a-fA-F]{2}(:|\.|\-)){5}([0-9a-fA-F]{2})|(?:[0-9a-fA-F]{4}(:|\.|\-
 
 
 def get(name):
-    try:
-        re = globals()[name]
-        return re
-    except KeyError:
-        return False
+    # module has names other than patterns as well, e.g. "get" or "__name__"
+    pattern = globals().get(name)
+    if isinstance(pattern, str) and not name.startswith("__"):
+        return pattern
+    return False
-- 
2.43.0


From 42d6956824ea271a46ea0f186993e1c696279f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 88/97] fix: use documented node_dups and link_dups arguments
 of n2g formatter

---
 ttp/formatters/n2g_formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttp/formatters/n2g_formatter.py b/ttp/formatters/n2g_formatter.py
index d22e2fd..97b48b7 100644
--- a/ttp/formatters/n2g_formatter.py
+++ b/ttp/formatters/n2g_formatter.py
@@ -8,8 +8,8 @@ def n2g(data, **kwargs):
     module = kwargs.get("module", "yed")
     method = kwargs.get("method", "from_list")
     path = kwargs.get("path", [])
-    node_dups = kwargs.get("node_duplicates", "skip")
-    link_dups = kwargs.get("link_duplicates", "skip")
+    node_dups = kwargs.get("node_dups", kwargs.get("node_duplicates", "skip"))
+    link_dups = kwargs.get("link_dups", kwargs.get("link_duplicates", "skip"))
     method_kwargs = kwargs.get("method_kwargs", {})
     algo = kwargs.get("algo", None)
     # import N2G library
-- 
2.43.0


From 5c623748526cfc6ddc56ff1b6443c974b5039000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:24 +0000
Subject: [PATCH 89/97] fix: do not change parsed results while forming n2g
 diagram

---
 ttp/formatters/n2g_formatter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttp/formatters/n2g_formatter.py b/ttp/formatters/n2g_formatter.py
index 97b48b7..a952aad 100644
--- a/ttp/formatters/n2g_formatter.py
+++ b/ttp/formatters/n2g_formatter.py
@@ -1,4 +1,5 @@
 import logging
+from copy import deepcopy
 
 log = logging.getLogger(__name__)
 
@@ -35,7 +36,8 @@ def n2g(data, **kwargs):
     # make graph
     for result in data:
         result_datum = _ttp_["output"]["traverse"](result, path)
-        getattr(diagram_obj, method)(result_datum, **method_kwargs)
+        # use copy, N2G modifies the data given to it
+        getattr(diagram_obj, method)(deepcopy(result_datum), **method_kwargs)
     # layout graph
     if algo:
         diagram_obj.layout(algo=algo)
-- 
2.43.0


From a350e33f2d5915b9ae4a4fe21b031fc4dae42771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:39 +0000
Subject: [PATCH 90/97] fix: validate results with validator of their own, not
 one shared by all parsers

---
 ttp/group/validate_cerberus.py  | 5 ++---
 ttp/output/validate_cerberus.py | 4 +---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/ttp/group/validate_cerberus.py b/ttp/group/validate_cerberus.py
index 1890ecb..c8955d6 100644
--- a/ttp/group/validate_cerberus.py
+++ b/ttp/group/validate_cerberus.py
@@ -12,9 +12,6 @@ except ImportError:
     )
     HAS_LIBS = False
 
-if HAS_LIBS:
-    validator_engine = Validator()
-
 _name_map_ = {"cerberus_validate": "cerberus"}
 
 
@@ -30,6 +27,7 @@ def cerberus_validate(
         log.error("ttp.validate, schema '{}' not found".format(schema))
         return data, None
     # run validation
+    validator_engine = Validator()
     validator_engine.allow_unknown = allow_unknown
     ret = validator_engine.validate(document=data, schema=schema_data)
     if ret == False:
@@ -69,6 +67,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
         log.error("ttp.validate, schema '{}' not found".format(schema))
         return data, None
     # run validation
+    validator_engine = Validator()
     validator_engine.allow_unknown = allow_unknown
     ret = validator_engine.validate(document=data, schema=schema_data)
     # form results
diff --git a/ttp/output/validate_cerberus.py b/ttp/output/validate_cerberus.py
index 78a80bd..96171d7 100644
--- a/ttp/output/validate_cerberus.py
+++ b/ttp/output/validate_cerberus.py
@@ -12,9 +12,6 @@ except ImportError:
     )
     HAS_LIBS = False
 
-if HAS_LIBS:
-    validator_engine = Validator()
-
 
 def _run_validation(data, schema_data, info, errors, result, validator_engine):
     ret = {result: validator_engine.validate(document=data, schema=schema_data)}
@@ -48,6 +45,7 @@ def validate(data, schema, result="valid", info="", errors="", allow_unknown=Tru
     if not schema_data:
         log.error("ttp.output.validate, schema '{}' not found".format(schema))
         return data
+    validator_engine = Validator()
     validator_engine.allow_unknown = allow_unknown
     # run validation
     if isinstance(data, dict):
-- 
2.43.0


From 2ed50ded0e74350e9949b8f2c058a3e8640dd049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:46 +0000
Subject: [PATCH 91/97] fix: keep YANG modules data per validate_yangson call

---
 ttp/output/validate_yangson.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index 546e904..aa0d737 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -47,17 +47,13 @@ data_kws = [
 ]
 """Keywords of statements that contribute nodes to the schema tree."""
 
-modmap = {}
-"""Dictionary for collecting module data."""
 
-submodmap = {}
-"""Dictionary for collecting submodule data."""
-
-
-def _module_entry(yfile):
+def _module_entry(yfile, modmap, submodmap):
     """Add entry for one file containing YANG module text.
     Args:
         yfile (file): File containing a YANG module or submodule.
+        modmap (dict): Dictionary for collecting module data.
+        submodmap (dict): Dictionary for collecting submodule data.
     """
     ytxt = yfile.read()
     mp = ModuleParser(ytxt)
@@ -98,16 +94,16 @@ def _make_library(ydir):
     Args:
         ydir (str): Name of the directory with YANG (sub)modules.
     """
-    # clear modules data left from other directories
-    modmap.clear()
-    submodmap.clear()
+    # modules data of this directory only
+    modmap = {}
+    submodmap = {}
     for infile in os.listdir(ydir):
         if not infile.endswith(".yang"):
             continue
         with open(
             "{ydir}/{infile}".format(ydir=ydir, infile=infile), "r", encoding="utf-8"
         ) as yf:
-            _module_entry(yf)
+            _module_entry(yf, modmap, submodmap)
     marr = []
     for yam, mrev in modmap:
         men = {"name": yam, "revision": mrev}
-- 
2.43.0


From a077e74ede94c45b945a745cc862224367f53e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:53 +0000
Subject: [PATCH 92/97] fix: YANG module with data nodes is implemented
 whatever its submodules have

---
 ttp/output/validate_yangson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttp/output/validate_yangson.py b/ttp/output/validate_yangson.py
index aa0d737..f034941 100644
--- a/ttp/output/validate_yangson.py
+++ b/ttp/output/validate_yangson.py
@@ -124,7 +124,7 @@ def _make_library(ydir):
             else:
                 print("Submodule {} revision mismatch.".format(subm))
                 return 1
-            imp_only = imp_only or srec["import-only"]
+            imp_only = imp_only and srec["import-only"]
             fts += srec["features"]
             sarr.append(sen)
         if fts:
-- 
2.43.0


From d7d69af2bdd20c9a97deb98736c40e3a86c9e84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:04 +0000
Subject: [PATCH 93/97] fix: process group records once they are complete, not
 before their nested groups

---
 ttp/ttp.py | 194 +++++++++++++++++------------------------------------
 1 file changed, 62 insertions(+), 132 deletions(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index a5d064a..8541fd2 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2852,8 +2852,9 @@ class _results_class:
             "DEFAULTS": {},
             "GRP_ID": None,
         }
+        self.records = []  # records in order of their start
+        self.last_records = {}  # last record of each group
         self.dyn_path_cache = {}
-        self.matched_values = {}  # matched values of the last record of each group
         self.empty_records = []  # records saved without values - (list, record) tuples
         self._ttp_["results_object"] = self
 
@@ -3009,11 +3010,19 @@ class _results_class:
                     FUNCTIONS=group.funcs,
                     REDICT=re_,
                 )
-        # check the last group:
-        if self.processgrp() is not False:
-            self.save_curelements(
-                result_data=self.record["result"], result_path=self.record["PATH"]
-            )
+        # all matches collected, process records and save them
+        tails = []
+        for self.record in self.records:
+            if self.processgrp() is not False:
+                element = self.save_curelements(
+                    result_data=self.record["result"], result_path=self.record["PATH"]
+                )
+                tails.append((element, self.record["TAIL"]))
+        # keep values that followed child groups after the results of the latter
+        for element, names in tails:
+            for name in names:
+                if isinstance(element, dict) and name in element:
+                    element[name] = element.pop(name)
         # remove records that remained empty
         for records, record in self.empty_records:
             if not record:
@@ -3174,40 +3183,25 @@ class _results_class:
                 PATH, ELEMENT[-1]
             )  # run recursion with last item in the list
 
-    def _merge_recursively(self, element, result_data):
+    def save_curelements(self, result_data, result_path):
         """
-        Function to recursively merge result_data dictionary into element dictionary
-
-        :param element: (dict) current results element dictionary
-        :param result_data: (dict) new results data to merge into existing one
+        Method to save current group results in self.results, returns the
+        element of results they are in
         """
-        for nk, nd in result_data.items():
-            # check if need to run recursion
-            if element.get(nk) and isinstance(nd, dict):
-                self._merge_recursively(element[nk], nd)
-            # nd is not a dict, simply save it in existing results
-            else:
-                element[nk] = nd
-
-    def save_curelements(self, result_data, result_path):
-        """Method to save current group results in self.results"""
         # get ELEMENT from self.results by result_path
         E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
         if isinstance(E, list):
-            if self.record.get("merge_with_last"):
-                self._merge_recursively(E[-1], result_data)
-            elif result_data or not isinstance(result_data, dict):
+            if result_data or not isinstance(result_data, dict):
                 E.append(result_data)
             else:
                 # record without values of its own, results of child groups might
                 # follow and should not end up in the previous record
                 E.append({})
                 self.empty_records.append((E, E[-1]))
+            return E[-1]
         elif isinstance(E, dict):
-            if self.record.get("merge_with_last"):
-                self._merge_recursively(E, result_data)
             # check if result_path endswith "**" - update result's ELEMENET without converting it into list:
-            elif result_path[-1][1] == "**":
+            if result_path[-1][1] == "**":
                 result_data.update(E)
                 E.update(result_data)
             # to match all the other cases, like templates without "**" in path:
@@ -3216,28 +3210,13 @@ class _results_class:
                 self.results = self.value_to_list(
                     DATA=self.results, PATH=result_path, result=result_data
                 )
+                return result_data
             else:
                 E.update(result_data)
+            return E
 
-    def reconstruct_last_element(self, result_data, result_path):
-        """
-        Method to retrieve last element value, make a copy of it and nerge with
-        current results. This is to reconstruct group results for processing in
-        a case where we have tail matches.
-        """
-        # get ELEMENT from self.results by result_path
-        E = self.dict_by_path(PATH=result_path, ELEMENT=self.results)
-        if isinstance(E, list):
-            copied = E[-1].copy()
-        elif isinstance(E, dict):
-            copied = E.copy()
-        copied.update(result_data)
-        return copied
-
-    def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
-        DEFAULTS = DEFAULTS or {}
-        FUNCTIONS = FUNCTIONS or []
-        # perform group path tracing
+    def trace_groups(self, REDICT):
+        """Method to perform groups path tracing, updates started groups"""
         while self.started_groups:
             # check if child group started
             if REDICT["GROUP"].parent_group_id == self.started_groups[-1]:
@@ -3254,106 +3233,65 @@ class _results_class:
             if REDICT["GROUP"].group_id not in self.started_groups:
                 self.started_groups.append(REDICT["GROUP"].group_id)
 
-        # process recorded group results and save them
-        if self.processgrp() != False:
-            self.save_curelements(
-                result_data=self.record["result"], result_path=self.record["PATH"]
-            )
+    def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
+        DEFAULTS = DEFAULTS or {}
+        FUNCTIONS = FUNCTIONS or []
+        self.trace_groups(REDICT)
         self.record = {
             "result": result,
             "DEFAULTS": DEFAULTS.copy(),
             "PATH": PATH,
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
+            "TAIL": [],  # names of values matched after child groups
         }
+        self.records.append(self.record)
+        self.last_records[self.record["GRP_ID"]] = self.record
 
     def startempty(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
-        # perform group path tracing
-        while self.started_groups:
-            # check if child group started
-            if REDICT["GROUP"].parent_group_id == self.started_groups[-1]:
-                self.started_groups.append(REDICT["GROUP"].group_id)
-                break
-            # check if _line_ group started, don't remove previous started
-            # groups to allow collection of non matched lines - #94
-            if REDICT.get("IS_LINE"):
-                self.started_groups.append(REDICT["GROUP"].group_id)
-                break
-            _ = self.started_groups.pop()
-        # meaning top group started
-        else:
-            if REDICT["GROUP"].group_id not in self.started_groups:
-                self.started_groups.append(REDICT["GROUP"].group_id)
-
-        # process recorded group results and save them
-        if self.processgrp() != False:
-            self.save_curelements(
-                result_data=self.record["result"], result_path=self.record["PATH"]
-            )
+        self.trace_groups(REDICT)
         self.record = {
             "result": {},
             "DEFAULTS": DEFAULTS.copy(),
             "PATH": PATH,
             "FUNCTIONS": FUNCTIONS,
             "GRP_ID": REDICT["GROUP"].group_id,
+            "TAIL": [],  # names of values matched after child groups
         }
+        self.records.append(self.record)
+        self.last_records[self.record["GRP_ID"]] = self.record
+
+    def resume(self, REDICT):
+        """
+        Method to continue the last record of the group already started if
+        match belongs to it and not to the group of the current record, that
+        can happen if matches of the group follow results of its child groups
+        """
+        group_id = REDICT["GROUP"].group_id
+        if group_id in self.started_groups and group_id in self.last_records:
+            self.trace_groups(REDICT)
+            self.record = self.last_records[group_id]
+            self.record["RESUMED"] = True
 
     def add(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
-        DEFAULTS = DEFAULTS or {}
-        FUNCTIONS = FUNCTIONS or []
+        if self.record["PATH"] != PATH:
+            self.resume(REDICT)
         if self.record["PATH"] == PATH:  # if same path - save into self.record
             # update without overriding already existing values:
+            if self.record.get("RESUMED"):
+                self.record["TAIL"][:0] = [
+                    name for name in result if name not in self.record["result"]
+                ]
             result.update(self.record["result"])
             self.record["result"] = result
-        # if different path - that can happen if we have group ended and result
-        # actually belongs to another already started group, hence need to save
-        # directly into results
-        elif REDICT["GROUP"].group_id in self.started_groups:
-            # save current results to results structure and start new record
-            self.start(
-                result=result,
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record, DEFAULTS added by previous group
-            self.record["DEFAULTS"] = {}
 
     def join(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
-        DEFAULTS = DEFAULTS or {}
-        FUNCTIONS = FUNCTIONS or []
-        # if different path - that can happen if we have group ended and result
-        # actually belongs to another already started group, hence need to save
-        # directly into results
-        if (
-            self.record["PATH"] != PATH
-            and REDICT["GROUP"].group_id in self.started_groups
-        ):
-            # save current results to results structure and start new record by calling self.start
-            self.start(
-                result={},
-                PATH=PATH,
-                DEFAULTS=DEFAULTS,
-                FUNCTIONS=FUNCTIONS,
-                REDICT=REDICT,
-            )
-            # mark new record as needed to be merged with last item in results
-            self.record["merge_with_last"] = True
-            # no need to add DEFAULTS for this record as DEFAULTS processed already by previous group record
-            self.record["DEFAULTS"] = {}
+        if self.record["PATH"] != PATH:
+            self.resume(REDICT)
         # if same path - save into self.record
         if self.record["PATH"] == PATH:
-            # record continues after child groups, need values it already has
-            if self.record.get("merge_with_last"):
-                matched = self.matched_values.get(self.record["GRP_ID"], {})
-                for k in result.keys():
-                    if k in matched:
-                        self.record["result"].setdefault(k, copy.copy(matched[k]))
             # retrieve joinchar to use for each variable
             joinchar = "\n"
             joinchars = {}
@@ -3386,6 +3324,8 @@ class _results_class:
                         self.record["result"][k] = [self.record["result"][k], result[k]]
                 else:
                     self.record["result"][k] = result[k]  # if first result
+                    if self.record.get("RESUMED"):
+                        self.record["TAIL"].append(k)
 
     def end(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
@@ -3449,25 +3389,15 @@ class _results_class:
 
     def processgrp(self):
         """Method to process group results"""
-        # keep matched values in case if more of them need to be joined later on
-        if not self.record.get("merge_with_last"):
-            self.matched_values[self.record["GRP_ID"]] = {}
-        self.matched_values.setdefault(self.record["GRP_ID"], {}).update(
-            self.record["result"]
-        )
         # add default values to group results
         for k, v in self.record["DEFAULTS"].items():
             # copy default value as it can be a structure changed later on
             if k not in self.record["result"]:
                 self.record["result"][k] = copy.deepcopy(v)
-        # if merge_with_last - tail match, attempt to reconstruct group result
-        # this only will work if self.record["result"] contains enough info to form PATH
-        if self.record.get("merge_with_last") is True:
-            processed_path = self.form_path(list(self.record["PATH"]))
-            if processed_path:
-                self.record["result"] = self.reconstruct_last_element(
-                    self.record["result"], processed_path
-                )
+            # matched after child groups, keep the place of the default value
+            elif k in self.record["TAIL"]:
+                self.record["TAIL"].remove(k)
+                self.record["result"][k] = self.record["result"].pop(k)
         # process group functions
         for item in self.record["FUNCTIONS"]:
             func_name = item["name"]
-- 
2.43.0


From 5f6c4842264a5fca22f5ba339fad7e7af4dfdb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:11 +0000
Subject: [PATCH 94/97] fix: file returner: folder created by another process
 in the meantime

---
 ttp/returners/file_returner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttp/returners/file_returner.py b/ttp/returners/file_returner.py
index e2cf5af..3d64389 100644
--- a/ttp/returners/file_returner.py
+++ b/ttp/returners/file_returner.py
@@ -30,7 +30,12 @@ def file_returner(D, **kwargs):
         filename = _ttp_["output_object"].name + "_" + filename
     # check if path exists already, create it if not:
     if not os.path.exists(url):
-        os.makedirs(url)
+        try:
+            os.makedirs(url)
+        except OSError:
+            # path can be created by another process or thread in the meantime
+            if not os.path.isdir(url):
+                raise
     # form file path:
     file_path = os.path.join(url, filename)
     # save excel workbook to file:
-- 
2.43.0


From 617bcab4ead8a3f80c396b3431f54c4caa72dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:18 +0000
Subject: [PATCH 95/97] fix: parse: do not choose multiple processes for
 per_template results

---
 ttp/ttp.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index 8541fd2..f52f430 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -472,7 +472,15 @@ class ttp:
             self.__parse_in_one_process()
         elif multi is True:
             self.__parse_in_multiprocess()
-        elif self.__data_size > self.multiproc_threshold and self.__datums_count >= 2:
+        elif (
+            self.__data_size > self.multiproc_threshold
+            and self.__datums_count >= 2
+            # per_template results mode is not supported with multiple processes
+            and all(
+                template.results_method.lower() == "per_input"
+                for template in self._templates
+            )
+        ):
             self.__parse_in_multiprocess()
         else:
             self.__parse_in_one_process()
-- 
2.43.0


From 3aedec4b791f95d87051b70339d8fd1ac044e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:58 +0000
Subject: [PATCH 96/97] fix: dictionary returned by a match function is merged
 with results

add_function documents the second item of a match function as a dictionary
merged with results, but it was dropped unless wrapped in new_field; the
function's own new_field dictionary was changed by functions after it.
---
 ttp/ttp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index f52f430..ff617c8 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -2662,6 +2662,9 @@ class _parser_class:
                             )
                             break
                         elif isinstance(flag, dict):
+                            # dictionary to merge with results can be given on its own,
+                            # it belongs to the function and should not be changed
+                            flag = {"new_field": dict(flag.get("new_field", flag))}
                             # update new_field data preserving previously got new_field
                             if "new_field" in flags and "new_field" in flag:
                                 flags["new_field"].update(flag["new_field"])
-- 
2.43.0


From 4d5c1ee0c36e40d43ad95ff9b70c11cc21ea3a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:50 +0000
Subject: [PATCH 97/97] fix: start of _line_ group record ends child groups of
 its previous record

---
 ttp/ttp.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ttp/ttp.py b/ttp/ttp.py
index ff617c8..feab94c 100644
--- a/ttp/ttp.py
+++ b/ttp/ttp.py
@@ -3236,6 +3236,9 @@ class _results_class:
             # check if _line_ group started, don't remove previous started
             # groups to allow collection of non matched lines - #94
             if REDICT.get("IS_LINE"):
+                # new record of the group has none of its child groups started
+                if REDICT["ACTION"].startswith("start"):
+                    self.remove_started_children(REDICT["GROUP"])
                 self.started_groups.append(REDICT["GROUP"].group_id)
                 break
             _ = self.started_groups.pop()
@@ -3244,6 +3247,16 @@ class _results_class:
             if REDICT["GROUP"].group_id not in self.started_groups:
                 self.started_groups.append(REDICT["GROUP"].group_id)
 
+    def remove_started_children(self, group):
+        """Method to remove all child groups of the group from started groups"""
+        for child in group.children:
+            self.started_groups = [
+                group_id
+                for group_id in self.started_groups
+                if group_id != child.group_id
+            ]
+            self.remove_started_children(child)
+
     def start(self, result, PATH, DEFAULTS=None, FUNCTIONS=None, REDICT=""):
         DEFAULTS = DEFAULTS or {}
         FUNCTIONS = FUNCTIONS or []
-- 
2.43.0

