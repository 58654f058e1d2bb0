From 6816cacc868f64991b29ce4502f093f2fbe2026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:43 +0000
Subject: [PATCH 01/45] fix: the root of a script outside every root paradigm
 is a KeyError, not None

create_root_paradigm, add_morpheme_paradigm, delete_morpheme_paradigm and
update_morpheme_paradigm all rely on the KeyError: with None every call to
create_root_paradigm was refused.
---
 ieml/dictionary/table/table_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index e1e7be2..cf8c732 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -26,7 +26,7 @@ class TableStructure:
             return self.table_to_root[self.tables[s]]
         except KeyError as e:
             error("No root defined for the script {}".format(str(s)))
-            return None
+            raise
 
 
     def __iter__(self):
-- 
2.43.0


From ad9f37245b753849cd2a9e8b6cfef0db4e72f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:44 +0000
Subject: [PATCH 02/45] fix: read descriptors and structure back as the strings
 that were written

pandas turned values such as "NA" or "null" into NaN, columns of digits into
numbers, and a structure holding only booleans into booleans, which Dictionary
cannot load.
---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..8409fee 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -203,7 +203,7 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
@@ -214,7 +214,7 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
         r.columns = ['ieml', 'key', 'value']
         return Structure(r)
 
-- 
2.43.0


From 483b4dd1ef69da86f4ecfe553ad4d19c699588c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:12 +0000
Subject: [PATCH 03/45] fix: Structure.get_values no longer raises TypeError

The lookup of a full key gives a Series or a DataFrame; Series.to_dict has no
'list' mode. set_inhibitions and update_morpheme_paradigm always failed.
---
 ieml/ieml_database/ieml_database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 8409fee..fd81cc5 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -55,7 +55,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
-- 
2.43.0


From 279e8db032a1c16293609aadce381a0723e901c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:26 +0000
Subject: [PATCH 04/45] fix: an empty database can be read

get_structure raised EmptyDataError and list(type) FileNotFoundError when no
file of that kind existed yet, so the first root paradigm could not be created.
---
 ieml/ieml_database/ieml_database.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index fd81cc5..0ea9156 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -159,6 +159,10 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
+        if not os.path.isdir(p):
+            # no ieml of this type yet
+            return []
+
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
         p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
@@ -218,8 +222,11 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From 13b10d505fdbfd8489e1903e268a5cddccd17380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 05/45] fix: a failed read of the database is an error, not a
 partial answer

list, get_descriptors and get_structure ignored the exit code of find and cat:
an unreadable file was silently missing from the answer (and from the cached
dictionary computed from it).
---
 ieml/ieml_database/ieml_database.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 0ea9156..43abeaa 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -41,6 +41,15 @@ def _normalize_value(value):
     return value.strip()
 
 
+def _wait_all(*processes):
+    """Wait for the processes of a pipeline, raise if one of them failed (its output is then incomplete)"""
+    for process in processes:
+        process.stdout.close()
+    for process in processes:
+        if process.wait() != 0:
+            raise IOError("{} failed with exit code {}".format(process.args, process.returncode))
+
+
 def _normalize_inhibitions(inhibitions):
     return inhibitions
 
@@ -169,6 +178,7 @@ class IEMLDatabase:
         p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
 
         res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
+        _wait_all(p1, p2, p3, p4)
 
         if parse:
             parser = IEMLParser(dictionary=self.get_dictionary())
@@ -201,6 +211,7 @@ class IEMLDatabase:
     @monitor_decorator("Get descriptors")
     def get_descriptors(self, files_list=None):
         if files_list is not None:
+            files_list = [f for f in files_list if os.path.isfile(os.path.join(self.folder, f))]
             p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(files_list)],
                                   stdout=subprocess.PIPE, cwd=self.folder)
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
@@ -215,6 +226,8 @@ class IEMLDatabase:
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
+        finally:
+            _wait_all(p1, p2)
 
         return Descriptors(r)
 
@@ -227,6 +240,8 @@ class IEMLDatabase:
             r.columns = ['ieml', 'key', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
+        finally:
+            _wait_all(p1, p2)
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From ae4a46ddf7ede56ccb96c89a1cf0c51e7e42db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 06/45] fix: remove_descriptor and remove_structure remove what
 they are asked to

With a value and no language (or no descriptor) every value was removed; a
value was also removed when it only started like '<value>"'; a carriage return
in another value of the same file broke that value in two; is_root=False removed
is_root=True as well.
---
 ieml/ieml_database/ieml_database.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 43abeaa..3f9623c 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -316,21 +316,22 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value, normalize)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value, normalize)
             return
 
         if value:
             value = _normalize_value(value)
 
-        with open(path, "r", encoding='utf8') as f:
+        # newline='\n': a '\r' in a value is not an end of line
+        with open(path, "r", encoding='utf8', newline='\n') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+                                        ('"{}"\n'.format(self.escape_value(value)) if value is not None else ''))]
 
-        with open(path, "w", encoding='utf8') as f:
+        with open(path, "w", encoding='utf8', newline='\n') as f:
             f.writelines(lines)
 
     def add_structure(self, ieml, key, value):
@@ -354,7 +355,7 @@ class IEMLDatabase:
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(str(ieml), key) + \
-                                        ('"{}"'.format(value) if value else ''))]
+                                        ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From 9f3327e57503bcb18773e3bb4b947b5712557951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:04 +0000
Subject: [PATCH 07/45] fix: normalize=False removes the entry stored under the
 given ieml

remove_descriptor and remove_structure normalized the ieml all the same, so the
entry of an unnormalized ieml could never be removed.
---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 3f9623c..6be98ac 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -303,7 +303,7 @@ class IEMLDatabase:
     @monitor_decorator('remove_key')
     def remove_descriptor(self, ieml, language=None, descriptor=None, value=None, normalize=True):
         ieml, language, descriptor = normalize_key(ieml, language, descriptor,
-                                                   parse_ieml=True, partial=True)
+                                                   parse_ieml=normalize, partial=True)
 
         path = self.path_of(ieml, mkdir=True, normalize=normalize)
         if not os.path.isfile(path):
@@ -341,7 +341,7 @@ class IEMLDatabase:
             fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
-        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=True, structure=True)
+        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=normalize, partial=True, structure=True)
 
         path = self.path_of(ieml, descriptor=False, mkdir=True, normalize=normalize)
 
-- 
2.43.0


From 16e1899da907d8668bfaed19c2ff579f403518ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:28 +0000
Subject: [PATCH 08/45] fix: the caches watch every file their content is
 computed from

The list of all usls was served from the cache after a change to a word, a
polymorpheme or a structure, the dictionary after a change to the structure of
a singular sequence, and both forever when the folder name has a '[' in it.
---
 ieml/commons.py                     | 7 ++++---
 ieml/ieml_database/ieml_database.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..421ee84 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -7,7 +7,7 @@ from collections import OrderedDict
 from enum import Enum
 from itertools import chain
 from sys import stderr
-from typing import List
+from typing import List, Union
 import hashlib
 from time import time
 
@@ -85,7 +85,7 @@ class Singleton(type):
 
 
 class FolderWatcherCache:
-    def __init__(self, db_path: str, pattern: str, cache_folder: str, name: str):
+    def __init__(self, db_path: str, pattern: Union[str, List[str]], cache_folder: str, name: str):
         """
         Cache that check if `folder` content has changed. Compute a hash of the files in the folder and
         get pruned if the content of this folder change.
@@ -95,7 +95,8 @@ class FolderWatcherCache:
         """
         self.db_path = db_path
         self.pattern = pattern
-        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)])
+        self.files = sorted({os.path.abspath(ff) for p in ([pattern] if isinstance(pattern, str) else pattern)
+                             for ff in glob.glob(os.path.join(glob.escape(self.db_path), p), recursive=True)})
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 6be98ac..cc3a8e9 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -245,12 +245,12 @@ class IEMLDatabase:
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-    @cache_results_watch_files("morpheme/paradigm/*", 'dictionary')
+    @cache_results_watch_files(["morpheme/paradigm/*", "morpheme/singular/*.ieml"], 'dictionary')
     def get_dictionary(self):
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    @cache_results_watch_files(["**/*.desc", "**/*.ieml"], 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From ac85543c45d9be3f541c771b56cc4feb85a57d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:08 +0000
Subject: [PATCH 09/45] fix: never cache an answer computed while the files
 were changing

The answer was stored under the hash of the files as they were after the
computation: a change made meanwhile by another process was then ignored for
as long as the files stayed the same. Two processes refreshing the cache at the
same time could also fail on removing the old file.
---
 ieml/commons.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index 421ee84..fd2cfaf 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -108,7 +108,10 @@ class FolderWatcherCache:
         :return: None
         """
         for c in self._cache_candidates():
-            os.remove(c)
+            try:
+                os.remove(c)
+            except FileNotFoundError:
+                pass  # already removed by another process
 
         with open(self.cache_file, 'wb') as fp:
             pickle.dump(obj, fp, protocol=4)
@@ -132,10 +135,10 @@ class FolderWatcherCache:
 
         return self.cache_file != names[0]
 
-    @property
+    @cached_property
     def cache_file(self) -> str:
         """
-        :return: The cache file absolute path
+        :return: The cache file absolute path, for the content of the watched files when first accessed
         """
         res = b""
         for file in self.files:
@@ -177,8 +180,9 @@ def cache_results_watch_files(path, name):
 
             if use_cache:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
+                cache_file = cache.cache_file
                 if not cache.is_pruned():
-                    logger.info("read_{}.cache: Reading cache at {}".format(name, cache.cache_file))
+                    logger.info("read_{}.cache: Reading cache at {}".format(name, cache_file))
                     try:
                         instance = cache.get()
                     except Exception as e:
@@ -195,10 +199,10 @@ def cache_results_watch_files(path, name):
             instance = f(*args, **kwargs)
 
             if use_cache and cache_folder:
-                cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
-
-                logger.info("read_{}.cache: Updating cache at {}".format(name, cache.cache_file))
-                cache.update(instance)
+                # don't store an instance computed while the watched files were changing
+                if cache_file == FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name).cache_file:
+                    logger.info("read_{}.cache: Updating cache at {}".format(name, cache_file))
+                    cache.update(instance)
 
             return instance
 
-- 
2.43.0


From d87c89840b5b4e78d245902403705c0f72d86ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:29 +0000
Subject: [PATCH 10/45] fix: update_all_ieml migrates the descriptors

It failed on the first usl (get_values_partial is keyed by (ieml, language,
descriptor)); removing while adding would also have lost the descriptors of a
usl migrated to the old ieml of another one.
---
 ieml/ieml_database/transactions/DBTransaction.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..9d631ff 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -358,14 +358,14 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
+            migrated = []
             for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
-                new_ieml = f(old_ieml)
-
-                value = desc.get_values_partial(old_ieml)
+                migrated.append((f(old_ieml), desc.get_values_partial(old_ieml)))
 
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+            # once all are removed: a new ieml can be the old ieml of another usl
+            for new_ieml, value in migrated:
+                for (_, l, d), values in value.items():
+                    for e in values:
+                        db.add_descriptor(new_ieml, l, d, e)
-- 
2.43.0


From f5a5a6aad3933d86adeed521fe1ad5ad185409e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:09 +0000
Subject: [PATCH 11/45] fix: create_root_paradigm is one transaction

The main tables were added by further transactions: when one of these failed
the root paradigm stayed without its tables, and could not be created again.
---
 .../transactions/DBTransaction.py             | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 9d631ff..5ca8f9c 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -82,9 +82,12 @@ class DBTransactions:
         translations = _check_descriptors(translations)
         comments = _check_descriptors(comments)
 
+        main_tables = [tt for tt in root.tables_script if tt != root]
+
         # if not already exists (no descriptor no structures)
-        if db.get_descriptors().get_values_partial(root):
-            raise ValueError("Script {} already exists in dictionary".format(root))
+        for s in [root] + main_tables:
+            if db.get_descriptors().get_values_partial(s):
+                raise ValueError("Script {} already exists in dictionary".format(s))
 
         dictionary = db.get_dictionary()
         for ss in root.singular_sequences:
@@ -112,12 +115,11 @@ class DBTransactions:
                 for v in comments[l]:
                     db.add_descriptor(root, language=l, descriptor='comments', value=v)
 
-        # add main tables header
-        for i, t in enumerate([tt for tt in root.tables_script if tt != root]):
-            self.add_morpheme_paradigm(t,
-                                       translations=append_idx_to_dict(translations, i),
-                                       comments=append_idx_to_dict(comments, i))
-        # main_tables = [tt for tt in root.tables_script if tt != root]
+            # add main tables header
+            for i, t in enumerate(main_tables):
+                self._write_paradigm(db, t,
+                                     translations=append_idx_to_dict(translations, i),
+                                     comments=append_idx_to_dict(comments, i))
 
     def add_morpheme_paradigm(self,
                               script: Script,
@@ -155,17 +157,21 @@ class DBTransactions:
                           "{}:{}".format(l, ', '.join(descriptors.get_values(root, l, 'translations'))) for l in LANGUAGES))
 
         with self.gitdb.commit(self.signature, message):
-            db.remove_descriptor(script)
-            db.remove_structure(script)
+            self._write_paradigm(db, script, translations, comments)
 
-            db.add_structure(script, 'is_root', False)
+    @staticmethod
+    def _write_paradigm(db, script, translations, comments):
+        db.remove_descriptor(script)
+        db.remove_structure(script)
 
-            for l in LANGUAGES:
-                for v in translations[l]:
-                    db.add_descriptor(script, language=l, descriptor='translations', value=v)
+        db.add_structure(script, 'is_root', False)
 
-                for v in comments[l]:
-                    db.add_descriptor(script, language=l, descriptor='comments', value=v)
+        for l in LANGUAGES:
+            for v in translations[l]:
+                db.add_descriptor(script, language=l, descriptor='translations', value=v)
+
+            for v in comments[l]:
+                db.add_descriptor(script, language=l, descriptor='comments', value=v)
 
     def delete_morpheme_root_paradigm(self,
                                       script: Script, empty_descriptors=True
-- 
2.43.0


From 687b1bc2a9e0ab424bad51f3cae307d57449e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 12/45] fix: an interrupted clone is started again

The clone was made in place: when it was interrupted the folder existed, was
taken for the database, and every later attempt to open it failed.
---
 ieml/ieml_database/git_interface.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..31a65b1 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -1,6 +1,8 @@
 import csv
 import hashlib
 import os
+import shutil
+import tempfile
 from io import StringIO
 
 import tqdm
@@ -191,13 +193,21 @@ class GitInterface:
                 remote = repo.remotes.create(name, url)
                 return remote
 
-            return pygit2.clone_repository(self.origin,
-                                           self.folder,
-                                           remote=init_remote,
-                                           # checkout_branch=self.branch,
-                                           callbacks=callbacks)
-        else:
-            return pygit2.Repository(self.folder)
+            # the folder must exist only once the clone is complete
+            parent = os.path.dirname(self.folder)
+            os.makedirs(parent, exist_ok=True)
+            tmp_folder = tempfile.mkdtemp(prefix='.clone-', dir=parent)
+            try:
+                pygit2.clone_repository(self.origin,
+                                        os.path.join(tmp_folder, 'repo'),
+                                        remote=init_remote,
+                                        # checkout_branch=self.branch,
+                                        callbacks=callbacks)
+                os.rename(os.path.join(tmp_folder, 'repo'), self.folder)
+            finally:
+                shutil.rmtree(tmp_folder, ignore_errors=True)
+
+        return pygit2.Repository(self.folder)
 
     @monitor_decorator('pull')
     def pull(self, remote='origin') -> {str: Descriptor}:
-- 
2.43.0


From d75b9fbe28072b12256664c3bdc02739b4d91d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:16 +0000
Subject: [PATCH 13/45] fix: pull resolves every kind of conflict

It failed in the middle of the merge when the descriptors in conflict had been
deleted or emptied locally (undefined names, no ieml in an empty file), when
only structures were in conflict, and with the wrong error on unrelated
histories; and it left the repository in the merging state.
---
 ieml/ieml_database/git_interface.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 31a65b1..dc020af 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -24,7 +24,8 @@ from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, LANGUAGES, \
+    DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
@@ -315,7 +316,7 @@ class GitInterface:
 
                     # add local entry as conflicts if a descriptor
                     if old_path.endswith('.desc'):
-                        if local_entry is not None:
+                        if local_entry is not None and repo.get(local_entry.oid).data:
                             if ancestor is not None and ancestor.path != local_entry.path:
                                 raise ValueError("Renaming not supported")
 
@@ -325,9 +326,10 @@ class GitInterface:
                             ieml = next(iter(res))
                             conflicts[ieml] = res[ieml]
                         else:
-                            # locally deleted
-                            assert remote_entry is not None
-                            res = Descriptors.from_csv_string(repo.get(remote_entry.oid).data.decode('utf8'),
+                            # locally deleted, or no descriptor left in it
+                            entry = next(e for e in (remote_entry, ancestor)
+                                         if e is not None and repo.get(e.oid).data)
+                            res = Descriptors.from_csv_string(repo.get(entry.oid).data.decode('utf8'),
                                                               assert_unique_ieml=True)
                             ieml = next(iter(res))
 
@@ -364,16 +366,16 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(', '.join(conflicts)),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-                # repo.state_cleanup()
+            repo.state_cleanup()
 
             # repo.head.set_target(last)
         else:
             #TODO handle merge conflicts here
-            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(self.branch, commit_target,self.folder))
+            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(repo.head.shorthand, commit_target,self.folder))
 
         return conflicts
 
-- 
2.43.0


From f13d7cfb2fe7f94334d1a02b923f12d425f39071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:24 +0000
Subject: [PATCH 14/45] fix: a push the remote rejects is an error

libgit2 reports the rejection of a reference only to push_update_reference, so
push returned normally while the remote stayed unchanged.
---
 ieml/ieml_database/git_interface.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dc020af..e8c7859 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -106,6 +106,13 @@ class git_transaction:
             self.db.reset(self.commit_id)
 
 
+class PushCallbacks(pygit2.RemoteCallbacks):
+    def push_update_reference(self, refname, message):
+        # called with a message when the remote didn't accept the update
+        if message is not None:
+            raise GitError("{} rejected by the remote: {}".format(refname, message))
+
+
 class GitInterface:
     def __init__(self,
                  origin=IEMLDB_DEFAULT_GIT_ADDRESS,
@@ -388,7 +395,7 @@ class GitInterface:
         if self.credentials is None:
             raise ValueError("Credentials are None, cannot push")
 
-        callbacks = pygit2.RemoteCallbacks(credentials=self.credentials)
+        callbacks = PushCallbacks(credentials=self.credentials)
         print("Pushing: ", remote.url, self.credentials,file=stderr)
         remote.push(['{}{}'.format('+' if force else '', self.repo.head.name)],
                     callbacks=callbacks)
-- 
2.43.0


From 6321542e810d5bb256930dec81a7fa1753b834aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:08 +0000
Subject: [PATCH 15/45] fix: damaged parser tables are computed again

An interrupted (or concurrent) write of the ply tables left a truncated file
with which every later import failed.
---
 ieml/commons.py                         | 18 ++++++++++++++++++
 ieml/dictionary/script/parser/parser.py |  5 ++---
 ieml/usl/decoration/parser/parser.py    |  4 ++--
 ieml/usl/parser/parser.py               |  4 ++--
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index fd2cfaf..c13672e 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -11,6 +11,8 @@ from typing import List, Union
 import hashlib
 from time import time
 
+import ply.yacc as yacc
+
 from ieml import logger
 
 
@@ -65,6 +67,22 @@ class TreeStructure:
             yield from c.tree_iter()
 
 
+def build_parser(picklefile, **kwargs):
+    """
+    Build a ply parser with its tables stored in picklefile. If the tables can't be read (their writing was interrupted,
+    or is in progress in another process), they are computed again.
+    """
+    try:
+        return yacc.yacc(picklefile=picklefile, **kwargs)
+    except Exception as e:
+        logger.warning("Can't read the parser tables {}: {}".format(picklefile, repr(e)))
+        try:
+            os.remove(picklefile)
+        except OSError:
+            pass
+        return yacc.yacc(write_tables=False, **kwargs)
+
+
 def fullname(cls):
     return cls.__module__ + '.' + cls.__qualname__
 
diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index e034ce3..5c7d344 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -2,12 +2,11 @@ import logging
 import types
 from functools import lru_cache
 import os
-import ply.yacc as yacc
 
 from ieml.exceptions import InvalidScript, CannotParse
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
-from ieml.commons import Singleton
+from ieml.commons import Singleton, build_parser
 from ieml.dictionary.script.parser.lexer import get_script_lexer, tokens
 
 import threading
@@ -23,7 +22,7 @@ class ScriptParser(metaclass=Singleton):
         self.t_add_rules()
 
         self.lexer = get_script_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='term',
+        self.parser = build_parser(module=self, errorlog=logging, start='term',
                                 debug=False, optimize=True,
                                 picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
         # rename the parsing method (can't name it directly parse with lru_cache due to ply checking)
diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..7c7afa9 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -1,8 +1,8 @@
 import logging
 import threading
 import os
-from ply.yacc import yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script
 from ieml.exceptions import CannotParse
@@ -20,7 +20,7 @@ class PathParser:
     def __init__(self):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc(module=self, errorlog=logging, start='path',
+        self.parser = build_parser(module=self, errorlog=logging, start='path',
                                   # debug=True, debuglog=logging,
                                   optimize=False,
                                   picklefile=os.path.join(PARSER_FOLDER, "path_parser.pickle"))
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..3bc9fe7 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,6 +1,6 @@
 import logging, os
-import ply.yacc as yacc
 
+from ieml.commons import build_parser
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script, Script, NullScript
 from ieml.usl import Word, PolyMorpheme, USL
@@ -31,7 +31,7 @@ class IEMLParser():
     def __init__(self, dictionary=None):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='proposition',
+        self.parser = build_parser(module=self, errorlog=logging, start='proposition',
                                 # debug=True,
                                 optimize=False,
                                 picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
-- 
2.43.0


From b1d56a24280a270070431c1fd1d45658633c0f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 16/45] fix: morpheme parser tables of another grammar are not
 used

With optimize=True ply doesn't compare the signature of the stored tables with
the grammar, so tables left by another version of the library were used.
---
 ieml/dictionary/script/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index 5c7d344..1be30b7 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -23,7 +23,7 @@ class ScriptParser(metaclass=Singleton):
 
         self.lexer = get_script_lexer()
         self.parser = build_parser(module=self, errorlog=logging, start='term',
-                                debug=False, optimize=True,
+                                debug=False, optimize=False,
                                 picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
         # rename the parsing method (can't name it directly parse with lru_cache due to ply checking)
         self.parse = self.t_parse
-- 
2.43.0


From 3c189572f0789af97b6dd7e04dd51e78ba7eef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 17/45] fix: a path designates the morpheme of the usl, not an
 equal one

The literal was set on the morpheme instance of the path: the decoration was
lost when the usl holds another instance of it (another thread parsed the same
morpheme, it was evicted from the parser cache, it comes from a pickled
dictionary).
---
 ieml/usl/decoration/path.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..b4eb80d 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -251,7 +251,8 @@ class PolymorphemePath(UslPath):
 			if not self.morpheme.empty and self.morpheme not in group:
 				raise DeferenceError("Morpheme " + str(self.morpheme) + " not in group at " + str(self.group_idx.name))
 
-			return self.morpheme
+			# the instance in the usl, not the one of the path
+			return next((m for m in group if m == self.morpheme), self.morpheme)
 		else:
 			if self.group_idx == GroupIndex.CONSTANT:
 				return PolyMorpheme(constant=usl.constant)
@@ -394,7 +395,8 @@ class FlexionPath(UslPath):
 		if self.morpheme not in all_morphemes:
 			raise DeferenceError("Morpheme " + str(self.morpheme) + " not in flexion")
 
-		return self.morpheme
+		# the instance in the usl, not the one of the path
+		return all_morphemes[str(self.morpheme)]
 
 	def _to_str(self):
 		return str(self.morpheme)
-- 
2.43.0


From 5434ad0bf69dc05c191e25ca3520d93e3e1e0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:12 +0000
Subject: [PATCH 18/45] fix: the literals of a thread are not seen by the
 others

The decorations are applied on morphemes shared by all the usls, within a global
context without lock: two threads that instanciate usls got each other's
literals, or lost theirs.
---
 ieml/commons.py                 | 5 +++--
 ieml/usl/decoration/instance.py | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index c13672e..db763e7 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -243,8 +243,9 @@ class DecoratedComponent:
     def set_literal(self, value):
         from ieml.usl.decoration.instance import literal_context
 
-        literal_context().push(self)
-        self._literal = value
+        with literal_context().lock:
+            literal_context().push(self)
+            self._literal = value
 
     def get_literal(self):
         return self._literal
diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b07e0fa..2a940fa 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -1,3 +1,4 @@
+from threading import RLock
 from typing import List
 
 from ieml.commons import DecoratedComponent
@@ -9,14 +10,18 @@ from ieml.usl.decoration.path import UslPath, FlexionPath
 class LiteralContext:
 	def __init__(self):
 		self.stack = []
+		# the literals are set on components shared by all the usls, of all the threads
+		self.lock = RLock()
 
 	def __enter__(self):
+		self.lock.acquire()
 		self.stack = []
 
 	def __exit__(self, exc_type, exc_val, exc_tb):
 		for s in self.stack:
 			s.clear_literal()
 		self.stack = []
+		self.lock.release()
 
 	def push(self, u):
 		self.stack.append(u)
@@ -80,7 +85,8 @@ class InstancedUSL(USL):
 
 	@staticmethod
 	def from_usl(u: 'USL'):
-		return InstancedUSL(u, InstancedUSL.list_decorations(u))
+		with literal_context().lock:
+			return InstancedUSL(u, InstancedUSL.list_decorations(u))
 
 	def __str__(self):
 		return "{} {}".format(str(self.usl), ' '.join(map(str, self.decorations))).strip()
-- 
2.43.0


From 6bba1910c5e7ce3dc137c40111d48e0b013b584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 19/45] fix: the decorated usls of the database are listed and
 removed

The quotes of a decoration are doubled in the files: list() truncated the ieml
at the first one, and remove_descriptor never matched it.
---
 ieml/ieml_database/ieml_database.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index cc3a8e9..92140d0 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -174,10 +174,11 @@ class IEMLDatabase:
 
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
-        p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
+        # the first field of each line, its quotes are doubled
+        p3 = subprocess.Popen(["sed", "-E", 's/^"(([^"]|"")*)".*$/\\1/'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
         p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
 
-        res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
+        res = [s.strip().decode('utf8').replace('""', '"') for s in p4.stdout.readlines() if s.strip()]
         _wait_all(p1, p2, p3, p4)
 
         if parse:
@@ -328,7 +329,7 @@ class IEMLDatabase:
         # newline='\n': a '\r' in a value is not an end of line
         with open(path, "r", encoding='utf8', newline='\n') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
+                     if not l.startswith('"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor) + \
                                         ('"{}"\n'.format(self.escape_value(value)) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8', newline='\n') as f:
-- 
2.43.0


From fa035602238bd8549ff13e67ccef1e3c46c96355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 20/45] fix: diff reports the ieml of decorated usls, and
 ignores the other files

---
 ieml/ieml_database/git_interface.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index e8c7859..9699e06 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -429,6 +429,9 @@ class GitInterface:
             deleted = []
 
             file_path = patch.delta.new_file.path
+            if not file_path.endswith(('.desc', '.ieml')):
+                continue  # not in the database, as the README
+
             l = None
             for h in patch.hunks:
                 for l in h.lines:
@@ -438,7 +441,7 @@ class GitInterface:
                         added.append(l.content)
             if l:
                 res[file_path] = {
-                    'ieml': l.content.split('"')[1],
+                    'ieml': next(csv.reader([l.content], delimiter=' ', quotechar='"'))[0],
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
-- 
2.43.0


From 7b1441d49e48d5ea38c6f5e346c3173376999d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 21/45] fix: the factorization doesn't depend on the hash seed

factor() iterated over a set of scripts: two processes factorized the same
script differently, and the canonical form of one was not the one of the other.
---
 ieml/dictionary/script/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..c7ef69a 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -87,7 +87,8 @@ def factor(sequences):
     factorisations = next(iter(_factors(list(relations[e]), [e])))
 
     remaining = sorted(set(sequences) - set(scripts[f] for f in factorisations))
-    factorisations = tuple(factor({primitives[i][seme] for seme in semes}) for i, semes in enumerate(zip(*factorisations)))
+    # sorted: the result must not depend on the order of a set
+    factorisations = tuple(factor(sorted({primitives[i][seme] for seme in semes})) for i, semes in enumerate(zip(*factorisations)))
 
     if remaining:
         return [factorisations] + factor(remaining)
-- 
2.43.0


From c02b925e3a57085ff442caa1c37d113554f98f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 22/45] fix: the structure of decorated usls is written with
 its quotes doubled

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 92140d0..2987c73 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -339,7 +339,7 @@ class IEMLDatabase:
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=False, structure=True)
 
         with open(self.path_of(ieml, descriptor=False, mkdir=True), 'a', encoding='utf8') as fp:
-            fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
+            fp.write('"{}" {} "{}"\n'.format(self.escape_value(str(ieml)), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
         ieml, key, value = normalize_key(ieml, key, value, parse_ieml=normalize, partial=True, structure=True)
@@ -355,7 +355,7 @@ class IEMLDatabase:
 
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} '.format(str(ieml), key) + \
+                     if not l.startswith('"{}" {} '.format(self.escape_value(str(ieml)), key) + \
                                         ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
-- 
2.43.0


From bf299fc1e2f014f33f0c9881f6ce0a56e88aaa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:21 +0000
Subject: [PATCH 23/45] fix: a commit that was not written is an error

When the disk refuses every write (full disk), create_commit of libgit2 returns
an id although neither the commit nor the branch were written. The transaction
returned as if it had committed, with the changes left uncommitted in the folder.
---
 ieml/ieml_database/git_interface.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 9699e06..c6279eb 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -33,6 +33,12 @@ def get_local_cache_dir(origin):
                         hashlib.md5(origin.encode('utf8')).hexdigest())
 
 
+def check_current_commit(repo, commit_id):
+    # on a disk that refuses every write, create_commit returns an id without creating the commit
+    if repo.head.target != commit_id:
+        raise GitError("commit {} not written".format(commit_id))
+
+
 class MergeConflict(Exception):
     def __init__(self, message, conflicts):
         self.message = message
@@ -93,6 +99,7 @@ class git_transaction:
                                                  self.message,
                                                  tree,
                                                  [self.commit_id])
+                check_current_commit(self.db.repo, oid)
 
                 # self.db.commit_id = oid
                 error("committing db : {}".format(str(oid)))
@@ -303,6 +310,7 @@ class GitInterface:
 
                 last = repo.create_commit('HEAD', cherry.author, DEFAULT_COMMITER_SIGNATURE,
                                    "Merge branch", tree_id, [repo.head.target, commit_target])
+                check_current_commit(repo, last)
 
             else:
                 to_commit = []
@@ -376,6 +384,7 @@ class GitInterface:
                                             "Merge {}".format(', '.join(conflicts)),
                                             tree_id,
                                             [repo.head.target, commit_target])
+                    check_current_commit(repo, last)
 
             repo.state_cleanup()
 
-- 
2.43.0


From 2bb8b4dfc93a5c2ca430b907f12e683575df45fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:00 +0000
Subject: [PATCH 24/45] fix: a folder the caches can't list is an error

---
 ieml/commons.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index db763e7..fbed7de 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -1,5 +1,5 @@
+import fnmatch
 import functools
-import glob
 import logging
 import os
 import pickle
@@ -102,6 +102,33 @@ class Singleton(type):
         return cls._instances[cls]
 
 
+def _glob(folder: str, pattern: List[str]):
+    """
+    The paths under folder that match the pattern (a list of path components). Contrary to glob.glob, a folder that can't be
+    listed is an error.
+    """
+    try:
+        with os.scandir(folder) as it:
+            entries = [e for e in it if not e.name.startswith('.')]
+    except (FileNotFoundError, NotADirectoryError):
+        return
+
+    head, *tail = pattern
+    if head == '**':
+        yield from _glob(folder, tail)
+        for e in entries:
+            if e.is_dir():
+                yield from _glob(e.path, pattern)
+        return
+
+    for e in entries:
+        if fnmatch.fnmatchcase(e.name, head):
+            if tail:
+                yield from _glob(e.path, tail)
+            else:
+                yield e.path
+
+
 class FolderWatcherCache:
     def __init__(self, db_path: str, pattern: Union[str, List[str]], cache_folder: str, name: str):
         """
@@ -114,7 +141,7 @@ class FolderWatcherCache:
         self.db_path = db_path
         self.pattern = pattern
         self.files = sorted({os.path.abspath(ff) for p in ([pattern] if isinstance(pattern, str) else pattern)
-                             for ff in glob.glob(os.path.join(glob.escape(self.db_path), p), recursive=True)})
+                             for ff in _glob(self.db_path, p.split('/'))})
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
-- 
2.43.0


From d7fcbb02503b2cb58de8a934b2744dcd848ed9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 25/45] fix: a decoration is only at the place it names

The literals are read back from components that can be at several places of a
usl, so a decoration showed up at every place of its morpheme, and the last of
two decorations of a morpheme at two places replaced the other. Decorations of
a whole group were dropped.
---
 ieml/usl/decoration/instance.py |  9 ++++++++-
 ieml/usl/decoration/path.py     | 23 ++++++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 2a940fa..48d71c6 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -71,7 +71,14 @@ class InstancedUSL(USL):
 
 				decoration.apply(self.usl)
 
-			self.decorations = InstancedUSL.list_decorations(self.usl, flexion=self.flexion)
+		# the literals are not read back from the components, a component can be at several places of the usl
+		paths = [path for path, _ in self.usl.iter_structure_path(self.flexion)]
+		placed = {str(path): [] for path in paths}
+		for decoration in decorations:
+			path = next((p for p in paths if decoration.path.same_place(p, self.usl)), decoration.path)
+			placed.setdefault(str(path), []).append(Decoration(path, decoration.value))
+
+		self.decorations = sorted(d[-1] for d in placed.values() if d)
 
 	@staticmethod
 	def list_decorations(u: USL, flexion=False):
diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index b4eb80d..06f6b98 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -120,6 +120,19 @@ class UslPath:
 		else:
 			return node
 
+	def same_place(self, other: 'UslPath', usl: USL) -> bool:
+		"""True if the two paths lead to the same place in usl (the same component can be at several places)"""
+		if self.__class__ != other.__class__ or not self._same_place(other, usl):
+			return False
+
+		if self.child is None or other.child is None:
+			return self.child is other.child
+
+		return self.child.same_place(other.child, self._deference(usl))
+
+	def _same_place(self, other, usl):
+		return self._do_eq(other)
+
 	def contained(self, usl):
 		try:
 			self.deference(usl)
@@ -222,6 +235,9 @@ class PolymorphemePath(UslPath):
 	def _has_prefix(self, other):
 		return self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
 
+	def _same_place(self, other, usl):
+		return self.group_idx == other.group_idx and self.morpheme == other.morpheme
+
 	def as_constant(self, u=None):
 		return PolymorphemePath(group_idx=GroupIndex.CONSTANT,
 								morpheme=self.morpheme if self.morpheme is not None else u,
@@ -230,7 +246,8 @@ class PolymorphemePath(UslPath):
 
 
 	def _do_lt(self, other):
-		return (self.group_idx, self.morpheme) < (other.group_idx, other.morpheme)
+		return (self.group_idx, self.morpheme is not None, self.morpheme) < \
+			   (other.group_idx, other.morpheme is not None, other.morpheme)
 
 	def without_morpheme(self):
 		return PolymorphemePath(group_idx=self.group_idx,
@@ -605,6 +622,10 @@ class RolePath(UslPath):
 	def _do_eq(self, other):
 		return self.role == other.role and self.has_focus == other.has_focus
 
+	def _same_place(self, other, usl):
+		# the focus and the valence can be omitted in a path
+		return self._deference(usl) is other._deference(usl)
+
 	def _do_lt(self, other):
 		return self.role < other.role
 
-- 
2.43.0


From 4aeef8de4be395912a83a8683953b6a4cf7728f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:20 +0000
Subject: [PATCH 26/45] fix: the quotes of a literal are unescaped when it is
 parsed

Each parsing of a decorated usl added a backslash before the quotes of its
literals, so its descriptors were stored under another ieml than the one read.
---
 ieml/usl/parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 3bc9fe7..0aff7d2 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -209,7 +209,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, p[3][1:-1].replace(r'\"', '"'))
 
 
     def p_error(self, p):
-- 
2.43.0


From 916d6b13fd1bac4ff6ae49770ac13c21fb56d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 27/45] fix: a decorated usl with a line break in a literal has
 one written form

The database writes a line break as \n, so what was read could not be removed.
---
 ieml/usl/decoration/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 48d71c6..f9c9622 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -41,7 +41,7 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"'))
+		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"').replace('\n', r'\n'))
 
 	def __lt__(self, other):
 		return (self.path, self.value) < (other.path, other.value)
-- 
2.43.0


From e441cf7e9fdbaa623b7f3a9d7ace5585ed905759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:28 +0000
Subject: [PATCH 28/45] fix: read the descriptors of files with a backslash in
 their name

echo -e interprets the backslashes of the file names it is given.
---
 ieml/ieml_database/ieml_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 2987c73..d85d64a 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -213,7 +213,7 @@ class IEMLDatabase:
     def get_descriptors(self, files_list=None):
         if files_list is not None:
             files_list = [f for f in files_list if os.path.isfile(os.path.join(self.folder, f))]
-            p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(files_list)],
+            p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(f.replace('\\', r'\\') for f in files_list)],
                                   stdout=subprocess.PIPE, cwd=self.folder)
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
             #                       stdout=subprocess.PIPE, cwd=self.folder)
-- 
2.43.0


From 6f2f96b77558257fb2acdb8a2f65154cfa3ebb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:06 +0000
Subject: [PATCH 29/45] fix: the written form of every decorated usl can be
 parsed

---
 ieml/usl/parser/lexer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..6286e18 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -55,8 +55,11 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
-                                                                                                                        term_regex=TERM_REGEX)
+    # every path that a usl is written with
+    _MORPHEME_PATH = r'((group_\d(\s\d)?|constant)(>{term_regex})?|{term_regex})'.format(term_regex=TERM_REGEX)
+    _LEXEME_PATH = r'((flexion|content)(>{morpheme_path})?)'.format(morpheme_path=_MORPHEME_PATH)
+    t_USL_PATH = r'(?<=\[)>(role>(!\s)?{role_regex}(\s{role_regex})*(?=[>\s"])(>{lexeme_path})?|{lexeme_path}|{morpheme_path})?'.format(
+        role_regex=ROLE_REGEX, lexeme_path=_LEXEME_PATH, morpheme_path=_MORPHEME_PATH)
 
     t_DECORATION_VALUE = r'"(\\"|[^"])*"'
 
-- 
2.43.0


From da4c80eab5d5e4340f86a6d1d7348bf5616e2d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:14 +0000
Subject: [PATCH 30/45] fix: the literals set around the creation of another
 usl are cleared

---
 ieml/usl/decoration/instance.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index f9c9622..01a7a7d 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -10,17 +10,22 @@ from ieml.usl.decoration.path import UslPath, FlexionPath
 class LiteralContext:
 	def __init__(self):
 		self.stack = []
+		# the contexts can be nested, where each one starts in the stack
+		self.starts = []
 		# the literals are set on components shared by all the usls, of all the threads
 		self.lock = RLock()
 
 	def __enter__(self):
 		self.lock.acquire()
-		self.stack = []
+		if not self.starts:
+			self.stack = []
+		self.starts.append(len(self.stack))
 
 	def __exit__(self, exc_type, exc_val, exc_tb):
-		for s in self.stack:
+		start = self.starts.pop()
+		for s in self.stack[start:]:
 			s.clear_literal()
-		self.stack = []
+		del self.stack[start:]
 		self.lock.release()
 
 	def push(self, u):
-- 
2.43.0


From 2b34526706f56c202f202454f6b25ee2e16f6c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 31/45] fix: two threads that parse, one of them in a literal
 context, can't wait for each other

---
 ieml/usl/parser/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 0aff7d2..4f66473 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -10,7 +10,7 @@ from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from .lexer import get_lexer, tokens
 import threading
 
-from ..decoration.instance import Decoration, InstancedUSL
+from ..decoration.instance import Decoration, InstancedUSL, literal_context
 from ..decoration.parser.parser import PathParser
 
 
@@ -47,7 +47,8 @@ class IEMLParser():
         if isinstance(s, (USL, Script)):
             s = str(s)
 
-        with self.lock:
+        # the decorated usls take the lock of the literals: taken first, as by those who parse in a literal context
+        with literal_context().lock, self.lock:
             self.factorize_script = factorize_script
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-- 
2.43.0


From a65035ee704e56ef40c4a85b0e38dd418abfd1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 32/45] fix: a script that is marked as ignored and outside of
 the root paradigms doesn't break the dictionary

---
 ieml/dictionary/dictionary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..59a4dc4 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -45,7 +45,8 @@ class Dictionary:
                 ignored.append(s)
 
         for s in ignored:
-            del scripts[str(s)]
+            # a script can be marked as ignored and be outside of the root paradigms
+            scripts.pop(str(s), None)
             if s in root_paradigms:
                 root_paradigms.remove(s)
             if s in inhibitions:
-- 
2.43.0


From 0fdb8d75ec9fc1640dfca25f4f7a1307d156d866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:57 +0000
Subject: [PATCH 33/45] fix: the ranks of two paradigms with the same singular
 sequences don't depend on the hash seed

---
 ieml/dictionary/table/table_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table_structure.py b/ieml/dictionary/table/table_structure.py
index cf8c732..3694df6 100644
--- a/ieml/dictionary/table/table_structure.py
+++ b/ieml/dictionary/table/table_structure.py
@@ -58,7 +58,7 @@ class TableStructure:
             cells.add(cell)
 
         defined = {root_table}
-        for s in sorted(set(paradigms) - {root}, key=len, reverse=True):
+        for s in sorted(set(paradigms) - {root}, key=lambda s: (len(s), s), reverse=True):
             if s in tables:
                 raise ValueError("Already defined")
                 # continue
-- 
2.43.0


From 6bd30e586d896c4a7683ca5a4ccfa72dc9c6baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 34/45] fix: a created root paradigm doesn't take the
 inhibitions left by a deleted one

---
 ieml/ieml_database/transactions/DBTransaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 5ca8f9c..74b08a9 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -102,7 +102,7 @@ class DBTransactions:
                         " / ".join("{}:{}".format(l, ', '.join(db.get_descriptors().get_values(str(root), l, 'translations'))) for l in LANGUAGES),
                         len(root.singular_sequences)),):
 
-            db.remove_structure(root, 'is_root')
+            db.remove_structure(root)
             db.add_structure(root, 'is_root', True)
             for i in _check_inhibitions(inhibitions):
                 db.add_structure(root, 'inhibition', i)
-- 
2.43.0


From 09fc59696180e3a4727a887af600fa3ead8fbcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:19 +0000
Subject: [PATCH 35/45] fix: a root paradigm whose descriptors were removed
 can't be overlapped by a new one

---
 ieml/ieml_database/transactions/DBTransaction.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 74b08a9..1abd033 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -4,7 +4,7 @@ import tqdm
 from ieml import error
 from ieml.ieml_database import IEMLDatabase
 from ieml.constants import INHIBITABLE_RELATIONS, LANGUAGES, DESCRIPTORS_CLASS
-from ieml.dictionary.script import Script, factorize
+from ieml.dictionary.script import Script, factorize, script as parse_script
 from ieml.usl import USL
 
 
@@ -16,6 +16,13 @@ def _check_inhibitions(inhibitions):
     assert all(i in INHIBITABLE_RELATIONS for i in inhibitions)
     return inhibitions
 
+def _check_disjoint(db, script, roots):
+    # the root paradigms without descriptors are not in the dictionary, but they come back with their next descriptors
+    for (r, key), (value,) in db.get_structure().df.iterrows():
+        if key == 'is_root' and value[0].lower() == 't' and r not in map(str, roots) and \
+                not parse_script(r).singular_sequences_set.isdisjoint(script.singular_sequences):
+            raise ValueError("Root paradigms {} intersection with script {} ".format(r, str(script)))
+
 def _check_script(script):
     assert isinstance(script, Script)
     assert factorize(script) == script
@@ -96,6 +103,7 @@ class DBTransactions:
                 raise ValueError("Root paradigms {} intersection with script {} ".format(str(r), str(root)))
             except KeyError:
                 pass
+        _check_disjoint(db, root, [root])
 
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
@@ -264,7 +272,7 @@ class DBTransactions:
             # 1st case: root paradigm
 
             assert script_old in script_new, "Can only update a root paradigm to a bigger version of it"
-
+            _check_disjoint(db, script_new, [script_old, script_new])
 
             # then we can update it to a bigger version of it
             old_structure = ds.get_values_partial(script_old)
-- 
2.43.0


From 64622353c43e6b7eb8585a10cef5faa6d06e8d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:50 +0000
Subject: [PATCH 36/45] fix: a paradigm updated to a script that kept a
 structure doesn't take it

---
 ieml/ieml_database/transactions/DBTransaction.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1abd033..5ac18d0 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -279,6 +279,8 @@ class DBTransactions:
 
         # transfers translations and structure
         with self.gitdb.commit(self.signature, message):
+            # the target can have kept a structure without descriptors
+            db.remove_structure(script_new)
 
             if is_root:
                 db.remove_structure(script_old)
-- 
2.43.0


From 85c18f8fd24c26382070f312554f740ac5043d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:36 +0000
Subject: [PATCH 37/45] fix: a singular sequence can't be updated to a
 paradigm, nor the reverse

---
 ieml/ieml_database/transactions/DBTransaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 5ac18d0..ad501cf 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -237,7 +237,7 @@ class DBTransactions:
         if script_old == script_new:
             return
 
-        assert len(script_old) != 1 or len(script_new) != 1, "Can't update singular sequences, only paradigms"
+        assert len(script_old) != 1 and len(script_new) != 1, "Can't update singular sequences, only paradigms"
 
         db = IEMLDatabase(folder=self.gitdb.folder, use_cache=self.use_cache, cache_folder=self.cache_folder)
         d = db.get_dictionary()
-- 
2.43.0


From ebbe725a9cd72e518a93fb8960ef26da040e65a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 38/45] fix: a file that can't be looked at is an error, not an
 absent one

---
 ieml/ieml_database/ieml_database.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index d85d64a..e3d513c 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -7,8 +7,10 @@ from sys import stdout
 import pandas
 from functools import reduce
 
+import errno
 import os
 import json
+import stat
 from hashlib import sha224
 import subprocess
 
@@ -50,6 +52,18 @@ def _wait_all(*processes):
             raise IOError("{} failed with exit code {}".format(process.args, process.returncode))
 
 
+def _mode(path):
+    """The mode of a file, 0 if there is none. Contrary to os.path.isfile, raise if the file system can't tell"""
+    try:
+        return os.stat(path).st_mode
+    except (FileNotFoundError, NotADirectoryError, ValueError):
+        return 0
+    except OSError as e:
+        if e.errno != errno.ENAMETOOLONG:
+            raise
+        return 0
+
+
 def _normalize_inhibitions(inhibitions):
     return inhibitions
 
@@ -168,7 +182,7 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
-        if not os.path.isdir(p):
+        if not stat.S_ISDIR(_mode(p)):
             # no ieml of this type yet
             return []
 
@@ -212,7 +226,7 @@ class IEMLDatabase:
     @monitor_decorator("Get descriptors")
     def get_descriptors(self, files_list=None):
         if files_list is not None:
-            files_list = [f for f in files_list if os.path.isfile(os.path.join(self.folder, f))]
+            files_list = [f for f in files_list if stat.S_ISREG(_mode(os.path.join(self.folder, f)))]
             p1 = subprocess.Popen(['echo', '-ne', r'\0'.join(f.replace('\\', r'\\') for f in files_list)],
                                   stdout=subprocess.PIPE, cwd=self.folder)
             # p1 = subprocess.Popen(['sed', '-e', r's/\n/\x0/g'], stdin=p0.stdout,
@@ -307,7 +321,7 @@ class IEMLDatabase:
                                                    parse_ieml=normalize, partial=True)
 
         path = self.path_of(ieml, mkdir=True, normalize=normalize)
-        if not os.path.isfile(path):
+        if not stat.S_ISREG(_mode(path)):
             return
 
         if descriptor is None and language is None and value is None:
@@ -346,7 +360,7 @@ class IEMLDatabase:
 
         path = self.path_of(ieml, descriptor=False, mkdir=True, normalize=normalize)
 
-        if not os.path.isfile(path):
+        if not stat.S_ISREG(_mode(path)):
             return
 
         if key is None:
-- 
2.43.0


From fac926d10e566da204fbfd7d4955b6e138d41381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 39/45] fix: a file that can't be looked at during a commit is
 not commited as deleted

---
 ieml/ieml_database/git_interface.py | 36 ++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index c6279eb..2116e15 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -49,6 +49,23 @@ class MergeConflict(Exception):
 
 #TODO  normalize repo name with postfix .git
 
+def check_all_in_index(db):
+    # for the status, a file that can't be looked at is deleted, and a folder that can't be listed is empty
+    def fail(e):
+        raise e
+
+    for folder, folders, files in os.walk(db.folder, onerror=fail):
+        if '.git' in folders:
+            folders.remove('.git')
+        for f in files:
+            os.lstat(os.path.join(folder, f))
+
+    missing = [f for f, k in db.status().items()
+               if k & (GIT_STATUS_WT_NEW | GIT_STATUS_WT_DELETED | GIT_STATUS_WT_MODIFIED | GIT_STATUS_WT_RENAMED)]
+    if missing:
+        raise IOError("Changes that can't be commited: {}".format(', '.join(missing)))
+
+
 class git_transaction:
     def __init__(self,
                  db,
@@ -75,9 +92,11 @@ class git_transaction:
             try:
                 status = self.db.status()
                 if not status:
+                    check_all_in_index(self.db)
                     return
 
-                index = self.db.repo.index
+                repo = self.db.repo
+                index = repo.index
                 index.read()
 
                 for f, k in status.items():
@@ -91,15 +110,16 @@ class git_transaction:
                         index.add(f)
 
                 index.write()
+                check_all_in_index(self.db)
 
                 tree = index.write_tree()
-                oid = self.db.repo.create_commit(self.db.repo.head.name,
-                                                 self.signature,
-                                                 self.signature,
-                                                 self.message,
-                                                 tree,
-                                                 [self.commit_id])
-                check_current_commit(self.db.repo, oid)
+                oid = repo.create_commit(repo.head.name,
+                                         self.signature,
+                                         self.signature,
+                                         self.message,
+                                         tree,
+                                         [self.commit_id])
+                check_current_commit(repo, oid)
 
                 # self.db.commit_id = oid
                 error("committing db : {}".format(str(oid)))
-- 
2.43.0


From 6fa9794811babd56bb9804f5f0dbb48ca374f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 40/45] fix: a reset that can't look at every file of the
 database is an error

---
 ieml/ieml_database/git_interface.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 2116e15..4d54a08 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -49,7 +49,7 @@ class MergeConflict(Exception):
 
 #TODO  normalize repo name with postfix .git
 
-def check_all_in_index(db):
+def check_no_change_left(db):
     # for the status, a file that can't be looked at is deleted, and a folder that can't be listed is empty
     def fail(e):
         raise e
@@ -60,10 +60,10 @@ def check_all_in_index(db):
         for f in files:
             os.lstat(os.path.join(folder, f))
 
-    missing = [f for f, k in db.status().items()
-               if k & (GIT_STATUS_WT_NEW | GIT_STATUS_WT_DELETED | GIT_STATUS_WT_MODIFIED | GIT_STATUS_WT_RENAMED)]
-    if missing:
-        raise IOError("Changes that can't be commited: {}".format(', '.join(missing)))
+    left = [f for f, k in db.status().items()
+            if k & (GIT_STATUS_WT_NEW | GIT_STATUS_WT_DELETED | GIT_STATUS_WT_MODIFIED | GIT_STATUS_WT_RENAMED)]
+    if left:
+        raise IOError("Changes that can't be commited or discarded: {}".format(', '.join(left)))
 
 
 class git_transaction:
@@ -92,7 +92,7 @@ class git_transaction:
             try:
                 status = self.db.status()
                 if not status:
-                    check_all_in_index(self.db)
+                    check_no_change_left(self.db)
                     return
 
                 repo = self.db.repo
@@ -110,7 +110,7 @@ class git_transaction:
                         index.add(f)
 
                 index.write()
-                check_all_in_index(self.db)
+                check_no_change_left(self.db)
 
                 tree = index.write_tree()
                 oid = repo.create_commit(repo.head.name,
@@ -202,6 +202,7 @@ class GitInterface:
             if k & GIT_STATUS_WT_NEW:
                 os.remove(os.path.join(self.folder, f))
 
+        check_no_change_left(self)
 
     def checkout(self, branch=None, commit_id=None):
         repo = self.repo
-- 
2.43.0


From e3e838e6125f92f4f9f2655ea3d5ffd50dba3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 41/45] fix: a pull that can't read the index doesn't record a
 merge that was not done

---
 ieml/ieml_database/git_interface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 4d54a08..a30e9ff 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -39,6 +39,12 @@ def check_current_commit(repo, commit_id):
         raise GitError("commit {} not written".format(commit_id))
 
 
+def check_merging(repo, commit_id):
+    # when the index can't be read, merge returns without having done anything
+    if not os.path.exists(os.path.join(repo.path, 'MERGE_HEAD')):
+        raise GitError("{} can't be merged".format(commit_id))
+
+
 class MergeConflict(Exception):
     def __init__(self, message, conflicts):
         self.message = message
@@ -307,6 +313,7 @@ class GitInterface:
 
 
             repo.merge(commit_target)
+            check_merging(repo, commit_target)
 
             # we are now in the remote state, we are going to try to add the local commit on top of the remote HEAD
             # until a merge conflict
-- 
2.43.0


From 3c6e5df32b3ecceadd8ec10ea6aaab6cbc2405a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 42/45] fix: pull doesn't take two similar files for a renamed
 one

---
 ieml/ieml_database/git_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index a30e9ff..5ba32c4 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -312,7 +312,8 @@ class GitInterface:
             # repo.head.set_target(commit_target)
 
 
-            repo.merge(commit_target)
+            # without the detection of renames: a file with the descriptors of another ieml would be merged with it
+            repo.merge(commit_target, flags=pygit2.enums.MergeFlag(0))
             check_merging(repo, commit_target)
 
             # we are now in the remote state, we are going to try to add the local commit on top of the remote HEAD
-- 
2.43.0


From b8437e8da886bf169028560ca6b9468898192c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:07 +0000
Subject: [PATCH 43/45] fix: a pull with several common ancestors in conflict
 can name the ieml that both sides emptied

---
 ieml/ieml_database/git_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 5ba32c4..68b4095 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -373,7 +373,9 @@ class GitInterface:
                             # locally deleted, or no descriptor left in it
                             entry = next(e for e in (remote_entry, ancestor)
                                          if e is not None and repo.get(e.oid).data)
-                            res = Descriptors.from_csv_string(repo.get(entry.oid).data.decode('utf8'),
+                            # with several common ancestors, git merges them: this one can have conflict markers
+                            data = repo.get(entry.oid).data.decode('utf8')
+                            res = Descriptors.from_csv_string(''.join(l + '\n' for l in data.split('\n') if l.startswith('"')),
                                                               assert_unique_ieml=True)
                             ieml = next(iter(res))
 
-- 
2.43.0


From f559c1f842fcc39a7c2ed5dd651a7bf5d92f5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:47 +0000
Subject: [PATCH 44/45] fix: the literals with backslashes and line breaks of a
 decorated usl are read back as they are

---
 ieml/usl/decoration/instance.py | 12 +++++++++++-
 ieml/usl/parser/lexer.py        |  2 +-
 ieml/usl/parser/parser.py       |  4 ++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 01a7a7d..2255937 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -1,3 +1,4 @@
+import re
 from threading import RLock
 from typing import List
 
@@ -36,6 +37,15 @@ def literal_context():
 	return __literal_context
 
 
+def escape_literal(value):
+	# a backslash that can't be taken for an escape sequence is written alone
+	return re.sub(r'\\(?=[\\"n\n]|\Z)', r'\\\\', str(value)).replace('"', r'\"').replace('\n', r'\n')
+
+
+def unescape_literal(text):
+	return re.sub(r'\\([\\"n])', lambda m: '\n' if m.group(1) == 'n' else m.group(1), text)
+
+
 class Decoration:
 	def __init__(self, path: UslPath, value):
 		self.path = path
@@ -46,7 +56,7 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"').replace('\n', r'\n'))
+		return '[{} "{}"]'.format(str(self.path), escape_literal(self.value))
 
 	def __lt__(self, other):
 		return (self.path, self.value) < (other.path, other.value)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 6286e18..7d2dc70 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -61,7 +61,7 @@ def get_lexer(module=None):
     t_USL_PATH = r'(?<=\[)>(role>(!\s)?{role_regex}(\s{role_regex})*(?=[>\s"])(>{lexeme_path})?|{lexeme_path}|{morpheme_path})?'.format(
         role_regex=ROLE_REGEX, lexeme_path=_LEXEME_PATH, morpheme_path=_MORPHEME_PATH)
 
-    t_DECORATION_VALUE = r'"(\\"|[^"])*"'
+    t_DECORATION_VALUE = r'"(\\(.|\n)|[^"\\])*"'
 
     t_ignore  = '{} \t\n'
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 4f66473..b993371 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -10,7 +10,7 @@ from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 from .lexer import get_lexer, tokens
 import threading
 
-from ..decoration.instance import Decoration, InstancedUSL, literal_context
+from ..decoration.instance import Decoration, InstancedUSL, literal_context, unescape_literal
 from ..decoration.parser.parser import PathParser
 
 
@@ -210,7 +210,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1].replace(r'\"', '"'))
+        p[0] = Decoration(usl_path, unescape_literal(p[3][1:-1]))
 
 
     def p_error(self, p):
-- 
2.43.0


From 1ccfbdfe04bc000f7fa9e92a35e1d5c57cda6586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:43 +0000
Subject: [PATCH 45/45] fix: scripts with sequences that are not at every
 corner of a cube can be factorized

---
 ieml/dictionary/script/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index c7ef69a..2f3d28c 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -69,6 +69,8 @@ def factor(sequences):
 
         for r in candidate:
             _facto = sorted(set(it.chain.from_iterable(_neighbours(t, r) for t in factorisation)))
+            if any(i not in relations for i in _facto):
+                continue  # the cube has a corner out of the sequences
             _candidate = set(candidate)
             for i in _facto:
                 _candidate &= set(relations[i])
-- 
2.43.0

