From 12abf1ca3cb8f522be4c86b706f8a2dfd8c0a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 01/76] fix: count the co-occurrences of the last words of
 documents not longer than the right span

When a document had at most right-span lines, process_right_window() stopped after
right_span window moves in total, so the last word(s) of the document were never
processed as targets.
---
 nephosem/models/typetoken.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index b16b9de..9f89413 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -433,10 +433,9 @@ class ColFreqHandler(BaseHandler):
             while win.node is None and i < win.right_span:
                 win.update(None)
                 i += 1
-            while win.node and i < win.right_span:
+            while win.node:
                 self.update_one_match(matrix, win)
                 win.update(None)
-                i += 1
             return
 
         # normal cases:
-- 
2.43.0


From 16d61bdf95471025462ac90c9b92ac64c8ed3113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 02/76] fix: retrieve tokens with a right span of 0

process_right_window() read the last element of an empty right window, which killed
the worker process.
---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 9f89413..350d2d1 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -623,7 +623,7 @@ class TokenHandler(BaseHandler):
         # handle special cases:
         # [None, ..., None] None [None, .., match, match, .., match]
         # TODO: check                                           ^ must be not None???
-        if win.node is None and win.right[-1] is not None:
+        if win.node is None and win.right_span > 0 and win.right[-1] is not None:
             # update at most right_span times
             while win.node is None:
                 win.update(None)
-- 
2.43.0


From 8d0ce71ed673f4c2bd27aa7c117df9a9515e473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:24 +0000
Subject: [PATCH 03/76] fix: merge the tokens of all workers

The parent read as many results as there are files, but the result queue contains one
dict per worker plus one indicator for each file of a worker but its first. With more
than one worker the dicts of some workers (and their tokens) could be left unread.
---
 nephosem/models/typetoken.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 350d2d1..c50243e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -643,7 +643,8 @@ class TokenHandler(BaseHandler):
         type2toks = defaultdict(list)
         logger.info("Merging results")
 
-        for _ in trange(n):
+        # every worker sends one dict and its progress indicators (-1)
+        for _ in trange(res_queue.qsize()):
             res = res_queue.get()
             # when data in res_queue is a `type2toks` dict
             if isinstance(res, dict):
-- 
2.43.0


From cfdf1b21dbac1c27a1552b8a15f4e3a0b49171ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:33 +0000
Subject: [PATCH 04/76] fix: match pattern nodes and edges without attributes

match_node() and match_edge() return an empty dict, not None, for a
pattern node or edge without attributes; it was taken for a mismatch.
---
 nephosem/specutils/deputils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index e00daba..cab851b 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -183,7 +183,7 @@ def tree_match(sentence, macro):
 
     # iterate over each sentence node that matches the root of the feature
     for v, vitem in sentence.nodes:
-        if not macro.match_node(vitem, idx=froot):
+        if macro.match_node(vitem, idx=froot) is None:
             continue
         mapping = {froot: v}  # mapping of the first level
         # recursively match the sentence with the feature from this node
@@ -346,7 +346,7 @@ def match_successors(sentence, scur, pattern, fcur):
                 vmatched = pattern.match_node(vitem, idx=fsuc)
                 ematched = pattern.match_edge(eitem, idx=(fcur, fsuc))
                 # if not matched, the returned vmatched or ematched should be None
-                if vmatched and ematched:
+                if vmatched is not None and ematched is not None:
                     msuccs.append(ssuc)
             # TODO: check for symmetry
             if len(msuccs) > 0:
-- 
2.43.0


From 466fe0d8cb28c92a6f1727e1b3ed6892a48a439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 05/76] fix: count all matches when no targets are given

Without a target list (or filter) an empty vocabulary was used as the
filter, so that no match at all passed.
---
 nephosem/core/graph.py    | 2 +-
 nephosem/models/deprel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e09e67a..fb55f56 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -612,7 +612,7 @@ class MacroGraph(PatternGraph):
     """
     connector = '/'
 
-    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter={}, feature_filter={}):
+    def __init__(self, pattern, target_idx=-1, feature_idx=-1, target_filter=None, feature_filter={}):
         """
 
         Parameters
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 0fa64e8..f38ebe8 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -54,7 +54,7 @@ class DepRelHandler(BaseHandler):
             else:
                 raise AttributeError("The `targets` should be a list of string or a `Vocab` object!")
         else:
-            self.targets = Vocab()
+            self.targets = None
         self.mode = mode
         # normally, we don't set features previously
         self.macros = []
-- 
2.43.0


From aa929a9c8f18015eeae9afe9d35cd45ed30b908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 06/76] fix: skip empty sentences when reading a dependency
 corpus

Two successive separator lines (or one at the start of a file) made an
empty sentence, which SentenceGraph rejects: the worker died and the
parent waited for its result for ever.
---
 nephosem/models/deprel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index f38ebe8..b7dee3a 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -301,7 +301,8 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
                 sentence.append((lid, line))  # add line index
             # if line.startswith(end_bound):  # end of a sentence
             if formatter.separator_line_machine(line):
-                yield sentence
+                if len(sentence) > 0:  # there is nothing between two successive boundaries
+                    yield sentence
                 sentence = []
         if len(sentence) > 0:  # if file does not end with a '</s' line
             yield sentence
-- 
2.43.0


From bf819f32adbba04295fbc983e8df5194f125fdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 07/76] fix: keep the whole relation of a target among siblings
 in features

Relations may contain a colon (nsubj:pass); only the part before it was
kept for the target, unlike for any other node.
---
 nephosem/core/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index fb55f56..c77a2b0 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -730,13 +730,13 @@ class MacroGraph(PatternGraph):
                 edge_repr = self.get_edge_repr((curr, succ), edge_attrs)
                 node_attrs = node_dict[succ]
                 node_repr = self.get_node_repr(succ, node_attrs)
-                succs.append((succ, ':'.join([edge_repr, node_repr])))
+                succs.append((succ, ':'.join([edge_repr, node_repr]), edge_repr))
             # sort the representations
             succs = sorted(succs, key=operator.itemgetter(1))
-            for succ, srepr in succs:
+            for succ, srepr, edge_repr in succs:
                 if succ == self.target_idx:
                     # replace the target node repr by '#T#'
-                    reprs.append(':'.join([srepr.split(':')[0], '#T#']))
+                    reprs.append(':'.join([edge_repr, '#T#']))
                 else:
                     reprs.append(srepr)
                 self.preorder_recur(node_dict, edge_dict, curr=succ, reprs=reprs)
-- 
2.43.0


From ab9011b77191d57c8d875720161c84986edfb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:54 +0000
Subject: [PATCH 08/76] fix: apply the default attributes of edges to edges

The default of an edge attribute was given to the nodes, which then
never matched (KeyError), and not to the edges.
---
 nephosem/core/graph.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index c77a2b0..d9db4eb 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -572,21 +572,29 @@ class PatternGraph(DiGraph):
 
         doc = minidom.parse(fname)
         attrs = doc.getElementsByTagName('key')
-        defaults = {}
+        node_defaults, edge_defaults = {}, {}
         for attr in attrs:
             attrname = attr.attributes['attr.name'].value
+            domain = attr.getAttribute('for') or 'all'  # elements which have this attribute
             try:
-                default = attr.getElementsByTagName('default')[0]
-                defaults[attrname] = default.childNodes[0].data
+                default = attr.getElementsByTagName('default')[0].childNodes[0].data
             except:
-                pass
+                continue
+            if domain in ('node', 'all'):
+                node_defaults[attrname] = default
+            if domain in ('edge', 'all'):
+                edge_defaults[attrname] = default
 
         patterns = []
         for gmlstring in graphs:
             g = nx.parse_graphml(graphml_string=gmlstring, node_type=int)
             # add default attribute values
             for n, attrs in g.nodes(data=True):
-                for attr, val in defaults.items():
+                for attr, val in node_defaults.items():
+                    if attr not in attrs:
+                        attrs[attr] = val
+            for _from, _to, attrs in g.edges(data=True):
+                for attr, val in edge_defaults.items():
                     if attr not in attrs:
                         attrs[attr] = val
 
-- 
2.43.0


From e585386dd5366936469ebfc675a48c4b8900da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 09/76] fix: read macros from a table

MacroGraph.read_csv passed an argument that the constructor does not have.
---
 nephosem/core/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index d9db4eb..cf76263 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -901,7 +901,7 @@ class MacroGraph(PatternGraph):
         templates = PatternGraph.read_csv(fname, target_colname=target_colname, feature_colname=feature_colname,
                                           sep=sep, header=header, **kwargs)
         # target node index is always 1
-        features = [cls(tplt, target=1) for tplt in templates]
+        features = [cls(tplt, target_idx=1) for tplt in templates]
         return features
 
     @classmethod
-- 
2.43.0


From 8d5c5e77c9aeb2e41d27a375a20cf73e49111d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 10/76] fix: choose a temporary directory when neither path is
 set

Settings without 'tmp-path' and 'output-path' raised a KeyError, as the
test for 'output-path' was inverted with regard to the comments and the
messages.
---
 nephosem/core/handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 616e9a0..c34092d 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -255,8 +255,8 @@ class BaseHandler(Paralleler):
         if 'tmp-path' not in self.settings:
             # if 'tmp-path' is not set in the settings
             logger.warning("Not provide the temporary path!")
-            if 'output-path' not in self.settings:
-                # if 'output-path' is not set in the settings, use /output-path/tmp
+            if 'output-path' in self.settings:
+                # if 'output-path' is set in the settings, use /output-path/tmp
                 _tmpdir = os.path.join(self.settings['output-path'], 'tmp')
                 logger.warning("Use a sub tmp directory of the output-path: '/output-path/tmp'!")
             else:
-- 
2.43.0


From bf3a426c254a78dbe043a1ea3b18ec80b2ef729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:32 +0000
Subject: [PATCH 11/76] fix: pass the corpus directory and the encoding when
 reading a list of file names

The encoding was passed as the directory: names without directory were
looked up in a directory called like the encoding, and lists were always
read as utf-8.
---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index c34092d..6efc292 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -291,7 +291,7 @@ class BaseHandler(Paralleler):
                 pass  # do nothing, already a list of (string) file names
             elif isinstance(fnames, str):
                 # read file names recorded in the `fnames` ('xx.fnames') file
-                fnames = read_fnames(fnames, self.encoding)
+                fnames = read_fnames(fnames, dirname=self.corpus_path, encoding=self.encoding)
             else:
                 raise ValueError("Not support other types of 'fnames' (only str or a list of strings)!")
         if len(fnames) <= 0:
-- 
2.43.0


From 3d409420057276603f62691b1eb17a8d91568b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:34 +0000
Subject: [PATCH 12/76] fix: load every item and frequency of a plain
 vocabulary file

Items with other line separators (U+0085, U+2028, form feed) were cut,
items that are empty or start or end with a space were changed or lost,
and frequencies in exponent notation (1e+16) raised an error.
---
 nephosem/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index ad8cd8c..8cb8875 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -25,6 +25,7 @@ try:
 except ImportError:
     import pickle as _pickle
 
+import io
 import os
 import sys
 import time
@@ -262,12 +263,16 @@ def load_dict_plain(filename, encoding='utf-8'):
     One word per line ( word[TAB]freq )
     """
     res_dict = dict()
-    with codecs.open(filename, 'r', encoding) as fin:
+    # lines end with a newline only: an item may contain other separators and start or end with spaces
+    with io.open(filename, 'r', encoding=encoding, newline='\n') as fin:
         for line in fin:
-            pair = line.strip().split('\t')
+            pair = line.rstrip('\r\n').split('\t')
             if len(pair) < 2:
                 continue
-            res_dict[pair[0]] = float(pair[1]) if '.' in pair[1] else int(pair[1])
+            try:
+                res_dict[pair[0]] = int(pair[1])
+            except ValueError:  # 0.5, 1e+16
+                res_dict[pair[0]] = float(pair[1])
     return res_dict
 
 
-- 
2.43.0


From b546d117b354432cdde4709c2095aa10641023fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 13/76] fix: keep sparse matrices in csr format

Concatenated (coo) matrices could not be indexed; transposed (csc) ones were
saved and merged as if they were csr.
---
 nephosem/core/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 9ee1bf9..55fca1f 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -688,6 +688,8 @@ class TypeTokenMatrix(BaseMatrix):
         self._item2colid = None
 
         if isinstance(self.matrix, sp.spmatrix):
+            # the methods of sparse matrices rely on the csr format
+            self.matrix = self.matrix.tocsr()
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
             if check_symmetric(self.matrix):
-- 
2.43.0


From b2d3e89b2f5ff771fadf8cfd4c4e8de6943e2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 14/76] fix: accept symmetric values under different row and
 column labels

Selecting or transposing a dense matrix failed when the values happened to
be symmetric (a single cell, zeros).
---
 nephosem/core/matrix.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 55fca1f..30b01cc 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -692,9 +692,7 @@ class TypeTokenMatrix(BaseMatrix):
             self.matrix = self.matrix.tocsr()
             self._mxbehavior = SparseMatrix(self.matrix)
         elif isinstance(self.matrix, np.ndarray):
-            if check_symmetric(self.matrix):
-                if self.row_items != self.col_items:
-                    raise ValueError("The row items and column items are not equal!")
+            if self.row_items == self.col_items and check_symmetric(self.matrix):
                 self._mxbehavior = SquareMatrix(self.matrix)
             else:
                 self._mxbehavior = NormalMatrix(self.matrix)
-- 
2.43.0


From d1c428878ac234fc2297f54668ff3b25f9684909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 15/76] fix: select only rows or only columns of a square
 matrix

Sampling the rows of a distance matrix failed.
---
 nephosem/core/matrix.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 30b01cc..7068a1c 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -593,8 +593,11 @@ class SquareMatrix(BaseMatrix):
         -------
 
         """
-        submx = self.matrix[row]
-        submx = submx[:, col]
+        submx = self.matrix
+        if row is not None:
+            submx = submx[row]
+        if col is not None:
+            submx = submx[:, col]
         return submx
 
     def merge(self, *args):
-- 
2.43.0


From 0f4c0c2c66357448852ec97b3b3f415217837011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 16/76] fix: sum and count matrices of one row or one column

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 7068a1c..32bfe76 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -868,7 +868,7 @@ class TypeTokenMatrix(BaseMatrix):
             return self.matrix.sum()
         items = self.row_items if axis == 1 else self.col_items
         # sum of each rows / columns of matrix (normally collocate frequency matrix)
-        sums = np.squeeze(np.asarray(self.matrix.sum(axis=axis))).tolist()
+        sums = np.asarray(self.matrix.sum(axis=axis)).ravel().tolist()
         freq_dict = {k: v for k, v in zip(items, sums)}
         return freq_dict
 
@@ -1129,7 +1129,7 @@ class TypeTokenMatrix(BaseMatrix):
     def count_nonzero(self, axis=0):
         """Count the number of nonzero values for each row or each column."""
         nonzeros = (self.matrix != 0).sum(axis=(1-axis))
-        nonzeros = np.squeeze(np.asarray(nonzeros))
+        nonzeros = np.asarray(nonzeros).ravel()
         return nonzeros
 
     def drop(self, axis=0, n_nonzero=0, **kwargs):
-- 
2.43.0


From 05b0979feeb3a541c3886af12c6fbbe5a48d8872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 17/76] fix: drop empty columns when all columns are empty

---
 nephosem/core/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 32bfe76..6ff464c 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1122,6 +1122,8 @@ class TypeTokenMatrix(BaseMatrix):
         elif axis == 1:
             tmx = self.transpose()
             dropped_tmx = tmx.drop_empty_rows(explicit=explicit)
+            if dropped_tmx is None:  # all columns are empty
+                return None
             return dropped_tmx.transpose()
         else:
             raise ValueError("axis should be 0 or 1!")
-- 
2.43.0


From 9e7a2f14d3af71599580fe923e406f935be48744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 18/76] fix: multiply cell-wise when zeros are stored or one
 matrix is dense

With stored zeros the values of the other matrix were ignored, and nothing in
common raised an error; dense times sparse was a matrix product.
---
 nephosem/core/matrix.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 6ff464c..3687479 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -190,21 +190,22 @@ class SparseMatrix(BaseMatrix):
         if nonzeros > 0:  # sparse matrix has zero values
             coomx = self.matrix.tocoo(copy=True)
             row, col, data = coomx.row, coomx.col, coomx.data
-            othercoo = other.tocoo(copy=True)
-            mask_pairs = {(r, c) for r, c in zip(othercoo.row, othercoo.col)}
+            othercoo = sp.coo_matrix(other)
+            mask_pairs = {(r, c): v for r, c, v in zip(othercoo.row, othercoo.col, othercoo.data)}
             masked_row, masked_col, masked_data = [], [], []
             for r, c, d in zip(row, col, data):
                 if (r, c) in mask_pairs:
                     masked_row.append(r)
                     masked_col.append(c)
-                    masked_data.append(d)
-            masked_row, masked_col, masked_data = np.array(masked_row), np.array(masked_col), np.array(masked_data)
+                    masked_data.append(d * mask_pairs[r, c])
+            masked_row, masked_col = np.array(masked_row, dtype=int), np.array(masked_col, dtype=int)
+            masked_data = np.array(masked_data, dtype=np.result_type(data, othercoo.data))
             masked_mtx = sp.csr_matrix(
                             (masked_data, (masked_row, masked_col)),
                             shape=self.matrix.shape)
             return masked_mtx
         else:
-            return self.matrix.multiply(other)
+            return self.matrix.multiply(other).tocsr()
 
     def __lt__(self, other):
         if other <= 0.0:
@@ -464,6 +465,8 @@ class NormalMatrix(BaseMatrix):
         return self.matrix[arg]
 
     def multiply(self, other):
+        if isinstance(other, sp.spmatrix):
+            other = other.toarray()
         return self.matrix * other
 
     def __lt__(self, other):
-- 
2.43.0


From 90837ce64e0c1a06e514048f7f7ecd52a2840b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 19/76] fix: export and import data frames with current pandas
 versions

---
 nephosem/core/matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 3687479..7b09cfb 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -152,7 +152,7 @@ class SparseMatrix(BaseMatrix):
 
     @property
     def dataframe(self):
-        return pd.SparseDataFrame(self.matrix).to_dense()
+        return pd.DataFrame(self.matrix.toarray())
 
     def __getitem__(self, arg):
         return self._get_value(arg)
@@ -1316,7 +1316,7 @@ class TypeTokenMatrix(BaseMatrix):
     def from_dataframe(cls, df, issparse=True):
         row_items = df.index.tolist()
         col_items = df.columns.tolist()
-        mx = df.as_matrix()
+        mx = df.values
         if issparse:
             mx = sp.csr_matrix(mx)
         return cls(mx, row_items, col_items)
-- 
2.43.0


From d5214f079034770e5035f60781d1d538ca81475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 20/76] fix: choose the type of all values when converting a
 dict to a matrix

All values and indices were cast to the type of the first value: fractions
were cut off after an integer, indices wrapped for booleans and small types.
---
 nephosem/specutils/mxutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nephosem/specutils/mxutils.py b/nephosem/specutils/mxutils.py
index 78a7240..bb5246a 100644
--- a/nephosem/specutils/mxutils.py
+++ b/nephosem/specutils/mxutils.py
@@ -71,7 +71,6 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
             data.append(value)
     if len(data) == 0:
         raise ValueError("Error: the input matrix is empty!!!")
-    dt = type(data[0])
     ''' TODO: check data types
     dtypes = {
         int: np.int32,
@@ -87,9 +86,9 @@ def transform_dict_to_spmatrix(dict_mtx, rowid2item, colid2item, verbose=False):
     col = np.array(col, dtype=dtypes[dt])
     data = np.array(data, dtype=dtypes[dt])
     '''
-    row = np.array(row, dtype=dt)
-    col = np.array(col, dtype=dt)
-    data = np.array(data, dtype=dt)
+    row = np.array(row, dtype=int)
+    col = np.array(col, dtype=int)
+    data = np.array(data)  # common type of all values
 
     nEles = len(data)
     if verbose:
-- 
2.43.0


From cec8d999b5fa11876ea156b70d53ed28b517c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 21/76] fix: name error in spmatrix_to_dict

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 7b09cfb..6d0d1a6 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1508,4 +1508,4 @@ class TypeTokenMatrix(BaseMatrix):
 
     def spmatrix_to_dict(self):
         """Only for sparse matrix"""
-        return transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
+        return mxutils.transform_spmatrix_to_dict(self.matrix, self.row_items, self.col_items)
-- 
2.43.0


From 989345884df64939a562d7215a425e4211ce2621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:36 +0000
Subject: [PATCH 22/76] fix: keep packed and unpacked matrix files apart

Saving or loading a package overwrote and removed the unpacked files of the
same name, a load preferred the sparse values of an older matrix to the dense
values saved last, and unpacked names ending in .pac could not be loaded.
---
 nephosem/core/matrix.py | 47 ++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 6d0d1a6..d093124 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -38,6 +38,8 @@ import codecs
 import json
 import logging
 import os
+import shutil
+import tempfile
 import zipfile
 
 import random
@@ -1339,6 +1341,18 @@ class TypeTokenMatrix(BaseMatrix):
             # filename: '/xxx/BrownNouns.wcmx.freq'
             basename = filename
 
+        if pack:
+            # write the packed files in a directory of their own,
+            # files next to the package may belong to another (unpacked) matrix
+            work_dir = tempfile.mkdtemp(dir=os.path.dirname(os.path.abspath(filename)))
+            basename = os.path.join(work_dir, os.path.basename(basename))
+        try:
+            self._save_files(filename, basename, meta_data, encoding, pack, verbose)
+        finally:
+            if pack:
+                shutil.rmtree(work_dir)
+
+    def _save_files(self, filename, basename, meta_data, encoding, pack, verbose):
         meta_fname = "{}.meta".format(basename)
         if verbose:
             logger.info("\nSaving matrix...")
@@ -1348,25 +1362,25 @@ class TypeTokenMatrix(BaseMatrix):
             json.dump(meta_data, outf, ensure_ascii=False, indent=4)
 
         if isinstance(self.matrix, sp.spmatrix):
-            mx_fname = "{}.npz".format(basename)
+            mx_fname, other_fname = "{}.npz".format(basename), "{}.npy".format(basename)
             np.savez(mx_fname,
                      data=self.matrix.data,
                      indices=self.matrix.indices,
                      indptr=self.matrix.indptr,
                      shape=self.matrix.shape)
         elif isinstance(self.matrix, np.ndarray):
-            mx_fname = "{}.npy".format(basename)
+            mx_fname, other_fname = "{}.npy".format(basename), "{}.npz".format(basename)
             np.save(mx_fname, self.matrix)
         else:
             raise ValueError
+        if os.path.exists(other_fname):  # of a matrix saved under this name before
+            os.remove(other_fname)
 
         # package these two files into one named as filename
         if pack:
             with zipfile.ZipFile(filename, 'w', allowZip64=True) as inf:
                 inf.write(meta_fname, os.path.basename(meta_fname))
                 inf.write(mx_fname, os.path.basename(mx_fname))
-            os.remove(meta_fname)
-            os.remove(mx_fname)
             if verbose:
                 print("Stored in file:\n  {}".format(filename))
         else:
@@ -1390,14 +1404,22 @@ class TypeTokenMatrix(BaseMatrix):
 
         """
         basename, ext = os.path.splitext(filename)
-        if ext != '.pac':
+        if not pack or ext != '.pac':
             basename = filename
-        if pack:
-            zip_fname = "{}.pac".format(basename)
-            dest_dir = os.path.dirname(zip_fname)
-            with zipfile.ZipFile(zip_fname) as zf:
-                zf.extractall(dest_dir)
+        if not pack:
+            return cls._load_files(basename, encoding)
+        # do not unpack next to the package, see `save`
+        work_dir = tempfile.mkdtemp()
+        try:
+            with zipfile.ZipFile("{}.pac".format(basename)) as zf:
+                zf.extractall(work_dir)
+                meta_member = [name for name in zf.namelist() if name.endswith('.meta')][0]
+            return cls._load_files(os.path.join(work_dir, meta_member[:-len('.meta')]), encoding)
+        finally:
+            shutil.rmtree(work_dir)
 
+    @classmethod
+    def _load_files(cls, basename, encoding):
         meta_fname = "{}.meta".format(basename)
         sp_fname = "{}.npz".format(basename)
         np_fname = "{}.npy".format(basename)
@@ -1422,11 +1444,6 @@ class TypeTokenMatrix(BaseMatrix):
         if issparse:
             matrix = sp.csr_matrix((matrix['data'], matrix['indices'], matrix['indptr']), shape=matrix['shape'])
 
-        # clean files
-        if pack:
-            os.remove(meta_fname)
-            os.remove(mx_fname)
-
         return TypeTokenMatrix(matrix, meta_data['row_items'], meta_data['col_items'], deep=False)
 
     def describe(self):
-- 
2.43.0


From d92420276f330d0cf96ebf7c98c983ada43716ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 23/76] fix: compute association scores without given marginals

The defaults of the marginals and of the total were used before they were
computed, and matrices of one row or one column failed.
---
 nephosem/specutils/mxcalc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 5f52e36..c7caad7 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -42,18 +42,18 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
     """This method is faster than `compute_association()`.
     Set positive to False to get pmi values.
     """
-    tot_sum = float(nfreq.sum())
     freqmx = freqMTX.matrix
+    tot_sum = float(freqmx.sum() if nfreq is None else nfreq.sum())
     # select frequencies of row items / column items of freqMTX
     # from nfreq and cfreq
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
 
@@ -155,17 +155,17 @@ def calc_association(freqmx, nfreq=None, cfreq=None, N=None, meas='ppmi'):
     # we are calculating on a subset of the complete matrix
     if nfreq is None:
         # sum of each rows of freqmx (size = row-size)
-        row_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=1))).astype(np.float64)
+        row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
         row_sum_vec = np.array(nfreq) if isinstance(nfreq, list) else nfreq
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
-        col_sum_vec = np.squeeze(np.asarray(freqmx.sum(axis=0))).astype(np.float64)
+        col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
         col_sum_vec = np.array(cfreq) if isinstance(cfreq, list) else cfreq
 
     # tot_sum = float(row_sum_vec.sum())
-    tot_sum = N  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
+    tot_sum = N if N else max(row_sum_vec.sum(), col_sum_vec.sum())  # total frequency, row_sum_vec.sum() should be equal to col_sum_vec.sum()
     freqmx = freqmx.tocoo()  # transform to COOrdinate format, for easier usage
     row = freqmx.row  # -> stores row indices of values in csr_matrix
     col = freqmx.col  # -> stores column indices of values in csr_matrix
-- 
2.43.0


From 332b37266436f6b4ef4fed09c343014822328b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 24/76] fix: accept 'cos' as the name of the cosine distance

---
 nephosem/specutils/mxcalc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index c7caad7..332947b 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -387,6 +387,8 @@ def compute_distance(measMTX, axis=0, metric='cosine'):
 
 def calc_distance(measmx, metric='cosine'):
     """Call sklearn.metrics.pairwise_distances function to calculate distance matrix."""
+    if metric == 'cos':  # alias, unknown to sklearn
+        metric = 'cosine'
     distmx = pairwise_distances(measmx, metric=metric)
     return distmx
 
-- 
2.43.0


From 0bd82254480cbca7d0df294a0265b91577934b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 25/76] fix: booleanize token positions with numpy versions
 without np.bool

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 332947b..09f84a5 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -508,7 +508,7 @@ def compute_token_weights(tcPositionMTX, twMTX, booleanize = True, tokenFormat='
     missing_types = []
     tokens = tcPositionMTX.row_items
     types = set(twMTX.row_items)  # set of target types
-    tcmx_type = np.bool if booleanize else tcPositionMTX.matrix.dtype
+    tcmx_type = bool if booleanize else tcPositionMTX.matrix.dtype
     bool_tcmx = tcPositionMTX.matrix.astype(tcmx_type, copy=True).toarray()
     twmx = twMTX.matrix.toarray()  # transform to dense matrix (numpy.ndarray)
     resmx = np.zeros(bool_tcmx.shape)
-- 
2.43.0


From 5c7a4ed10b084782e6584ff114e7b7569748fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 26/76] fix: skip zeros, not non-zero values, when multiplying
 token vectors

---
 nephosem/specutils/mxcalc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 09f84a5..7d351bc 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -617,7 +617,7 @@ def dot_multiplication(mtx_l, mtx_r):
     for i in range(m):
         for k in range(n):
             for j in range(mtx_l.shape[1]):
-                if mtx_l[i, j] == 0.0 or mtx_r[j, k]:
+                if mtx_l[i, j] == 0.0 or mtx_r[j, k] == 0.0:
                     continue
                 product_mtx[i, k] *= mtx_l[i, j] * mtx_r[j, k]
     return product_mtx
-- 
2.43.0


From fa4beaf27545ee5959a8071af8ca95bb4862379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:20 +0000
Subject: [PATCH 27/76] fix: return k most similar items when others are as
 near as the item itself

---
 nephosem/core/matrix.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index d093124..57a51bb 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -644,12 +644,14 @@ class SquareMatrix(BaseMatrix):
         a list of elements
 
         """
-        row = self.matrix[rid]
+        # the item itself is not always among the k+1 nearest ones (ties)
+        others = np.delete(np.arange(self.matrix.shape[0]), rid)
+        row = self.matrix[rid][others]
         if descending:  # for similarity matrix
-            idx = mxutils.get_largest_k(row, k+1)
+            idx = mxutils.get_largest_k(row, k)
         else:
-            idx = mxutils.get_smallest_k(row, k+1)
-        return idx
+            idx = mxutils.get_smallest_k(row, k)
+        return others[idx]
 
 
 class TypeTokenMatrix(BaseMatrix):
-- 
2.43.0


From 5a57ad2d057cc3da9af4cfc263c8777b9456c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 28/76] fix: accept settings with only one of the two names of
 the single boundary machine

---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index ce1679a..9de4c26 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -586,9 +586,9 @@ class CorpusFormatter(object):
 
         self.bound_mech = settings['boundary-detection-mechanism']
         if self.bound_mech == 'single':
-            if 'single-boundary-machine' in settings:
+            if 'separator-line-machine' in settings:
                 self._single_bound_machine = re.compile(settings['separator-line-machine'])
-            elif 'separator-line-machine' in settings:
+            elif 'single-boundary-machine' in settings:
                 self._single_bound_machine = re.compile(settings['single-boundary-machine'])
             else:
                 raise KeyError("You have set single boundary mechanism, "
-- 
2.43.0


From 0c4fcdd12e12284bf77a9921c466662e233c7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 29/76] fix: sample the tokens of a type node

The format of the node is its attribute `format`; `type_fmt` is not set for
nodes made of strings. Samples larger than the node raised an error.
---
 nephosem/core/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index 9de4c26..f4ed48a 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -253,12 +253,12 @@ class TypeNode(ItemNode):
         A new TypeNode object
         """
         if method == 'random':
-            sample_indices = set(random.sample(range(self.freq), n))
+            sample_indices = set(random.sample(range(self.freq), min(n, self.freq)))
             sample_tokens = [h for i, h in enumerate(self.tokens) if i in sample_indices]
         else:  # RETRIEVAL_METHOD_FIRST assumed
             sample_tokens = self.tokens[:n]
 
-        wn = TypeNode(type_str=self.type, type_fmt=self.type_fmt, tokens=sample_tokens)
+        wn = TypeNode(type_str=self.type, type_fmt=self.format, tokens=sample_tokens)
         return wn
 
     @classmethod
-- 
2.43.0


From c79bcc95f3ea7d25844e4f39db751d0e98c38195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:49 +0000
Subject: [PATCH 30/76] fix: load saved type nodes

The constructors were called with the arguments of an older version.
---
 nephosem/core/terms.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/terms.py b/nephosem/core/terms.py
index f4ed48a..2cd27ae 100644
--- a/nephosem/core/terms.py
+++ b/nephosem/core/terms.py
@@ -223,8 +223,10 @@ class TypeNode(ItemNode):
         if verbose:
             print("Saving tokens of {}/{}".format(self.lemma, self.pos))
         data = dict()
+        data['word'] = self.word
         data['lemma'] = self.lemma
         data['pos'] = self.pos
+        data['format'] = self.format
         data['tokens'] = [tok.json_data for tok in self.tokens]
         with codecs.open(filename, 'w', encoding=encoding) as outf:
             json.dump(data, outf, indent=4)
@@ -236,7 +238,8 @@ class TypeNode(ItemNode):
         with codecs.open(filename, 'r', encoding=encoding) as inf:
             data = json.load(inf)
         tokens = [TokenNode.gen_token_from_json_data(tok) for tok in data['tokens']]
-        return cls(data['lemma'], data['pos'], tokens=tokens)
+        return cls(word=data.get('word'), lemma=data['lemma'], pos=data['pos'],
+                   type_fmt=data.get('format', 'lemma/pos'), tokens=tokens)
 
     def sample(self, n=300, method='random'):
         """Select n tokens/appearances from all.
@@ -388,6 +391,7 @@ class TokenNode(ItemNode):
         data['lemma'] = self.lemma
         data['fid'] = self.fid
         data['lid'] = self.lid
+        data['format'] = self.format
         # data['token'] = self.connector.join([self.word, self.pos, self.fid, str(self.lid)])
         data['left-collocates'] = [str(it) for it in self.lcollocs]
         data['right-collocates'] = [str(it) for it in self.rcollocs]
@@ -400,9 +404,13 @@ class TokenNode(ItemNode):
         lemma = json_data['lemma']
         fid = json_data['fid']
         lid = json_data['lid']
-        lcollocs = [ItemNode(item=col.split('\t')) for col in json_data['left-collocates']]
-        rcollocs = [ItemNode(item=col.split('\t')) for col in json_data['right-collocates']]
-        return cls(word, pos, lemma, fid, lid, lcollocs=lcollocs, rcollocs=rcollocs)
+        # see `ItemNode.__str__()`
+        columns = ('word', 'pos', 'lemma')
+        lcollocs = [ItemNode(**dict(zip(columns, col.split('\t')))) for col in json_data['left-collocates']]
+        rcollocs = [ItemNode(**dict(zip(columns, col.split('\t')))) for col in json_data['right-collocates']]
+        return cls(word=word, pos=pos, lemma=lemma, fid=fid, lid=lid,
+                   token_fmt=json_data.get('format', 'word/pos/fid/lid'),
+                   lcollocs=lcollocs, rcollocs=rcollocs)
 
     def __str__(self):
         return self.token
-- 
2.43.0


From c159dab1ae9cf978c135629162464b10420b19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:34 +0000
Subject: [PATCH 31/76] fix: a pattern with a node of four or more neighbours
 is not linear

---
 nephosem/core/graph.py   | 2 +-
 nephosem/deprel/basic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index cf76263..e1a1465 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -445,7 +445,7 @@ class PatternGraph(DiGraph):
             # if digx.in_degree(nxt) == 2:  # a dependent cannot have two heads
             #     return False
             # the two header nodes have one degree, the others have two degree
-            if len(neighbors) == 3:
+            if len(neighbors) >= 3:
                 return False
             if len(neighbors) == 1:  # reach the other header
                 break
diff --git a/nephosem/deprel/basic.py b/nephosem/deprel/basic.py
index 8fa3852..d544947 100644
--- a/nephosem/deprel/basic.py
+++ b/nephosem/deprel/basic.py
@@ -464,7 +464,7 @@ class TemplateGraph(DiGraph):
             # if digx.in_degree(nxt) == 2:  # a dependent cannot have two heads
             #     return False
             # the two header nodes have one degree, the others have two degree
-            if len(neighbors) == 3:
+            if len(neighbors) >= 3:
                 return False
             if len(neighbors) == 1:  # reach the other header
                 break
-- 
2.43.0


From f5dd84326e83a7252011840e0c915fc1433f7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:34 +0000
Subject: [PATCH 32/76] fix: arrow notation of patterns: keep custom arrows,
 split lists of nodes at their own commas only, allow a blank after an inner
 arrow

---
 nephosem/specutils/deputils.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index cab851b..d67f539 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -54,6 +54,24 @@ def find_arrow(s, start, larrow='<-', rarrow='->'):
     return len(s)
 
 
+def split_nodes(s):
+    """Split a list of nodes at its commas, but not at those of the lists inside it"""
+    nodes, depth, begin, i = [], 0, 0, 0
+    while i < len(s):
+        if s[i] == '\\':  # an escaped character of a regex
+            i += 1
+        elif s[i] == '[':
+            depth += 1
+        elif s[i] == ']':
+            depth -= 1
+        elif s[i] == ',' and depth == 0:
+            nodes.append(s[begin:i])
+            begin = i + 1
+        i += 1
+    nodes.append(s[begin:])
+    return nodes
+
+
 def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
               larrow='<-', rarrow='->'):
     if len(subfeature.strip()) <= 0:
@@ -63,15 +81,12 @@ def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
     # the sub-feature would be either a list of nodes or a sub-tree
     if subfeature[0] == '[' and subfeature[-1] == ']':
         # list of nodes: [(acomp) (\w+)/(JJ) , (nsubj) (\w+)/(N)\w*]
-        next_nodes = subfeature[1:-1].split(',')
-        next_nodes = [n.strip() for n in next_nodes]
-        for node in next_nodes:
-            node = node.strip()
-            parse_sub(prev_nid, node, arrow, node_dict, edge_dict)
+        for node in split_nodes(subfeature[1:-1]):
+            parse_sub(prev_nid, node.strip(), arrow, node_dict, edge_dict, larrow, rarrow)
     else:
         # sub-tree: (nsubj) (\w+)/(V)\w* >[(prep) (\w+)/(IN) >[(pobj) (\w+)/(N)\w*]]
         # 1. fetch dependency relation and the next node
-        arrow_idx = find_arrow(subfeature, 0)  # the next arrow index
+        arrow_idx = find_arrow(subfeature, 0, larrow, rarrow)  # the next arrow index
         next_node = subfeature[:arrow_idx].strip()
         rel, next_node = next_node.split(' ', 1)
         rel = rel.strip(); next_node = next_node.strip()
@@ -90,7 +105,7 @@ def parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict,
             return
         else:
             next_arrow = subfeature[arrow_idx:arrow_idx+arrow_len]
-            parse_sub(next_nid, subfeature[arrow_idx+arrow_len:], next_arrow, node_dict, edge_dict)
+            parse_sub(next_nid, subfeature[arrow_idx+arrow_len:].strip(), next_arrow, node_dict, edge_dict, larrow, rarrow)
 
 
 def parse_pattern(target, feature, larrow='<-', rarrow='->'):
@@ -113,7 +128,7 @@ def parse_pattern(target, feature, larrow='<-', rarrow='->'):
     arrow_len = len(larrow)
     arrow = feature[:arrow_len]  # first character is an arrow '<' or '>'
     subfeature = feature[arrow_len:].strip()  # rest feature
-    parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict)
+    parse_sub(prev_nid, subfeature, arrow, node_dict, edge_dict, larrow, rarrow)
 
     return node_dict, edge_dict
 
-- 
2.43.0


From bc8764f9e3e0a9aa908c285b008470a363f5cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 33/76] fix: load separately stored arrays of objects

---
 nephosem/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 8cb8875..e7fde1b 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -556,9 +556,9 @@ class SaveLoad(object):
                 if mmap:
                     raise mmap_error(attrib, subname(fname, attrib))
 
-                val = np.load(subname(fname, attrib))['val']
+                val = np.load(subname(fname, attrib), allow_pickle=True)['val']
             else:
-                val = np.load(subname(fname, attrib), mmap_mode=mmap)
+                val = np.load(subname(fname, attrib), mmap_mode=mmap, allow_pickle=True)
 
             setattr(self, attrib, val)
 
-- 
2.43.0


From 419d288703faf31d5c14cab2800da2019fef9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 34/76] fix: separately stored zero-dimensional arrays keep
 their shape

---
 nephosem/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index e7fde1b..400ed79 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -703,9 +703,9 @@ class SaveLoad(object):
                     logger.info("storing np array '%s' to %s", attrib, subname(fname, attrib))
 
                     if compress:
-                        np.savez_compressed(subname(fname, attrib), val=np.ascontiguousarray(val))
+                        np.savez_compressed(subname(fname, attrib), val=np.asarray(val, order='C'))
                     else:
-                        np.save(subname(fname, attrib), np.ascontiguousarray(val))
+                        np.save(subname(fname, attrib), np.asarray(val, order='C'))
 
                 elif isinstance(val, (sp.csr_matrix, sp.csc_matrix)) and attrib not in ignore:
                     scipys.append(attrib)
-- 
2.43.0


From f38ce8dc581472d9fc6cd7b9a5d14f713713d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 35/76] fix: attributes other than arrays are not lost when
 asked to be stored separately

---
 nephosem/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 400ed79..394fd33 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -681,6 +681,10 @@ class SaveLoad(object):
                 elif isinstance(val, sparse_matrices) and val.nnz >= sep_limit:
                     separately.append(attrib)
 
+        # only these arrays can be stored separately, any other attribute gets pickled
+        separately = [attrib for attrib in separately
+                      if isinstance(getattr(self, attrib, None), (np.ndarray,) + sparse_matrices)]
+
         # whatever's in `separately` or `ignore` at this point won't get pickled
         for attrib in separately + list(ignore):
             if hasattr(self, attrib):
-- 
2.43.0


From 25842d3b1e8d3505ca6fe520dad62d485576716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 36/76] fix: a failed save restores the attributes of the
 object and of its nested objects

---
 nephosem/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 394fd33..6a6d954 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -693,13 +693,14 @@ class SaveLoad(object):
 
         recursive_saveloads = []
         restores = []
-        for attrib, val in iteritems(self.__dict__):
-            if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
-                recursive_saveloads.append(attrib)
-                cfname = '.'.join((fname, attrib))
-                restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol, compress, subname))
-
         try:
+            for attrib, val in iteritems(self.__dict__):
+                if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                    recursive_saveloads.append(attrib)
+                    cfname = '.'.join((fname, attrib))
+                    restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol,
+                                                       compress, subname))
+
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
                 if isinstance(val, np.ndarray) and attrib not in ignore:
@@ -744,9 +745,10 @@ class SaveLoad(object):
             self.__dict__['__ignoreds'] = ignoreds
             self.__dict__['__recursive_saveloads'] = recursive_saveloads
         except Exception:
-            # restore the attributes if exception-interrupted
-            for attrib, val in iteritems(asides):
-                setattr(self, attrib, val)
+            # restore the attributes (of the nested objects, too) if exception-interrupted
+            for obj, vals in restores + [(self, asides)]:
+                for attrib, val in iteritems(vals):
+                    setattr(obj, attrib, val)
             raise
         return restores + [(self, asides)]
 
-- 
2.43.0


From 7f8375ac968cbd10e40e1a06df81711392958428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 37/76] fix: save objects that share a nested object or refer
 back to their parent

---
 nephosem/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 6a6d954..19bfba7 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -643,7 +643,7 @@ class SaveLoad(object):
                     setattr(obj, attrib, val)
         logger.info("saved %s", fname)
 
-    def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname):
+    def _save_specials(self, fname, separately, sep_limit, ignore, pickle_protocol, compress, subname, seen=None):
         """Save aside any attributes that need to be handled separately, including
         by recursion any attributes that are themselves :class:`~gensim.utils.SaveLoad` instances.
 
@@ -663,6 +663,8 @@ class SaveLoad(object):
             If True - compress output with :func:`numpy.savez_compressed`.
         subname : function
             Produced by :meth:`~gensim.utils.SaveLoad._adapt_by_suffix`
+        seen : dict, optional
+            The objects that are already handled, by id. Set automatically during recursive processing.
 
         Returns
         -------
@@ -672,6 +674,8 @@ class SaveLoad(object):
 
         """
         asides = {}
+        seen = {} if seen is None else seen
+        seen[id(self)] = self
         sparse_matrices = (sp.csr_matrix, sp.csc_matrix)
         if separately is None:
             separately = []
@@ -696,10 +700,12 @@ class SaveLoad(object):
         try:
             for attrib, val in iteritems(self.__dict__):
                 if hasattr(val, '_save_specials'):  # better than 'isinstance(val, SaveLoad)' if IPython reloading
+                    if id(val) in seen:  # shared with (or a reference back to) another object
+                        continue
                     recursive_saveloads.append(attrib)
                     cfname = '.'.join((fname, attrib))
                     restores.extend(val._save_specials(cfname, None, sep_limit, ignore, pickle_protocol,
-                                                       compress, subname))
+                                                       compress, subname, seen))
 
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
-- 
2.43.0


From 175864d91a96c0ef2cd9c24ac35c4e5cf51a7149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 38/76] fix: merge committees with the most similar one even if
 it is first or last in order of similarity

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index beeff6c..e1b5482 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -573,7 +573,7 @@ def get_merged_committee(simmx, theta=0.35):
         sortidx = sortsimmx[i]
         # iterate over the indices from the largest one
         idx = -1
-        for j in range(-2, -(sortidx.shape[0]), -1):
+        for j in range(-1, -(sortidx.shape[0]) - 1, -1):
             tmpidx = sortidx[j]
             if tmpidx > i and tmpidx not in merged:
                 # if committee has not been processed
-- 
2.43.0


From b83f5dbb3518aa1198e3c68d95d5e82305dd9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 39/76] fix: the highest scoring cluster is one of the
 clusters, whatever its score

---
 nephosem/models/cbc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index e1b5482..2d52c00 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1060,7 +1060,6 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
     """
     cluster_scores = {}
     clustsims = cluster_avgsim(clusters, simmx)
-    maxc, maxs = -1, 0.0
     for cid, ids in clusters.items():
         if len(ids) == 1:  # skip single element
             cluster_scores[cid] = -1  # give -1 score to singleton cluster
@@ -1077,12 +1076,10 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
             raise NotImplementedError("Not implemented: {}".format(metric))
 
         cluster_scores[cid] = score
-        if score > maxs:
-            maxs = score
-            maxc = cid
 
     if highest:
-        return [(maxs, clusters[maxc])]
+        maxc = max(cluster_scores, key=cluster_scores.get)
+        return [(cluster_scores[maxc], clusters[maxc])]
     else:
         return [(cluster_scores[cid], clust) for cid, clust in clusters.items()]
 
-- 
2.43.0


From c1e73272bf6f915b18f4a542acad39dd93b16259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 40/76] fix: score clusters with the score function when given

---
 nephosem/models/cbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 2d52c00..81f286d 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -1050,7 +1050,7 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
         Else, return all clusters with their scores.
     score_func : function
         A function to calculate the score.
-        Basically take two parameters: the average similarity of the cluster and the size of it.
+        Basically take two parameters: the size of the cluster and the average similarity of it.
         ``Example`` :
             def func(size, avgsim):
                 return math.sqrt(size) * avgsim
@@ -1066,7 +1066,9 @@ def score_cluster(clusters, simmx, metric='with_size', highest=False, score_func
             continue
 
         avgsim = clustsims[cid]
-        if metric == 'with_size_sqrt':
+        if score_func is not None:
+            score = score_func(len(ids), avgsim)
+        elif metric == 'with_size_sqrt':
             score = math.sqrt(len(ids)) * avgsim
         elif metric == 'with_size':
             score = len(ids) * avgsim
-- 
2.43.0


From 27ee7967a77f033255a8d357754236d1f1fe5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 41/76] fix: cluster only the highest scoring clusters of
 similar elements when asked to

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 81f286d..08e566a 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -251,7 +251,7 @@ def major_steps(cbc, eles=None, multicore=True):
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
         'prune_method': cbc.prune_method, 't': cbc.t,
-        'score_metric': cbc.score_metric,
+        'score_metric': cbc.score_metric, 'highest_score': cbc.highest_score,
     }
     if multicore and len(eles) > num_workers:
         # use multicore version when the number of elements is large ( > number of cpu cores)
-- 
2.43.0


From 66d7489e90c7d35b19bb83a1e8e5fdc31b7e1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 42/76] fix: no committees when there are no clusters of
 several elements

---
 nephosem/models/cbc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 08e566a..b926081 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -480,11 +480,10 @@ def cbc_step2(L, elements=None, freqmx=None, ppmimx=None, theta=0.35):
     (mergecomms, mgsglcommx) : tuple
         A tuple of merged (with singletons) committees (element strings) and committee matrix.
     """
-    if not L or len(L) <= 0:
-        return L
-
     # clean clusters
     committees, singletons = clean_clusters(L)
+    if len(committees) == 0:
+        return [], np.zeros((0, freqmx.shape[1]))
 
     # transform cluster elements from str to int
     e2id = {e: i for i, e in enumerate(elements)}
-- 
2.43.0


From c729dde2cc25797f16db2e5a485da2e4ee18797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 43/76] fix: remove all duplicates of clusters, also when
 clusters of equal scores are between them

---
 nephosem/models/cbc.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index b926081..446a725 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -643,17 +643,12 @@ def remove_duplicate(clusters):
     """Remove duplicate clusters"""
     if len(clusters) <= 0:
         return clusters
-    prevs, prevc = clusters[0]  # -> previous score and cluster
-    diffL = [(prevs, set(prevc))]
-    for i in range(1, len(clusters)):
-        s, clust = clusters[i]
-        if abs(s - prevs) > 0.000000001 or sorted(clust) != sorted(prevc):
-            # if scores of two clusters are not close => they are not the same cluster
-            # if scores are very close => compare cluster elements
+    seen = set()  # -> clusters seen before
+    diffL = []
+    for s, clust in clusters:
+        if frozenset(clust) not in seen:
+            seen.add(frozenset(clust))
             diffL.append((s, set(clust)))
-            prevs, prevc = s, clust
-        else:  # same cluster
-            continue
     return diffL
 
 
-- 
2.43.0


From a7c639246adbcb1645d11fd5c04f4b6804de8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 44/76] fix: keep the clusters of all groups of elements when a
 process gets more than one group

---
 nephosem/models/cbc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 446a725..7c86666 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -38,6 +38,7 @@ import logging
 import math
 import operator
 import os
+import tempfile
 from collections import defaultdict
 from copy import deepcopy
 from multiprocessing import cpu_count, Pool
@@ -380,7 +381,9 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    tmp_proc_fname = os.path.join(tmpdir_proc, 'L', '{}'.format(pid))
+    # a process could be called more than once
+    fd, tmp_proc_fname = tempfile.mkstemp(prefix='{}.'.format(pid), dir=os.path.join(tmpdir_proc, 'L'))
+    os.close(fd)
     with codecs.open(tmp_proc_fname, 'w') as outf:
         json.dump(L, outf, ensure_ascii=False, indent=4)
 
-- 
2.43.0


From e8671fe871eb8e06d414820b3de3ea78803f1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 45/76] fix: cluster on machines with one processor

---
 nephosem/models/cbc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 7c86666..38b5904 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -247,7 +247,7 @@ def major_steps(cbc, eles=None, multicore=True):
 
     # step 1
     logger.info("\nstep 1 ...")
-    num_workers = cpu_count() - 1
+    num_workers = max(cpu_count() - 1, 1)
     args = (eles,)
     kwargs = {
         'distmx': distmx, 'k': cbc.k,
@@ -307,7 +307,7 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-    num_cores = cpu_count() - 1
+    num_cores = max(cpu_count() - 1, 1)
     num_eles = len(elements)
     data_group = [[] for _ in range(num_cores)]
     for i in range(num_eles):
-- 
2.43.0


From 905a24efabf68e7bd7bdcc995414a8371fe1c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 46/76] fix: compute the association and distance matrices of
 CBC when not provided

---
 nephosem/models/cbc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 38b5904..9af87e5 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -124,11 +124,13 @@ class CBC(object):
         # prepare matrices if not provided
         if measmx is None:
             print("calculating ppmi matrix...")
-            measmx = calc_association(freqmx, meas='ppmi')
+            measmx = calc_association(freqmx.matrix, meas='ppmi')
+            measmx = TypeTokenMatrix(measmx, freqmx.row_items, freqmx.col_items)
             print("done.")
         if distmx is None:
             print("calculating distance matrix...")
-            distmx = calc_distance(measmx)
+            distmx = calc_distance(measmx.matrix)
+            distmx = TypeTokenMatrix(distmx, freqmx.row_items, freqmx.row_items)
             print("done.")
 
         self.elements = elements
-- 
2.43.0


From e3d8818b1d80e293932aa896c7186754dc5da132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 47/76] fix: process corpora on machines with one processor

---
 nephosem/core/handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 6efc292..f2d6820 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -85,7 +85,7 @@ class Paralleler(object):
 
     def __init__(self, workers=0, **kwargs):
         # the number of CPU cores used by the program
-        self.workers = workers if 0 < workers < mp.cpu_count() else mp.cpu_count()-1
+        self.workers = workers if 0 < workers < mp.cpu_count() else max(mp.cpu_count()-1, 1)
         # add other possible arguments to the `__dict__` of the class
         self.__dict__.update(kwargs)
         # set default tmpdir
-- 
2.43.0


From 85ea39521b07c742f22fed92d0eddec892663138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 48/76] fix: a failed worker process fails the task instead of
 waiting for its results or leaving them out

---
 nephosem/core/handler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index f2d6820..1193601 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -147,6 +147,10 @@ class Paralleler(object):
         
         for worker in workers:
             worker.join()
+        failed = [worker.exitcode for worker in workers if worker.exitcode != 0]
+        if failed:
+            raise RuntimeError("{} of {} worker processes failed (exit codes: {})! No results."
+                               .format(len(failed), len(workers), failed))
 
         # merge results of different sub-processes
         result = self._process_results(res_queue, n=len(fnames))
-- 
2.43.0


From da36abfa5df26c71dde4c7f1e82eade81fecc37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 49/76] fix: matches of an earlier call are not counted again
 by build_dependency

---
 nephosem/models/deprel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index b7dee3a..aa42955 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -137,6 +137,10 @@ class DepRelHandler(BaseHandler):
 
         """
         fnames = self.prepare_fnames(fnames)
+        # the matches of an earlier call do not belong to these files
+        for macro in self.macros:
+            macro.matched_nodes = []
+            macro.matched_edges = []
         logger.info("Building dependency features...")
         _res = self.process(fnames)
 
-- 
2.43.0


From 6c37fdd09f3dc81899d140d1b1a0f4f669185a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 50/76] fix: tokens of an earlier call are not retrieved again
 by retrieve_tokens

---
 nephosem/models/typetoken.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index c50243e..48f348c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -522,6 +522,9 @@ class TokenHandler(BaseHandler):
         :class:`~nephosem.TypeTokenMatrix`
         """
         fnames = self.prepare_fnames(fnames)
+        # the tokens of an earlier call do not belong to these files
+        self.type2toks = {w: TypeNode(type_str=w, type_fmt=self.formatter.type_format)
+                          for w in self.type2toks}
         logger.info("Scanning tokens of queries in corpus...")
         res = self.process(fnames)
         self.type2toks = res
-- 
2.43.0


From 482db0c377ed1a14636ae56187fc7bc74c57c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 51/76] fix: association scores of a type vectorizer use the
 marginal frequencies of its matrix

---
 nephosem/models/typetoken.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 48f348c..c878833 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -817,7 +817,9 @@ class TypeVectorizer(object):
         -------
         vectors : :class:`nephosem.core.matrix.TypeTokenMatrix`
         """
-        self.vectors = mxcalc.compute_association(self.freqmx, meas=meas)
+        node_vocab = Vocab(self.freqmx.sum(axis=1))
+        colloc_vocab = Vocab(self.freqmx.sum(axis=0))
+        self.vectors = mxcalc.compute_association(self.freqmx, nfreq=node_vocab, cfreq=colloc_vocab, meas=meas)
         return self.vectors
 
 
-- 
2.43.0


From 6c67d1059f8fb4bd430a5d4d1b009f31933d8b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:46 +0000
Subject: [PATCH 52/76] fix: token vectorizer works on the retrieved tokens, in
 the configured formats

---
 nephosem/models/typetoken.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index c878833..44fa73a 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -852,7 +852,8 @@ class TokenVectorizer(object):
             query_dict.update(queries)
 
         tokhan = TokenHandler(Vocab(query_dict), settings=self.settings)
-        typenodes = tokhan.retrieve_tokens(fnames=fnames)
+        tokhan.retrieve_tokens(fnames=fnames)
+        typenodes = tokhan.type2toks
 
         self.concepts = dict()
         for concept, variants in self.concept_queries.items():
@@ -863,6 +864,8 @@ class TokenVectorizer(object):
 
     def generate_vectors(self, freqMTX, freq_cutoff=0, ppmi_cutoff=0.0, llr_cutoff=0.0):
         concept2vectors = dict()
+        formatter = CorpusFormatter(self.settings)
+        token_format = 'lemma/pos' if len(formatter.type_format.split('/')) == 2 else 'lemma'
         for concept, variants in self.concepts.items():
             variant_list = [str(v) for v in variants]
             cep_freqMTX = freqMTX.submatrix(row=variant_list)
@@ -879,13 +882,14 @@ class TokenVectorizer(object):
 
             # eliminate FOCs from Boolean matrix that are not found in the context of the tokens
             # if done, final_ppmiMTX should do submatrix() as well
-            cep_tokmx = mxutils.transform_nodes_to_matrix(variants)
+            cep_tokmx = mxutils.transform_nodes_to_matrix(variants, formatter.colloc_format)
             intersect_collocs = list(set(cutoff_ppmiMTX.col_items).intersection(set(cep_tokmx.col_items)))
             final_cep_ppmiMTX = cutoff_ppmiMTX.submatrix(col=intersect_collocs)
             final_cep_tokmx = cep_tokmx.submatrix(col=intersect_collocs)
 
             # compute token-by-FOCs ppmi matrix
-            tokweights = mxcalc.compute_token_weights(final_cep_tokmx, final_cep_ppmiMTX)
+            tokweights = mxcalc.compute_token_weights(final_cep_tokmx, final_cep_ppmiMTX,
+                                                      tokenFormat=token_format)
             final_tokweights = tokweights.drop_empty(axis=0)
 
             # subset the full collocate frequency matrix based on candidates FOCs and SOCs
-- 
2.43.0


From ea5b19c5f90fd47568bc224b10903a42395ea59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:19 +0000
Subject: [PATCH 53/76] fix: match nodes of earlier dependency templates with
 the artificial root of a sentence

---
 nephosem/deprel/basic.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/nephosem/deprel/basic.py b/nephosem/deprel/basic.py
index d544947..b905b40 100644
--- a/nephosem/deprel/basic.py
+++ b/nephosem/deprel/basic.py
@@ -361,15 +361,13 @@ class SentenceGraph(DiGraph):
             output += '\ne: {e1} {e2} {rel}'.format(e1=e1, e2=e2, rel=rel)
         output += '\n'
         '''
-        nodes = [None] * self.graph.number_of_nodes()
-        for v in self.graph.nodes():
-            nodes[v] = self.graph.nodes[v].get('label', 'ROOT')
+        nodes = [self.graph.nodes[v].get('label', 'ROOT') for v in sorted(self.graph.nodes())]
         return ' '.join(nodes)
 
 
 def match_sub_template(sentence=None, feature=None, valid_nodes=None, valid_edges=None):
     if len(valid_nodes) == feature.graph.number_of_nodes():
-        matched_nodes = {idx: sentence.graph.nodes[vid]['label'] for vid, idx in valid_nodes}
+        matched_nodes = {idx: sentence.graph.nodes[vid].get('label', 'ROOT') for vid, idx in valid_nodes}
         matched_edges = {(head, tail): it for it, (head, tail) in valid_edges}
         feature.add_match(matched_nodes, matched_edges)
         return
@@ -387,7 +385,7 @@ def match_sub_template(sentence=None, feature=None, valid_nodes=None, valid_edge
             if preds == prevs:
                 continue
             srel = sentence.graph[preds][currs]['rel']
-            predsitem = sentence.nodes[preds]['label']
+            predsitem = sentence.nodes[preds].get('label', 'ROOT')
             trelpatt = feature.graph[predt][currt]['rel']
             predtpatt = feature.nodes[predt]['label']
             # check if edge and node match
@@ -407,7 +405,7 @@ def match_sub_template(sentence=None, feature=None, valid_nodes=None, valid_edge
             if succs == prevs:
                 continue
             srel = sentence.graph[currs][succs]['rel']  # -> relation label between current node and neighbor
-            succsitem = sentence.nodes[succs]['label']
+            succsitem = sentence.nodes[succs].get('label', 'ROOT')
             trelpatt = feature.graph[currt][succt]['rel']
             succtpatt = feature.nodes[succt]['label']
             # check if edge and node match path
@@ -614,7 +612,7 @@ def tree_match(sentence, feature):
     try:
         assert sentence.istree
     except Exception as err:
-        logger.error(err, str(sentence))
+        logger.error("The sentence is not a tree: {}".format(sentence))
         return
     assert feature.istree
     # find feature root
@@ -652,7 +650,7 @@ def subtree_match(sentence=None, feature=None, lmatches=None):
             for m in lmatch:
                 nodemapping.update(m)
             # remap feature node to sentence node label (type)
-            matched_nodes = {fn: sentence.nodes[sn]['label'] for fn, sn in nodemapping.items()}
+            matched_nodes = {fn: sentence.nodes[sn].get('label', 'ROOT') for fn, sn in nodemapping.items()}
             # remap feature edge (tuple of node idx) to sentence edge label (dependency relation)
             matched_edges = {(head, tail): sentence.edges[(nodemapping[head], nodemapping[tail])]['rel']
                              for head, tail in feature.edges}
@@ -749,7 +747,7 @@ def match_successors(sentence, scur, feature, fcur):
             for ssuc in sentence.successors(scur):
                 if ssuc in onemap:
                     continue
-                vitem = sentence.nodes[ssuc]['label']
+                vitem = sentence.nodes[ssuc].get('label', 'ROOT')
                 erel = sentence.edges[scur, ssuc]['rel']
                 vmatched = feature.match_node(vitem, idx=fsuc)
                 ematched = feature.match_edge(erel, idx=(fcur, fsuc))
-- 
2.43.0


From aca07043d96730942a2018a3bae8ddfacda944ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 54/76] fix: labels and values of two matrices do not load
 together after an interrupted save

---
 nephosem/core/matrix.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index 57a51bb..e291379 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1359,24 +1359,27 @@ class TypeTokenMatrix(BaseMatrix):
         if verbose:
             logger.info("\nSaving matrix...")
 
+        # labels and values of different matrices must not be found together when saving is interrupted
+        for mx_fname in ["{}.npz".format(basename), "{}.npy".format(basename)]:
+            if os.path.exists(mx_fname):  # of a matrix saved under this name before
+                os.remove(mx_fname)
+
         # save meta data
         with codecs.open(meta_fname, 'w', encoding) as outf:
             json.dump(meta_data, outf, ensure_ascii=False, indent=4)
 
         if isinstance(self.matrix, sp.spmatrix):
-            mx_fname, other_fname = "{}.npz".format(basename), "{}.npy".format(basename)
+            mx_fname = "{}.npz".format(basename)
             np.savez(mx_fname,
                      data=self.matrix.data,
                      indices=self.matrix.indices,
                      indptr=self.matrix.indptr,
                      shape=self.matrix.shape)
         elif isinstance(self.matrix, np.ndarray):
-            mx_fname, other_fname = "{}.npy".format(basename), "{}.npz".format(basename)
+            mx_fname = "{}.npy".format(basename)
             np.save(mx_fname, self.matrix)
         else:
             raise ValueError
-        if os.path.exists(other_fname):  # of a matrix saved under this name before
-            os.remove(other_fname)
 
         # package these two files into one named as filename
         if pack:
-- 
2.43.0


From f60fc5e077cebc10d6ad1c83b36e9102d54ef30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 55/76] fix: a plain frequency list is replaced only by a
 complete one

---
 nephosem/utils.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 19bfba7..9032240 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -30,10 +30,12 @@ import os
 import sys
 import time
 import codecs
+import contextlib
 import operator
 import shutil
 import json
 import logging
+import tempfile
 from functools import wraps
 
 import numpy as np
@@ -225,6 +227,22 @@ def save_dict_json(freq_dict, filename, encoding='utf-8'):
         # ensure_ascii = False : show human readable characters in file.
 
 
+@contextlib.contextmanager
+def _open_replacing(filename, encoding):
+    """Open a text file which takes the place of `filename` only when it is complete:
+    the beginning of a plain list reads like a list.
+    """
+    filename = os.path.realpath(filename)
+    work_dir = tempfile.mkdtemp(dir=os.path.dirname(filename))
+    try:
+        work_fname = os.path.join(work_dir, 'new')
+        with codecs.open(work_fname, 'w', encoding) as fout:
+            yield fout
+        os.replace(work_fname, filename)
+    finally:
+        shutil.rmtree(work_dir)
+
+
 def save_dict_plain(freq_dict, filename, encoding='utf-8', order='freq'):
     """Save frequency dict to plain txt file.
 
@@ -238,7 +256,7 @@ def save_dict_plain(freq_dict, filename, encoding='utf-8', order='freq'):
         'freq', 'alpha'
 
     """
-    with codecs.open(filename, 'w', encoding) as fout:
+    with _open_replacing(filename, encoding) as fout:
         if len(freq_dict.keys()) == 0:
             return
         if order not in ['freq', 'alpha']:
-- 
2.43.0


From b8448f9626f2b5986e26741fb4554793ca9b1fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 56/76] fix: an object does not load with separately stored
 arrays of another one after an interrupted save

---
 nephosem/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 9032240..08ea458 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -650,6 +650,10 @@ class SaveLoad(object):
 
         compress, subname = SaveLoad._adapt_by_suffix(fname)
 
+        # the object saved here before must not be loaded with separately stored arrays of this one
+        if os.path.exists(fname):
+            os.remove(fname)
+
         restores = self._save_specials(fname, separately, sep_limit, ignore, pickle_protocol,
                                        compress, subname)
         try:
-- 
2.43.0


From e9d4d0b06c1f1cc2b609c471c44d78d7995b054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 57/76] fix: saving an object over the files its arrays are
 mapped from keeps the arrays

---
 nephosem/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 08ea458..8248845 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -731,6 +731,11 @@ class SaveLoad(object):
 
             numpys, scipys, ignoreds = [], [], []
             for attrib, val in iteritems(asides):
+                # the arrays may be mapped from the very files (see `mmap` of `load`), which must not be written into
+                for names in ((attrib,), (attrib, 'data'), (attrib, 'indptr'), (attrib, 'indices')):
+                    if os.path.isfile(subname(fname, *names)):
+                        os.remove(subname(fname, *names))
+
                 if isinstance(val, np.ndarray) and attrib not in ignore:
                     numpys.append(attrib)
                     logger.info("storing np array '%s' to %s", attrib, subname(fname, attrib))
-- 
2.43.0


From a2d7aa1459154ce3b3e45237fdb2752eba887d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 58/76] fix: print numeric labels and the values below them as
 they are

---
 nephosem/core/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/core/matrix.py b/nephosem/core/matrix.py
index e291379..c1e39c3 100644
--- a/nephosem/core/matrix.py
+++ b/nephosem/core/matrix.py
@@ -1525,7 +1525,7 @@ class TypeTokenMatrix(BaseMatrix):
         if n_rows < shape[0]:
             res.append(["..."] * len(res[0]))
 
-        table = tabulate(res, tablefmt='plain')
+        table = tabulate(res, tablefmt='plain', disable_numparse=True)
         return table
 
     def spmatrix_to_dict(self):
-- 
2.43.0


From 2723653f126ab067bd4e9493361af8e10baf36d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:01 +0000
Subject: [PATCH 59/76] fix: print sentences whose token numbers have gaps

---
 nephosem/core/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index e1a1465..c8d5204 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -319,9 +319,7 @@ class SentenceGraph(DiGraph):
             output += '\ne: {e1} {e2} {rel}'.format(e1=e1, e2=e2, rel=rel)
         output += '\n'
         '''
-        nodes = [None] * self.graph.number_of_nodes()
-        for v in self.graph.nodes():
-            nodes[v] = self.graph.nodes[v].get('label', 'ROOT')
+        nodes = [self.graph.nodes[v].get('label', 'ROOT') for v in sorted(self.graph.nodes())]
         return ' '.join(nodes)
 
 
-- 
2.43.0


From d975208a18912d4d915e12c651934205c2153907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:36 +0000
Subject: [PATCH 60/76] fix: creating a handler leaves the files in the
 temporary directory of the user alone

---
 nephosem/core/handler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index 1193601..a463446 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -42,7 +42,7 @@ import multiprocessing as mp
 import nephosem
 from nephosem import progbar, trange
 from nephosem.core.terms import CorpusFormatter, Window
-from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir, clean_dir
+from nephosem.utils import read_fnames, read_fnames_of_corpus, make_dir
 
 logger = logging.getLogger(__name__)
 homedir = os.path.expanduser('~')
@@ -91,7 +91,6 @@ class Paralleler(object):
         # set default tmpdir
         self.tmpdir = nephosem.tmpdir
         make_dir(self.tmpdir)
-        clean_dir(self.tmpdir)
 
     @property
     def pid(self):
-- 
2.43.0


From fd453e7b22d82a0c62c190a8956c7458b13fffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:40 +0000
Subject: [PATCH 61/76] fix: clusterings at the same time do not share their
 temporary folder

---
 nephosem/models/cbc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 9af87e5..d5e1d57 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -52,7 +52,7 @@ from nephosem import progbar
 from nephosem.core.matrix import TypeTokenMatrix
 from nephosem.specutils.mxcalc import calc_association, calc_distance
 from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
-from nephosem.utils import make_dir, clean_dir
+from nephosem.utils import make_dir
 
 __all__ = ['CBC']
 
@@ -300,12 +300,12 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                  /distmx.npy
     """
     homedir = os.path.expanduser('~')
-    tmpdir = os.path.join(homedir, '.cbc', '{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-    make_dir(tmpdir)
-    clean_dir(tmpdir)
+    cbcdir = os.path.join(homedir, '.cbc')
+    make_dir(cbcdir)
+    # a folder of its own: other programs may be clustering at the same time
+    tmpdir = tempfile.mkdtemp(prefix=datetime.datetime.now().strftime("%Y.%m.%d.%H.%M."), dir=cbcdir)
     L_tmpdir = os.path.join(tmpdir, 'L')
     make_dir(L_tmpdir)
-    clean_dir(L_tmpdir)
     distmx_fname = os.path.join(tmpdir, 'distmx')
     distmx.save(distmx_fname, pack=False)
 
-- 
2.43.0


From 2249b562402d7ff6a30ddf487dc455ba242567cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 62/76] fix: failing processes of a clustering are reported and
 its clusters come in the order of the elements

---
 nephosem/models/cbc.py | 83 +++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index d5e1d57..646baad 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -38,10 +38,13 @@ import logging
 import math
 import operator
 import os
+import shutil
 import tempfile
+import threading
 from collections import defaultdict
+from concurrent.futures import ProcessPoolExecutor
 from copy import deepcopy
-from multiprocessing import cpu_count, Pool
+from multiprocessing import cpu_count
 
 import numpy as np
 import scipy.cluster.hierarchy as sch
@@ -295,7 +298,6 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
                         score_metric='without_size', highest_score=False):
     """
     ~/.cbc/.10933/
-                 /L/  : folder for temporary L(s)
                  /distmx.meta
                  /distmx.npy
     """
@@ -304,64 +306,43 @@ def cbc_step1_multicore(elements, distmx=None, k=100,
     make_dir(cbcdir)
     # a folder of its own: other programs may be clustering at the same time
     tmpdir = tempfile.mkdtemp(prefix=datetime.datetime.now().strftime("%Y.%m.%d.%H.%M."), dir=cbcdir)
-    L_tmpdir = os.path.join(tmpdir, 'L')
-    make_dir(L_tmpdir)
-    distmx_fname = os.path.join(tmpdir, 'distmx')
-    distmx.save(distmx_fname, pack=False)
-
+    kwargs = {
+        'k': k,
+        'prune_method': prune_method, 't': t,
+        'score_metric': score_metric, 'highest_score': highest_score,
+    }
     num_cores = max(cpu_count() - 1, 1)
     num_eles = len(elements)
-    data_group = [[] for _ in range(num_cores)]
-    for i in range(num_eles):
-        idx = i % num_cores
-        data_group[idx].append(elements[i])
-
-    pool = Pool(processes=num_cores)
-    for i in range(num_cores):
-        args = (data_group[i], tmpdir,)
-        kwargs = {
-            'k': k,
-            'prune_method': prune_method, 't': t,
-            'score_metric': score_metric, 'highest_score': highest_score,
-        }
-        try:
-            pool.apply_async(cbc_step1_call, args=args, kwds=kwargs)
-        except Exception as err:
-            logger.exception("Error:", err)
-    pool.close()
-    pool.join()
-
-    # merge results
-    L = []
-    for fname in os.listdir(L_tmpdir):
-        fname = os.path.join(L_tmpdir, fname)
-        # load json results of sub-processes L(s)
-        with codecs.open(fname, 'r') as inf:
-            procL = json.load(inf)
-        L.extend(procL)
-        os.remove(fname)
     try:
-        os.remove(distmx_fname + '.meta')
-        os.remove(distmx_fname + '.npy')
-        os.rmdir(L_tmpdir)
-        os.rmdir(tmpdir)
-    except Exception as err:
-        logger.exception("clean tmp folder error: {}".format(err))
+        distmx.save(os.path.join(tmpdir, 'distmx'), pack=False)
+
+        # the groups keep the order of the elements: the clusters are those of `cbc_step1_single()` in the same order
+        bounds = [i * num_eles // num_cores for i in range(num_cores + 1)]
+        with ProcessPoolExecutor(max_workers=num_cores, initializer=_own_progress_bars) as pool:
+            results = [pool.submit(cbc_step1_call, elements[start:end], tmpdir, **kwargs)
+                       for start, end in zip(bounds, bounds[1:]) if start < end]
+
+        # merge results; raises an error if a process failed
+        L = []
+        for res in results:
+            L.extend(res.result())
+    finally:
+        shutil.rmtree(tmpdir, ignore_errors=True)
     return L
 
 
+def _own_progress_bars():
+    """Use a new lock for the progress bars: a process killed while it prints must not block the other processes."""
+    progbar.set_lock(threading.RLock())
+
+
 def cbc_step1_call(elements, tmpdir_proc, k=100,
                    prune_method='distance', t='median',
                    score_metric='without_size', highest_score=False):
     pid = os.getpid()
     # print(pid, len(elements), tmpdir_proc, k, prune_method, t, score_metric, highest_score)
     # load distance matrix inside tmp directory
-    tmp_distmx_fname = os.path.join(tmpdir_proc, 'distmx')
-    try:
-        distmx = TypeTokenMatrix.load(tmp_distmx_fname, pack=False)
-    except Exception as err:
-        logger.exception("Matrix load error: ".format(err))
-        return []
+    distmx = TypeTokenMatrix.load(os.path.join(tmpdir_proc, 'distmx'), pack=False)
     logger.info("Starting subprocess {}...".format(pid))
 
     L = []
@@ -383,12 +364,6 @@ def cbc_step1_call(elements, tmpdir_proc, k=100,
             logger.exception("Cannot find highest scoring cluster for element: {}\nError: {}".format(e, err))
         L.extend(clusters)
 
-    # a process could be called more than once
-    fd, tmp_proc_fname = tempfile.mkstemp(prefix='{}.'.format(pid), dir=os.path.join(tmpdir_proc, 'L'))
-    os.close(fd)
-    with codecs.open(tmp_proc_fname, 'w') as outf:
-        json.dump(L, outf, ensure_ascii=False, indent=4)
-
     return L
 
 
-- 
2.43.0


From feef53efac95af5475b2bb63431bab74f90d38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 63/76] fix: the elements of a recursion that failed are
 residues

---
 nephosem/models/cbc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index 646baad..d0bb937 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -193,7 +193,7 @@ class CBC(object):
                 curC, curR = major_steps(self, eles=residues, multicore=multicore)
             except Exception as err:
                 logger.exception(err)
-                curC, curR = [], []
+                curC, curR = [], residues  # no committee has been found for these elements
 
             Cs.append(curC)
             Rs.append(curR)
-- 
2.43.0


From 9326ce5433b9f243b4dfac1adbd1b4e9361ae515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 64/76] fix: save the results of each clustering completely in
 a folder of its own

---
 nephosem/models/cbc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index d0bb937..b79157b 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -211,9 +211,9 @@ class CBC(object):
 
             i += 1
 
-        restmpdir = os.path.join(tmpdir, 'res.{}'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")))
-        make_dir(restmpdir)
         try:
+            # a folder of its own: other programs may save their results in the same minute
+            restmpdir = tempfile.mkdtemp(prefix='res.{}.'.format(datetime.datetime.now().strftime("%Y.%m.%d.%H.%M")), dir=tmpdir)
             save_committees_json(restmpdir, Cs)
             save_residues_json(restmpdir, Rs)
         except Exception as err:
@@ -1177,11 +1177,11 @@ def reverse(fcids, lid):
 
 def save_committees_json(tmpdir, comms):
     C_fname = os.path.join(tmpdir, 'Cs')
-    with codecs.open(C_fname, 'w') as fout:
+    with codecs.open(C_fname, 'w', encoding='utf-8') as fout:
         json.dump(comms, fout, ensure_ascii=False, indent=4)
 
 
 def save_residues_json(tmpdir, residues):
     R_fname = os.path.join(tmpdir, 'Rs')
-    with codecs.open(R_fname, 'w', encoding='latin1') as fout:
+    with codecs.open(R_fname, 'w', encoding='utf-8') as fout:
         json.dump(residues, fout, ensure_ascii=False, indent=4)
-- 
2.43.0


From 5f95663c7f4c30c3c6afd95c5f7d88f90bdc2f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:32 +0000
Subject: [PATCH 65/76] fix: messages on the console are printed with their
 arguments

---
 nephosem/logging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index f707522..42304eb 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -40,13 +40,13 @@ __all__ = ['DefaultFormatter']
 class DefaultFormatter(logging.Formatter):
     """This class inherits `logging.Formatter` and is used for setting the format of a handler."""
 
-    err_fmt = "ERROR: %(msg)s"
-    wrn_fmt = "WARNING: %(msg)s"
-    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(msg)s"
-    info_fmt = "%(msg)s"
+    err_fmt = "ERROR: %(message)s"
+    wrn_fmt = "WARNING: %(message)s"
+    dbg_fmt = "DEBUG: %(module)s: %(lineno)d: %(message)s"
+    info_fmt = "%(message)s"
 
     def __init__(self):
-        fmt_ = "%(levelno)d: %(msg)s"
+        fmt_ = "%(levelno)d: %(message)s"
         if _python_version < 3:
             super(DefaultFormatter, self).__init__(fmt_)
         else:
-- 
2.43.0


From 9a15ddc1f2bda9a6e1e7e5e1d02159811828dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:32 +0000
Subject: [PATCH 66/76] fix: report sentences that are not trees (the message
 was lost in a formatting error)

---
 nephosem/specutils/deputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/specutils/deputils.py b/nephosem/specutils/deputils.py
index d67f539..0d2209d 100644
--- a/nephosem/specutils/deputils.py
+++ b/nephosem/specutils/deputils.py
@@ -189,7 +189,7 @@ def tree_match(sentence, macro):
     try:
         assert sentence.istree
     except Exception as err:
-        logger.error(err, str(sentence.fid))
+        logger.error("The sentence of {} is not a tree: {!r}".format(sentence.fid, err))
         return False
 
     num_curr_matches = len(macro.matched_nodes)
-- 
2.43.0


From 77c59d175818b8b40b4093342eb4dc7a9bcdd795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:32 +0000
Subject: [PATCH 67/76] fix: name the file of skipped sentences in type mode

---
 nephosem/models/deprel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index aa42955..901151e 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -245,7 +245,7 @@ class DepRelHandler(BaseHandler):
                     ss.match_pattern(macro)
             else:
                 rangetoks = [vid.get('lid') for v, vid in ss.nodes if vid.get('lid')]
-                logger.warning('Sentence in indices {} to {} of {} is not a tree.'.format(min(rangetoks), max(rangetoks), ss.fid))
+                logger.warning('Sentence in indices {} to {} of {} is not a tree.'.format(min(rangetoks), max(rangetoks), os.path.basename(fname)))
         return
 
     def update_dep_rel_token(self, fname, macros, **kwargs):
-- 
2.43.0


From c9040b2ef209b2c788ce8b2a486f8c42aaa2a18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:32 +0000
Subject: [PATCH 68/76] fix: changing the log file keeps the other handlers

---
 nephosem/logging.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nephosem/logging.py b/nephosem/logging.py
index 42304eb..acbd232 100644
--- a/nephosem/logging.py
+++ b/nephosem/logging.py
@@ -177,8 +177,13 @@ def change_log_file(logger, fname):
     >>> new_log_fname = "/path/of/new/log/file"
     >>> change_log_file(logger, new_log_fname) # the file handler will now be stored in a new path 
     """
-    logger.handlers.pop()
     fhd = create_file_handler(fname)
+    # replace the last file handler; other handlers added by the user stay
+    for handler in reversed(logger.handlers):
+        if isinstance(handler, logging.FileHandler):
+            logger.removeHandler(handler)
+            handler.close()
+            break
     logger.addHandler(fhd)
 
 
-- 
2.43.0


From dcc9ff52e83f8bb3d6f2d4fc00deeecd9678b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:59 +0000
Subject: [PATCH 69/76] fix: no integer overflow of the expected frequencies in
 compute_ppmi

---
 nephosem/specutils/mxcalc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/specutils/mxcalc.py b/nephosem/specutils/mxcalc.py
index 7d351bc..a394e2d 100644
--- a/nephosem/specutils/mxcalc.py
+++ b/nephosem/specutils/mxcalc.py
@@ -50,12 +50,12 @@ def compute_ppmi(freqMTX, nfreq=None, cfreq=None, positive=True):
         # sum of each rows of freqmx (size = row-size)
         row_sum_vec = np.asarray(freqmx.sum(axis=1)).ravel().astype(np.float64)
     else:
-        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items])
+        row_sum_vec = np.array([nfreq[e] for e in freqMTX.row_items], dtype=np.float64)
     if cfreq is None:
         # sum of each columns of freqmx (size = column-size)
         col_sum_vec = np.asarray(freqmx.sum(axis=0)).ravel().astype(np.float64)
     else:
-        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items])
+        col_sum_vec = np.array([cfreq[e] for e in freqMTX.col_items], dtype=np.float64)
 
     freqmx = freqmx.tocoo()
     row = freqmx.row  # indices of row
-- 
2.43.0


From 60efab801ecac5163bc9bbc34c30d298087500f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 70/76] fix: corpus lines end at line ends only, not at other
 characters (U+0085, U+2028, form feed)

---
 nephosem/core/handler.py     | 4 ++--
 nephosem/models/deprel.py    | 4 ++--
 nephosem/models/typetoken.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nephosem/core/handler.py b/nephosem/core/handler.py
index a463446..9721121 100644
--- a/nephosem/core/handler.py
+++ b/nephosem/core/handler.py
@@ -33,7 +33,7 @@ try:
 except ImportError:
     import pickle as _pickle
 
-import codecs
+import io
 import logging
 import os
 from copy import deepcopy
@@ -323,7 +323,7 @@ class BaseHandler(Paralleler):
         # process file
         fname = os.path.splitext(os.path.relpath(filename, start=self.settings['corpus-path']))[0] # change 2023.04.07: assign fid based corpus path in settings (flexible softcoding)
         # fname = os.path.basename(filename).rsplit('.', 1)[0]  # for filename in token
-        with codecs.open(filename, 'r', input_encoding) as fin:
+        with io.open(filename, 'r', encoding=input_encoding) as fin:
             lid = 0  # line number (1-based)
             for line in fin:
                 lid += 1
diff --git a/nephosem/models/deprel.py b/nephosem/models/deprel.py
index 901151e..4b07825 100644
--- a/nephosem/models/deprel.py
+++ b/nephosem/models/deprel.py
@@ -16,7 +16,7 @@
 # You should have received a copy of the GNU General Public License
 # along with Nephosem. If not, see <https://www.gnu.org/licenses/>.
 
-import codecs
+import io
 import logging
 import multiprocessing as mp
 import os
@@ -294,7 +294,7 @@ def read_sentence(filename, formatter=None, encoding='utf-8'):
     -------
     generator of sentences (tuple(int, string))
     """
-    with codecs.open(filename, 'r', encoding=encoding) as fin:
+    with io.open(filename, 'r', encoding=encoding) as fin:
         sentence = []
         lid = 0
         for line in fin:
diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 44fa73a..956fc6e 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -43,7 +43,7 @@ Initialize a model with e.g.
 
 from __future__ import division
 
-import codecs
+import io
 import logging
 import os
 from collections import defaultdict
@@ -155,7 +155,7 @@ class ItemFreqHandler(BaseHandler):
             The corpus file name to process
         """
         # return super(ItemFreqHandler, self).update_one_file(filename, data)
-        with codecs.open(filename, 'r', self.input_encoding) as fin:
+        with io.open(filename, 'r', encoding=self.input_encoding) as fin:
             for line in fin:
                 line = line.strip()  # in case there is a '\n'
                 match = self.formatter.match_line(line)
-- 
2.43.0


From 585e4a1fe901ad6d62c3ba4a6894d28c6be8760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 71/76] fix: lines of file lists and word-query files end at
 line ends only

---
 nephosem/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nephosem/utils.py b/nephosem/utils.py
index 8248845..0df770a 100644
--- a/nephosem/utils.py
+++ b/nephosem/utils.py
@@ -142,7 +142,7 @@ def read_fnames(filename, dirname='', encoding='utf-8'):
     if ext != ".fnames":
         filename = "{}.fnames".format(filename)
     try:
-        with codecs.open(filename, 'r', encoding=encoding) as inf:
+        with io.open(filename, 'r', encoding=encoding) as inf:
             for line in inf:
                 line = line.strip()
                 if len(line) <= 0 or line.startswith('#'):
@@ -436,7 +436,7 @@ def read_word_queries(fname, encoding='utf-8', wquery_default_key='_DEFAULT_'):
     retval = []
     if not os.path.isfile(fname):
         return retval
-    with codecs.open(fname, 'r', encoding=encoding) as inf:
+    with io.open(fname, 'r', encoding=encoding) as inf:
         for line in inf:
             line = line.strip()
             if len(line) <= 0 or line.startswith('#'):
-- 
2.43.0


From 334fe7f493c147a62df303155923ac75c03f74ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:59 +0000
Subject: [PATCH 72/76] fix: a pattern group that takes no part in the match is
 written '*'

---
 nephosem/core/graph.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nephosem/core/graph.py b/nephosem/core/graph.py
index c8d5204..2e702a6 100644
--- a/nephosem/core/graph.py
+++ b/nephosem/core/graph.py
@@ -678,6 +678,8 @@ class MacroGraph(PatternGraph):
                     mtrgt_repr = mtarget.group(gid)
                 except:
                     mtrgt_repr = '*'  # ''
+            if mtrgt_repr is None:  # a group that takes no part in the match
+                mtrgt_repr = '*'
             vals.append(mtrgt_repr)
         # return '/'.join(mtarget.groups())
         return self.connector.join(vals)
@@ -703,6 +705,8 @@ class MacroGraph(PatternGraph):
                 mfeat_repr = mfeature.group(gid)
             except:
                 mfeat_repr = '*'
+            if mfeat_repr is None:  # a group that takes no part in the match
+                mfeat_repr = '*'
             vals.append(mfeat_repr)
         return self.connector.join(vals)
 
@@ -774,6 +778,8 @@ class MacroGraph(PatternGraph):
                 mnode_repr = mnode.group(gid)
             except:
                 mnode_repr = '*'  # ''
+            if mnode_repr is None:  # a group that takes no part in the match
+                mnode_repr = '*'
             vals.append(mnode_repr)
         return self.connector.join(vals)
 
@@ -787,6 +793,8 @@ class MacroGraph(PatternGraph):
                 medge_repr = medge.group(gid)
             except:
                 medge_repr = '*'  # ''
+            if medge_repr is None:  # a group that takes no part in the match
+                medge_repr = '*'
             vals.append(medge_repr)
         return self.connector.join(vals)
 
-- 
2.43.0


From 1471fdadff3a5355ed095865481a9d3aaa647cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:00 +0000
Subject: [PATCH 73/76] fix: committee clustering takes the rows of the given
 elements from its matrices by label, in whatever order they are

---
 nephosem/models/cbc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nephosem/models/cbc.py b/nephosem/models/cbc.py
index b79157b..7e17547 100644
--- a/nephosem/models/cbc.py
+++ b/nephosem/models/cbc.py
@@ -246,9 +246,9 @@ def major_steps(cbc, eles=None, multicore=True):
         eles = cbc.elements
     # in later recursions use submatrix of residues to speed up
     # and we have to, because the similar elements of a residue are fetched from all residues
-    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.elements != eles else cbc.freqmx
-    measmx = cbc.measmx.submatrix(row=eles) if cbc.elements != eles else cbc.measmx
-    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.elements != eles else cbc.distmx
+    freqmx = cbc.freqmx.submatrix(row=eles) if cbc.freqmx.row_items != eles else cbc.freqmx
+    measmx = cbc.measmx.submatrix(row=eles) if cbc.measmx.row_items != eles else cbc.measmx
+    distmx = cbc.distmx.submatrix(row=eles, col=eles) if cbc.distmx.row_items != eles else cbc.distmx
 
     # step 1
     logger.info("\nstep 1 ...")
-- 
2.43.0


From a72de29bf853ee6d3b65351a6b171a83cafcc386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:40 +0000
Subject: [PATCH 74/76] fix: co-occurrences are filtered by a vocabulary that
 was filled item by item

---
 nephosem/models/typetoken.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 956fc6e..2125a0f 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -383,10 +383,8 @@ class ColFreqHandler(BaseHandler):
         match = cnode[0]  # node -> (match, lid) (lid is useful in token level)
         type_ = self.formatter.get_type(match)
 
-        # if row_vocab.FILTERPRESENT is True
-        # we should use row_vocab to filter the types we encounter
-        # otherwise always found target word (type)
-        found = type_ in row_vocab if row_vocab.FILTERPRESENT else True
+        # use row_vocab to filter the types we encounter (it is never empty here)
+        found = type_ in row_vocab
         if not found:  # if not found any type (in the row_vocab), just return
             return
 
@@ -399,7 +397,7 @@ class ColFreqHandler(BaseHandler):
             match, _ = win.left[i]
             colloc = self.formatter.get_colloc(match)
 
-            if not col_vocab.FILTERPRESENT:  # if no given col_vocab
+            if self.nocolvocab:  # if no given col_vocab
                 col_vocab.increment(colloc)  # update the col_vocab
                 mtx_dict[type_][colloc] += 1
             elif colloc in col_vocab:  # if the colloc in the given col_vocab
@@ -414,7 +412,7 @@ class ColFreqHandler(BaseHandler):
             match = win.right[i][0]
             colloc = self.formatter.get_colloc(match)
 
-            if not col_vocab.FILTERPRESENT:
+            if self.nocolvocab:
                 col_vocab.increment(colloc)
                 mtx_dict[type_][colloc] += 1
             elif colloc in col_vocab:
-- 
2.43.0


From c616cb8d8d56510c904d78b73d67e012532dd489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:32 +0000
Subject: [PATCH 75/76] fix: build_tc_weight_matrix labels the columns with
 those of the weights

---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 2125a0f..6af947c 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1247,4 +1247,4 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
                 tok_weight_dict[tok][feat] = val
 
     tc_weight_mtx = mxutils.transform_dict_to_spmatrix(tok_weight_dict, tcPositionMTX.row_items, twMTX.col_items)
-    return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, tcPositionMTX.col_items)
+    return TypeTokenMatrix(tc_weight_mtx, tcPositionMTX.row_items, twMTX.col_items)
-- 
2.43.0


From 25293b3b38209611214a4479b36ecb09be224ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:07 +0000
Subject: [PATCH 76/76] fix: build_tc_weight_matrix fails on tokens without
 context words

---
 nephosem/models/typetoken.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nephosem/models/typetoken.py b/nephosem/models/typetoken.py
index 6af947c..7652da2 100644
--- a/nephosem/models/typetoken.py
+++ b/nephosem/models/typetoken.py
@@ -1238,7 +1238,7 @@ def build_tc_weight_matrix(tcPositionMTX, twMTX):
     for type_, toks in type2token.items():
         tw_row = type_weight_mtx[type_]
         for tok in toks:
-            tc_row = tok_context_mtx[tok]
+            tc_row = tok_context_mtx.get(tok, {})  # a token may have no context words
             tc_feats = tc_row.keys()
             for feat in tc_feats:
                 if feat not in tw_row:
-- 
2.43.0

