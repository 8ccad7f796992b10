From d8345bc2ee215bf9310fa5b5e8c51cf3dd45a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 01/61] fix: apply weight_mask when retrieving with the numba
 backend

---
 bm25s/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 2ca7691..b31d029 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -790,6 +790,7 @@ class BM25:
                 dtype=self.dtype,
                 int_dtype=self.int_dtype,
                 nonoccurrence_array=self.nonoccurrence_array,
+                weight_mask=weight_mask,
             )
 
             if return_as == "tuple":
-- 
2.43.0


From 1110b80c345c902f345b0aa1cf39bf04416d5296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 02/61] fix: apply weight_mask after the non-occurrence scores
 so masked documents score 0

---
 bm25s/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index b31d029..53bda7f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -528,16 +528,16 @@ class BM25:
             dtype=dtype,
         )
 
-        if weight_mask is not None:
-            # multiply the scores by the weight mask
-            scores *= weight_mask
-
         # if there's a non-occurrence array, we need to add the non-occurrence score
         # back to the scores
         if self.nonoccurrence_array is not None:
             nonoccurrence_scores = self.nonoccurrence_array[query_tokens_ids].sum()
             scores += nonoccurrence_scores
 
+        if weight_mask is not None:
+            # multiply the full scores (including the non-occurrence part) by the weight mask
+            scores *= weight_mask
+
         return scores
 
     def get_scores(
-- 
2.43.0


From 1dae35440338dec10efad4702b44c83b404eaa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 03/61] fix: give the created empty token a column so queries
 without known tokens can be scored

---
 bm25s/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 53bda7f..d212c79 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -483,6 +483,13 @@ class BM25:
             
             if "" not in vocab_dict:
                 vocab_dict[""] = max(vocab_dict.values()) + 1
+                # the empty token needs its own (empty) column in the index, otherwise
+                # looking it up at query time is out of bounds
+                scores["indptr"] = np.append(scores["indptr"], scores["indptr"][-1:])
+                if self.nonoccurrence_array is not None:
+                    self.nonoccurrence_array = np.append(
+                        self.nonoccurrence_array, self.nonoccurrence_array.dtype.type(0)
+                    )
 
         self.scores = scores
         self.vocab_dict = vocab_dict
-- 
2.43.0


From 546758c2940beee442d71e123d5f200d361300fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 04/61] fix: get_scores of an empty query returns zero scores
 instead of IndexError

---
 bm25s/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index d212c79..d94d5e9 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -553,7 +553,10 @@ class BM25:
         if not isinstance(query_tokens_single, list):
             raise ValueError("The query_tokens must be a list of tokens.")
 
-        if isinstance(query_tokens_single[0], str):
+        if len(query_tokens_single) == 0:
+            # nothing to convert: an empty query scores zero for every document
+            query_tokens_ids = query_tokens_single
+        elif isinstance(query_tokens_single[0], str):
             query_tokens_ids = self.get_tokens_ids(query_tokens_single)
         elif isinstance(query_tokens_single[0], int):
             # already are token IDs, no need to convert
-- 
2.43.0


From c1943d9945f0469a0326a986038a8c91053bb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 05/61] fix: tokens that occur in no document contribute
 nothing instead of dividing by zero

---
 bm25s/scoring.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/scoring.py b/bm25s/scoring.py
index 4b567e7..d4c2fa9 100644
--- a/bm25s/scoring.py
+++ b/bm25s/scoring.py
@@ -53,6 +53,10 @@ def _build_idf_array(
     idf_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            # tokens of the vocabulary that occur in no document (e.g. the empty token)
+            # have no idf, and never contribute to a score
+            continue
         idf_array[token_id] = compute_idf_fn(df, N=n_docs)
 
     return idf_array
@@ -87,6 +91,8 @@ def _build_nonoccurrence_array(
     nonoccurrence_array = np.zeros(n_vocab, dtype=dtype)
 
     for token_id, df in doc_frequencies.items():
+        if df == 0:
+            continue
         idf = compute_idf_fn(df, N=n_docs)
         tfc = calculate_tfc_fn(
             tf_array=0, l_d=l_d, l_avg=l_avg, k1=k1, b=b, delta=delta
-- 
2.43.0


From ec99a98e0dcfa12583545ed6e34be20577457b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 06/61] fix: detect the query type from the first non-empty
 query of a batch

---
 bm25s/__init__.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index d94d5e9..ffac1d5 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -91,21 +91,15 @@ def is_list_of_list_of_type(obj, type_=int):
     if not isinstance(obj, list):
         return False
 
-    if len(obj) == 0:
-        return False
-
-    first_elem = obj[0]
-    if not isinstance(first_elem, list):
-        return False
+    # the type is decided by the first non-empty list, as leading lists can be empty
+    for elem in obj:
+        if not isinstance(elem, list):
+            return False
 
-    if len(first_elem) == 0:
-        return False
-
-    first_token = first_elem[0]
-    if not isinstance(first_token, type_):
-        return False
+        if len(elem) > 0:
+            return isinstance(elem[0], type_)
 
-    return True
+    return False
 
 
 def _is_tuple_of_list_of_tokens(obj):
@@ -778,7 +772,10 @@ class BM25:
             # if is list of list of int
             if is_list_of_list_of_type(query_tokens, type_=int):
                 query_tokens_ids = query_tokens
-            elif is_list_of_list_of_type(query_tokens, type_=str):
+            elif is_list_of_list_of_type(query_tokens, type_=str) or (
+                isinstance(query_tokens, list)
+                and all(isinstance(q, list) and len(q) == 0 for q in query_tokens)
+            ):
                 query_tokens_ids = [self.get_tokens_ids(q) for q in query_tokens]
             else:
                 raise ValueError(
-- 
2.43.0


From 9840915f1efe0a56d0d117696c4eca0a8eefb9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 07/61] fix: index keeps its own copy of the vocabulary

---
 bm25s/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index ffac1d5..533505f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -453,10 +453,13 @@ class BM25:
             if inferred_corpus_obj == "tuple":
                 logger.debug(msg="Building index from IDs")
                 corpus_token_ids, vocab_dict = corpus
+                vocab_dict = dict(vocab_dict)
             elif inferred_corpus_obj == "object":
                 logger.debug(msg="Building index from IDs objects")
                 corpus_token_ids = corpus.ids
-                vocab_dict = corpus.vocab
+                # the index owns its vocabulary: it must neither modify the caller's, nor be
+                # affected when the caller's (e.g. a tokenizer's) grows after indexing
+                vocab_dict = dict(corpus.vocab)
             else:
                 raise ValueError(
                     "Internal error: Found an invalid corpus object, indicating `_inferred_corpus_object` is not working correctly."
-- 
2.43.0


From ef4a021628ab8ac06ca37d1307a3a82a8bb90272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 08/61] fix: allow indexing a corpus in which no document has
 any token

---
 bm25s/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 533505f..7473d85 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -479,7 +479,7 @@ class BM25:
                 pass
             
             if "" not in vocab_dict:
-                vocab_dict[""] = max(vocab_dict.values()) + 1
+                vocab_dict[""] = max(vocab_dict.values(), default=-1) + 1
                 # the empty token needs its own (empty) column in the index, otherwise
                 # looking it up at query time is out of bounds
                 scores["indptr"] = np.append(scores["indptr"], scores["indptr"][-1:])
-- 
2.43.0


From d7f77723b49bbe771b6c882ad117562626f48d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 09/61] fix: map integer query tokens through the vocabulary of
 an index built from integer tokens

---
 bm25s/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7473d85..dfa67bb 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -699,8 +699,15 @@ class BM25:
                     "The unique_token_ids_set attribute is not found. Please run the `index` method first, or make sure"
                     "run retriever.load(load_vocab=True) before calling retrieve on list of list of token IDs (int)."
                 )
+            # if the index was built from integer tokens, the integers of the query are tokens
+            # (keys of the vocabulary) too, which may differ from the internal token IDs
+            has_int_tokens = isinstance(next(iter(self.vocab_dict), None), int)
             query_tokens_filtered = []
             for query in query_tokens:
+                if has_int_tokens:
+                    query_tokens_filtered.append(self.get_tokens_ids(query))
+                    continue
+
                 query_filtered = [
                     token_id
                     for token_id in query
-- 
2.43.0


From 47c48f98a953854bea5de941a15ec954d30c02ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:49 +0000
Subject: [PATCH 10/61] fix: a failing index call no longer replaces the
 non-occurrence array of the current index

---
 bm25s/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index dfa67bb..22b9b0f 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -307,7 +307,7 @@ class BM25:
 
         # preliminary: if the method is one of BM25L or BM25+, we need to calculate the non-occurrence array
         if self.method in self.methods_requiring_nonoccurrence:
-            self.nonoccurrence_array = _build_nonoccurrence_array(
+            nonoccurrence_array = _build_nonoccurrence_array(
                 doc_frequencies=doc_frequencies,
                 n_docs=n_docs,
                 compute_idf_fn=_select_idf_scorer(self.idf_method),
@@ -320,7 +320,7 @@ class BM25:
                 dtype=self.dtype,
             )
         else:
-            self.nonoccurrence_array = None
+            nonoccurrence_array = None
 
         # Step 2: Calculate the idf for each token using the document frequencies
         idf_array = _build_idf_array(
@@ -344,7 +344,7 @@ class BM25:
             dtype=self.dtype,
             int_dtype=self.int_dtype,
             method=self.method,
-            nonoccurrence_array=self.nonoccurrence_array,
+            nonoccurrence_array=nonoccurrence_array,
         )
 
         # Now, we build the sparse matrix
@@ -363,6 +363,9 @@ class BM25:
             "indptr": indptr,
             "num_docs": n_docs,
         }
+        # only replace the current array once the new index is complete, so that a failure
+        # while re-indexing does not leave it inconsistent with the current scores
+        self.nonoccurrence_array = nonoccurrence_array
         return scores
 
     def build_index_from_tokens(
-- 
2.43.0


From b4e512d52e755a423fe966f365351b284ef58ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 11/61] fix: numba retrieval rejects k and token IDs that are
 out of range instead of reading out of bounds

---
 bm25s/numba/retrieve_utils.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c7fee7e..9ffc1a7 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -99,6 +99,23 @@ def _retrieve_numba_functional(
     else:
         pass
 
+    num_docs = scores["num_docs"]
+    if k > num_docs:
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {num_docs} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
+
+    # the compiled code does not check bounds, so the token IDs must be verified beforehand
+    n_tokens = len(scores["indptr"]) - 1
+    for q in query_tokens_ids:
+        if len(q) > 0 and (max(q) >= n_tokens or min(q) < 0):
+            raise ValueError(
+                f"The query contains token IDs that are not between 0 and {n_tokens - 1}, the highest token ID in the index."
+                "This likely means that the query contains tokens that are not in the index."
+            )
+
     if n_threads == -1:
         n_threads = os.cpu_count()
     elif n_threads == 0:
-- 
2.43.0


From 1ec3480ae17893f1616501575b862e7191f02e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 12/61] fix: reject negative token IDs, which the compiled
 scorer would read out of bounds

---
 bm25s/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 22b9b0f..4bf8cd0 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -526,6 +526,9 @@ class BM25:
                 "This likely means that the query contains tokens that are not in the index."
             )
 
+        if query_tokens_ids.min(initial=0) < 0:
+            raise ValueError("The token IDs in the query must not be negative.")
+
         scores = self._compute_relevance_from_scores(
             data=data,
             indptr=indptr,
-- 
2.43.0


From 6a384e2537489101b645087c00d5c19a8151deb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 13/61] fix: return documents of any type (lists, tuples, mixed
 types) unchanged

---
 bm25s/__init__.py             |  4 +++-
 bm25s/numba/retrieve_utils.py |  4 +++-
 bm25s/utils/corpus.py         | 21 ++++++++++++++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 4bf8cd0..1704320 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -864,7 +864,9 @@ class BM25:
             else:
                 index_flat = indices.flatten().tolist()
                 results = [corpus[i] for i in index_flat]
-                retrieved_docs = np.array(results).reshape(indices.shape)
+                retrieved_docs = utils.corpus.documents_to_array(
+                    results, indices.shape
+                )
 
         if return_as == "tuple":
             return Results(documents=retrieved_docs, scores=scores)
diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 9ffc1a7..3cacf0d 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -160,7 +160,9 @@ def _retrieve_numba_functional(
         else:
             index_flat = retrieved_indices.flatten().tolist()
             results = [corpus[i] for i in index_flat]
-            retrieved_docs = np.array(results).reshape(retrieved_indices.shape)
+            retrieved_docs = utils.corpus.documents_to_array(
+                results, retrieved_indices.shape
+            )
 
     if return_as == "tuple":
         return retrieved_docs, retrieved_scores
diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index b06ebba..85a61b6 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -19,6 +19,25 @@ except ImportError:
 
 from . import json_functions
 
+def documents_to_array(documents, shape):
+    """
+    Convert a list of documents of any type (strings, dictionaries, lists, mixed types, etc.) to
+    an array of the given shape, with one document per element.
+    """
+    try:
+        array = np.array(documents)
+    except ValueError:
+        array = None
+
+    # sequences would be unpacked to extra dimensions, and mixed types converted to strings
+    if array is None or array.shape != (len(documents),) or array.tolist() != documents:
+        array = np.empty(len(documents), dtype=object)
+        for i, doc in enumerate(documents):
+            array[i] = doc
+
+    return array.reshape(shape)
+
+
 def change_extension(path, new_extension):
     path = str(path)
     return path.rpartition(".")[0] + new_extension
@@ -174,7 +193,7 @@ class JsonlCorpus:
             # was a list, and then reshape it back to the original shape
             index_flat = index.flatten().tolist()
             results = [self.__getitem__(i) for i in index_flat]
-            reshaped = np.array(results).reshape(index.shape)
+            reshaped = documents_to_array(results, index.shape)
             return reshaped
         
         raise TypeError("Invalid index type")
-- 
2.43.0


From 416418f8f4a6f5871550928626ce64cba7308bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 14/61] fix: escape non-ASCII characters as valid JSON with
 orjson

---
 bm25s/utils/json_functions.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 683bf88..35b5f96 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,4 +1,5 @@
 import json
+import re
 
 try:
     import orjson
@@ -10,10 +11,18 @@ except ImportError:
 def dumps_with_builtin(d: dict, **kwargs) -> str:
     return json.dumps(d, **kwargs)
 
+def _escape_non_ascii(match) -> str:
+    code = ord(match.group())
+    if code > 0xFFFF:
+        # JSON represents these characters as a surrogate pair
+        code -= 0x10000
+        return f"\\u{0xD800 + (code >> 10):04x}\\u{0xDC00 + (code & 0x3FF):04x}"
+    return f"\\u{code:04x}"
+
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return orjson.dumps(d).decode("utf-8").encode("ascii", "backslashreplace").decode("utf-8")
+        return re.sub(r"[^\x00-\x7f]", _escape_non_ascii, orjson.dumps(d).decode("utf-8"))
     # Ignore other kwargs not supported by orjson
     return orjson.dumps(d).decode("utf-8")
 
-- 
2.43.0


From b072badb4f7c53527c875fe27dffd043aaab8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 15/61] fix: saving over a memory-mapped index or corpus does
 not write into the mapped files

---
 bm25s/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 1704320..969967b 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -934,6 +934,11 @@ class BM25:
         indices_path = save_dir / indices_name
         indptr_path = save_dir / indptr_name
 
+        # remove files of an index previously saved here instead of writing into them, since
+        # they may be memory-mapped, possibly by this very index or its corpus
+        for path in (data_path, indices_path, indptr_path, save_dir / nnoc_name):
+            path.unlink(missing_ok=True)
+
         np.save(data_path, self.scores["data"], allow_pickle=allow_pickle)
         np.save(indices_path, self.scores["indices"], allow_pickle=allow_pickle)
         np.save(indptr_path, self.scores["indptr"], allow_pickle=allow_pickle)
@@ -969,6 +974,7 @@ class BM25:
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
+            (save_dir / corpus_name).unlink(missing_ok=True)
             with open(save_dir / corpus_name, "wt", encoding="utf-8") as f:
                 # if it's not an iterable, we skip
                 if not isinstance(corpus, Iterable):
-- 
2.43.0


From afcb825a80a4e1051ec198dd280f559a8f5fabd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 16/61] fix: an interrupted save leaves no loadable mixture of
 the old and the new index

---
 bm25s/__init__.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 969967b..70f831d 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -935,8 +935,10 @@ class BM25:
         indptr_path = save_dir / indptr_name
 
         # remove files of an index previously saved here instead of writing into them, since
-        # they may be memory-mapped, possibly by this very index or its corpus
-        for path in (data_path, indices_path, indptr_path, save_dir / nnoc_name):
+        # they may be memory-mapped, possibly by this very index or its corpus. The parameters
+        # are removed first and written last, so that an interrupted save cannot be loaded
+        params_path = save_dir / params_name
+        for path in (params_path, data_path, indices_path, indptr_path, save_dir / nnoc_name):
             path.unlink(missing_ok=True)
 
         np.save(data_path, self.scores["data"], allow_pickle=allow_pickle)
@@ -954,23 +956,6 @@ class BM25:
         with open(vocab_path, "wt", encoding="utf-8") as f:
             f.write(json_functions.dumps(self.vocab_dict, ensure_ascii=False))
 
-        # Save the parameters
-        params_path = save_dir / params_name
-        params = dict(
-            k1=self.k1,
-            b=self.b,
-            delta=self.delta,
-            method=self.method,
-            idf_method=self.idf_method,
-            dtype=self.dtype,
-            int_dtype=self.int_dtype,
-            num_docs=self.scores["num_docs"],
-            version=__version__,
-            backend=self.backend,
-        )
-        with open(params_path, "w") as f:
-            json.dump(params, f, indent=4)
-
         corpus = corpus if corpus is not None else self.corpus
 
         if corpus is not None:
@@ -1004,6 +989,22 @@ class BM25:
             mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
             utils.corpus.save_mmindex(mmidx, path=save_dir / corpus_name)
 
+        # Save the parameters
+        params = dict(
+            k1=self.k1,
+            b=self.b,
+            delta=self.delta,
+            method=self.method,
+            idf_method=self.idf_method,
+            dtype=self.dtype,
+            int_dtype=self.int_dtype,
+            num_docs=self.scores["num_docs"],
+            version=__version__,
+            backend=self.backend,
+        )
+        with open(params_path, "w") as f:
+            json.dump(params, f, indent=4)
+
     def load_scores(
         self,
         save_dir,
-- 
2.43.0


From ebe12736b6238a3ad433b38c8ac442d814fefb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 17/61] fix: a document that cannot be saved no longer shifts
 the records after it

---
 bm25s/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 70f831d..7733429 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -974,16 +974,18 @@ class BM25:
                         doc = doc
                     else:
                         logging.warning(
-                            f"Document at index {i} is not a string, dictionary, list or tuple. Skipping."
+                            f"Document at index {i} is not a string, dictionary, list or tuple. Saving it as null."
                         )
-                        continue
+                        # keep the position of the documents that follow
+                        doc = None
 
                     try:
                         doc_str = json_functions.dumps(doc, ensure_ascii=False)
                     except Exception as e:
                         logging.warning(f"Error saving document at index {i}: {e}")
-                    else:
-                        f.write(doc_str + "\n")
+                        doc_str = "null"
+
+                    f.write(doc_str + "\n")
 
             # also save corpus.mmindex
             mmidx = utils.corpus.find_newline_positions(save_dir / corpus_name)
-- 
2.43.0


From 13edcb86d0c3f6f901a1292140b1defd811eb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 18/61] fix: reading lines of an on-disk corpus from several
 threads

---
 bm25s/utils/corpus.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 85a61b6..0fb19cb 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -106,8 +106,11 @@ def get_line(
     else:
         CLOSE_MMAP = False
 
-    mmap_obj.seek(mmindex[index])
-    result = mmap_obj.readline().decode(encoding)
+    # the mmap object can be shared by threads, so its position must not be used
+    start = mmindex[index]
+    end = mmap_obj.find(b"\n", start)
+    end = len(mmap_obj) if end == -1 else end + 1
+    result = mmap_obj[start:end].decode(encoding)
 
     if CLOSE_MMAP:
         mmap_obj.close()
-- 
2.43.0


From 82c78a85369d6a0dc5adb8165592d2d39488898d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 19/61] fix: on-disk corpus accepts numpy integers as index

---
 bm25s/utils/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 0fb19cb..4018d6e 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -174,7 +174,7 @@ class JsonlCorpus:
 
     def __getitem__(self, index):
         # handle multiple indices
-        if isinstance(index, int):
+        if isinstance(index, (int, np.integer)):
             return json_functions.loads(
                 get_line(
                     self.path,
-- 
2.43.0


From 1d2c0e101a9cddd87c44ccdf581e7955882d051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 20/61] fix: the empty token reuses the ID of an existing empty
 stem

---
 bm25s/tokenization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2308e01..2198ab8 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -222,7 +222,11 @@ class Tokenizer:
         using_stemmer = self.stemmer is not None
             
         if allow_empty is True and update_vocab is True and "" not in self.word_to_id:
-            idx = max(self.word_to_id.values(), default=-1) + 1
+            if using_stemmer and "" in self.stem_to_sid:
+                # a word was already stemmed to an empty string, so its ID must be reused
+                idx = self.stem_to_sid[""]
+            else:
+                idx = max(self.word_to_id.values(), default=-1) + 1
             self.word_to_id[""] = idx
             
             if using_stemmer:
-- 
2.43.0


From 729fa6f9de5b3f272d2a0d809b3078e08f67aae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 21/61] fix: load_qrels keeps all judgements of a query in
 dictionary form

---
 bm25s/utils/beir.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e14fe68..97726e2 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -271,7 +271,10 @@ def load_qrels(
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-        qrels = {qid: {cid: score} for qid, cid, score in qrels}
+        qrels_dict = {}
+        for qid, cid, score in qrels:
+            qrels_dict.setdefault(qid, {})[cid] = score
+        qrels = qrels_dict
 
     return qrels
 
-- 
2.43.0


From 91ed39e3b7c8709e4d79cc537a042e6dc2fc74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 22/61] fix: read and write BEIR datasets as UTF-8 in every
 locale

---
 bm25s/utils/beir.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 97726e2..33d3ffb 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,12 +53,12 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w") as f:
+        with open(corpus_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Corpus", leave=False
                     ):
@@ -73,12 +73,12 @@ def merge_cqa_dupstack(data_path):
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w") as f:
+        with open(queries_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
 
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Queries", leave=False
                     ):
@@ -95,13 +95,13 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w") as f:
+        with open(qrels_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.parent.name
-                with open(file, "r") as f2:
+                with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
                     next(f2)
 
@@ -192,7 +192,7 @@ def load_jsonl(
         raise FileNotFoundError(f"Corpus file not found at {corpus_path}")
 
     corpus = []
-    with open(corpus_path, "r") as f:
+    with open(corpus_path, "r", encoding="utf-8") as f:
         # get the number of bytes in the file
         num_lines = sum(1 for i in open(corpus_path, "rb"))
         pbar = tqdm(
@@ -258,7 +258,7 @@ def load_qrels(
         raise FileNotFoundError(f"Qrels file not found at {qrels_path}")
 
     qrels = []
-    with open(qrels_path, "r") as f:
+    with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
         next(f)
         for line in tqdm(
-- 
2.43.0


From 32b20c618eeb40603ef8ac74d902998cabd4eaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 23/61] fix: write the model card as UTF-8 in every locale

---
 bm25s/hf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 33955a2..f326b3f 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -563,7 +563,7 @@ class BM25HF(BM25):
                 idf_method=self.idf_method,
             )
 
-            with open(os.path.join(save_dir, "README.md"), "w") as f:
+            with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
                 f.write(results)
 
         # push content of the temporary directory to the repo
-- 
2.43.0


From 1c562ea484b0c915ba9593757a056b996a4d21b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 24/61] fix: an interrupted merge of CQADupStack is not taken
 for a complete one

---
 bm25s/utils/beir.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 33d3ffb..4cae06f 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -53,7 +53,8 @@ def merge_cqa_dupstack(data_path):
         # combine all the corpus files into one
         # corpus files are located under cqadupstack/<name>/corpus.jsonl
         corpus_files = list(data_path.glob("*/corpus.jsonl"))
-        with open(corpus_path, "w", encoding="utf-8") as f:
+        temp_path = data_path / "corpus.jsonl.tmp"
+        with open(temp_path, "w", encoding="utf-8") as f:
             for file in tqdm(corpus_files, desc="Merging Corpus", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -68,12 +69,15 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        # only a complete file is considered as merged by the next call
+        temp_path.replace(corpus_path)
 
     # now, do the same for queries.jsonl
     queries_path = data_path / "queries.jsonl"
     if not queries_path.exists():
         queries_files = list(data_path.glob("*/queries.jsonl"))
-        with open(queries_path, "w", encoding="utf-8") as f:
+        temp_path = data_path / "queries.jsonl.tmp"
+        with open(temp_path, "w", encoding="utf-8") as f:
             for file in tqdm(queries_files, desc="Merging Queries", leave=False):
                 # get the name of the corpus
                 corpus_name = file.parent.name
@@ -88,6 +92,7 @@ def merge_cqa_dupstack(data_path):
                         # write back to file
                         f.write(json_functions.dumps(line))
                         f.write("\n")
+        temp_path.replace(queries_path)
 
     # now, do the same for qrels/test.tsv
     qrels_path = data_path / "qrels" / "test.tsv"
@@ -95,7 +100,8 @@ def merge_cqa_dupstack(data_path):
 
     if not qrels_path.exists():
         qrels_files = list(data_path.glob("*/qrels/test.tsv"))
-        with open(qrels_path, "w", encoding="utf-8") as f:
+        temp_path = qrels_path.parent / "test.tsv.tmp"
+        with open(temp_path, "w", encoding="utf-8") as f:
             # First, write the columns: query-id	corpus-id	score
             f.write("query-id\tcorpus-id\tscore\n")
             for file in tqdm(qrels_files, desc="Merging Qrels", leave=False):
@@ -115,6 +121,7 @@ def merge_cqa_dupstack(data_path):
                         cid = f"{corpus_name}_{cid}"
                         # write back to file
                         f.write(f"{qid}\t{cid}\t{score}\n")
+        temp_path.replace(qrels_path)
 
 
 def download_dataset(
-- 
2.43.0


From 6ddb8a2f0640857dd37d2ec6ec2b05d888676d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 25/61] fix: a failed or incomplete download is not kept as the
 dataset archive

---
 bm25s/utils/beir.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 4cae06f..ec2e69d 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -154,7 +154,9 @@ def download_dataset(
             leave=False,
             disable=not show_progress,
         )
-        with open(save_zip_path, "wb") as f:
+        # download to a partial file, so that a failure is not taken for the complete archive
+        partial_path = save_zip_path.parent / f"{save_zip_path.name}.part"
+        with open(partial_path, "wb") as f:
             response = urllib.request.urlopen(url)
             total_size = int(response.headers.get("content-length", 0))
             block_size = 8192 * 2
@@ -169,6 +171,13 @@ def download_dataset(
 
         pbar.close()
 
+        size = partial_path.stat().st_size
+        if total_size > 0 and size != total_size:
+            raise OSError(
+                f"Incomplete download of {url}: received {size} of {total_size} bytes."
+            )
+        partial_path.replace(save_zip_path)
+
     # now that we have the zip file, extract it
     if unzip:
         with zipfile.ZipFile(save_zip_path, "r") as zip_ref:
-- 
2.43.0


From 3a0a365ef132025bca7eb642951c12e1effb9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 26/61] fix: timers only count the time during which they are
 running

---
 bm25s/utils/benchmark.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 6edf651..9acce7b 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -49,7 +49,9 @@ class Timer:
         stop_time = time.monotonic()
         r = self.results[name]
         r["stopped"] = stop_time
-        r["elapsed"] += stop_time - r.pop("last")
+        # a timer that is paused (or already stopped) is not running
+        if "last" in r:
+            r["elapsed"] += stop_time - r.pop("last")
 
         if show:
             self.show(name, n_total=n_total)
@@ -66,7 +68,8 @@ class Timer:
         paused_time = time.monotonic()
         r = self.results[name]
 
-        r["elapsed"] += paused_time - r["last"]
+        if "last" in r:
+            r["elapsed"] += paused_time - r.pop("last")
 
     def resume(self, name):
         # if not self.has_started(name):
@@ -78,7 +81,8 @@ class Timer:
         # if self.has_stopped(name):
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
-        self.results[name]["last"] = time.monotonic()
+        # resuming a running timer must not discard the time since it was started
+        self.results[name].setdefault("last", time.monotonic())
 
     def is_paused(self, name):
         return name in self.results and "paused" in self.results[name]
-- 
2.43.0


From 4542801507ed8dfc68d98ffa7ea4a5bf9276df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 27/61] fix: automatic top-k selection keeps double precision
 scores

---
 bm25s/selection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bm25s/selection.py b/bm25s/selection.py
index cdf58d3..af7d6f8 100644
--- a/bm25s/selection.py
+++ b/bm25s/selection.py
@@ -57,8 +57,10 @@ def topk(query_scores, k, backend="auto", sorted=True):
             f" Please set with a smaller k or increase the size of corpus."
         )
     if backend == "auto":
-        # if jax.lax is available, use it to speed up selection, otherwise use numpy
-        backend = "jax" if JAX_IS_AVAILABLE else "numpy"
+        # if jax.lax is available, use it to speed up selection, otherwise use numpy. By default,
+        # jax converts double precision scores to single precision, which changes them
+        is_double = getattr(query_scores, "dtype", None) == np.float64
+        backend = "jax" if JAX_IS_AVAILABLE and not is_double else "numpy"
     
     if backend not in ["numpy", "jax"]:
         raise ValueError("Invalid backend. Please choose from 'numpy' or 'jax'.")
-- 
2.43.0


From da0e1f4083fe8803cc5d80c7918ac11090bff89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 28/61] fix: remove the temporary directory when pushing to the
 hub fails

---
 bm25s/hf.py | 128 +++++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 61 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index f326b3f..73f1513 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -298,19 +298,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_vocab(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_vocab(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -410,19 +412,21 @@ class TokenizerHF(Tokenizer):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save_stopwords(save_dir)
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        try:
+            self.save_stopwords(save_dir)
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
+            )
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
     
@@ -542,42 +546,44 @@ class BM25HF(BM25):
             # save to a temporary directory otherwise
             save_dir = tempfile.mkdtemp()
 
-        self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
-        # if we include the README, write it to the directory
-        if include_readme:
-            num_docs = self.scores["num_docs"]
-            num_tokens = self.scores["data"].shape[0]
-            avg_tokens_per_doc = round(num_tokens / num_docs, 2)
-
-            results = README_TEMPLATE.format(
-                username=username,
-                version=__version__,
-                repo_name=repo_name,
-                num_docs=num_docs,
-                num_tokens=num_tokens,
-                avg_tokens_per_doc=avg_tokens_per_doc,
-                k1=self.k1,
-                b=self.b,
-                delta=self.delta,
-                method=self.method,
-                idf_method=self.idf_method,
+        try:
+            self.save(save_dir, corpus=corpus, allow_pickle=allow_pickle)
+            # if we include the README, write it to the directory
+            if include_readme:
+                num_docs = self.scores["num_docs"]
+                num_tokens = self.scores["data"].shape[0]
+                avg_tokens_per_doc = round(num_tokens / num_docs, 2)
+
+                results = README_TEMPLATE.format(
+                    username=username,
+                    version=__version__,
+                    repo_name=repo_name,
+                    num_docs=num_docs,
+                    num_tokens=num_tokens,
+                    avg_tokens_per_doc=avg_tokens_per_doc,
+                    k1=self.k1,
+                    b=self.b,
+                    delta=self.delta,
+                    method=self.method,
+                    idf_method=self.idf_method,
+                )
+
+                with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
+                    f.write(results)
+
+            # push content of the temporary directory to the repo
+            api.upload_folder(
+                repo_id=repo_id,
+                commit_message=commit_message,
+                token=api.token,
+                folder_path=save_dir,
+                repo_type=repo_url.repo_type,
+                **kwargs,
             )
-
-            with open(os.path.join(save_dir, "README.md"), "w", encoding="utf-8") as f:
-                f.write(results)
-
-        # push content of the temporary directory to the repo
-        api.upload_folder(
-            repo_id=repo_id,
-            commit_message=commit_message,
-            token=api.token,
-            folder_path=save_dir,
-            repo_type=repo_url.repo_type,
-            **kwargs,
-        )
-        # delete the temporary directory if it was created
-        if not saving_locally:
-            shutil.rmtree(save_dir)
+        finally:
+            # delete the temporary directory if it was created
+            if not saving_locally:
+                shutil.rmtree(save_dir)
 
         return repo_url
 
-- 
2.43.0


From eaacdb83a6afe957b2fefa3d2cda10c9923d6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 29/61] fix: an index built from integer tokens can be saved
 and loaded

---
 bm25s/__init__.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 7733429..9df2b40 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -953,8 +953,14 @@ class BM25:
         # Save the vocab dictionary
         vocab_path = save_dir / vocab_name
 
+        # integer tokens are saved as strings, since they are the keys of a JSON object
+        has_int_tokens = isinstance(next(iter(self.vocab_dict), None), int)
+        vocab_dict = self.vocab_dict
+        if has_int_tokens:
+            vocab_dict = {str(token): idx for token, idx in vocab_dict.items()}
+
         with open(vocab_path, "wt", encoding="utf-8") as f:
-            f.write(json_functions.dumps(self.vocab_dict, ensure_ascii=False))
+            f.write(json_functions.dumps(vocab_dict, ensure_ascii=False))
 
         corpus = corpus if corpus is not None else self.corpus
 
@@ -1004,6 +1010,9 @@ class BM25:
             version=__version__,
             backend=self.backend,
         )
+        if has_int_tokens:
+            params["has_int_tokens"] = True
+
         with open(params_path, "w") as f:
             json.dump(params, f, indent=4)
 
@@ -1146,6 +1155,11 @@ class BM25:
 
         original_version = params.pop("version", None)
         num_docs = params.pop("num_docs", None)
+        if params.pop("has_int_tokens", False):
+            vocab_dict = {
+                int(token) if token != "" else token: idx
+                for token, idx in vocab_dict.items()
+            }
 
         bm25_obj = cls(**params)
         bm25_obj.vocab_dict = vocab_dict
-- 
2.43.0


From 9fbfc2f610723aa3237233a8d1ef51cb472b2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:18 +0000
Subject: [PATCH 30/61] fix: numba top-k selection rejects a k larger than the
 number of scores instead of truncating

---
 bm25s/numba/selection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bm25s/numba/selection.py b/bm25s/numba/selection.py
index e851e35..6cfb29e 100644
--- a/bm25s/numba/selection.py
+++ b/bm25s/numba/selection.py
@@ -129,6 +129,12 @@ def topk(query_scores, k, backend="numba", sorted=True):
     This function is used to retrieve the top-k results for a single query. It will only work
     on a 1-dimensional array of scores.
     """
+    if k > len(query_scores):
+        raise ValueError(
+            f"k of {k} is larger than the number of available scores"
+            f", which is {len(query_scores)} (corpus size should be larger than top-k)."
+            f" Please set with a smaller k or increase the size of corpus."
+        )
     if backend not in ["numba"]:
         raise ValueError(
             "Invalid backend. Only 'numba' is supported."
-- 
2.43.0


From 0b84588a6857d0d4661bfcccff55692766341230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 31/61] fix: numba backend accepts weight masks of any numeric
 type

---
 bm25s/numba/retrieve_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index 3cacf0d..c3e7a81 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -131,6 +131,10 @@ def _retrieve_numba_functional(
     query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
     query_tokens_ids_flat = np.concatenate(query_tokens_ids).astype(int_dtype)
 
+    if weight_mask is not None:
+        # the weighted scores must keep their type in the compiled code
+        weight_mask = weight_mask.astype(dtype)
+
     retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
         query_pointers=query_pointers,
         query_tokens_ids_flat=query_tokens_ids_flat,
-- 
2.43.0


From 1851c89361e9916d1fa551e58df119f345f48293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 32/61] fix: a generator of documents is indexed instead of
 giving an empty index

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 9df2b40..0f525b4 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -375,6 +375,10 @@ class BM25:
         Low-level function to build the BM25 index from tokens, used by the `index` method.
         You can override this function if you want to build the index in a different way.
         """
+        if iter(corpus_tokens) is corpus_tokens:
+            # a generator can be iterated only once, but the corpus is needed twice
+            corpus_tokens = list(corpus_tokens)
+
         unique_tokens = get_unique_tokens(
             corpus_tokens,
             show_progress=show_progress,
-- 
2.43.0


From 7227386f5b1c4c9e2d2d1dc7a3e3b807b4d86654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:17 +0000
Subject: [PATCH 33/61] fix: a vocabulary with invalid token IDs is rejected
 before the current index is changed

---
 bm25s/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 0f525b4..a6fd8ba 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -473,6 +473,10 @@ class BM25:
                 )
 
             unique_token_ids = list(vocab_dict.values())
+            if not all(isinstance(i, (int, np.integer)) for i in unique_token_ids):
+                # detected before the non-occurrence array of the current index is replaced
+                raise ValueError("The token IDs of the vocabulary must be integers.")
+
             scores = self.build_index_from_ids(
                 unique_token_ids=unique_token_ids,
                 corpus_token_ids=corpus_token_ids,
-- 
2.43.0


From f835d6bed1dd19b5dc247c76c9a8fbbd3410101d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 34/61] fix: numba top-k selection of zero documents does not
 read and write out of bounds

---
 bm25s/numba/selection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bm25s/numba/selection.py b/bm25s/numba/selection.py
index 6cfb29e..b53e99e 100644
--- a/bm25s/numba/selection.py
+++ b/bm25s/numba/selection.py
@@ -93,6 +93,10 @@ def _numba_sorted_top_k(array: np.ndarray, k: int, sorted=True):
     indices = np.zeros(k, dtype=np.int32)
     length = 0
 
+    if k == 0:
+        # there is no smallest value to compare with
+        return values, indices
+
     for i, value in enumerate(array):
         if length < k:
             heap_push(values, indices, value, i, length)
-- 
2.43.0


From b93137e9887a2f3d474cfd847354fa6fd69db043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 35/61] fix: the line index of a corpus whose name has no
 extension is stored next to it

---
 bm25s/utils/corpus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index 4018d6e..cd5512b 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -40,7 +40,8 @@ def documents_to_array(documents, shape):
 
 def change_extension(path, new_extension):
     path = str(path)
-    return path.rpartition(".")[0] + new_extension
+    # the last dot may belong to a directory, if the name has no extension
+    return os.path.splitext(path)[0] + new_extension
 
 
 def find_newline_positions(path, show_progress=True, leave_progress=True, encoding="utf-8"):
-- 
2.43.0


From 5b9c3b02695033478a28206345085b1576f77f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 36/61] fix: BEIR records without metadata can be loaded

---
 bm25s/utils/beir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index ec2e69d..c6294a3 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -224,7 +224,7 @@ def load_jsonl(
                 line["title"] = line.get("title")
             if remove is not None:
                 for key in remove:
-                    del line[key]
+                    line.pop(key, None)
             corpus.append(line)
             # update the progress bar wrt the number of bytes read
 
-- 
2.43.0


From acb2304269922adbf56138e991cfdd1fc7d39c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 37/61] fix: spaces at the start of a query ID of a relevance
 file are part of the ID

---
 bm25s/utils/beir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index c6294a3..7e4fc33 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -115,7 +115,7 @@ def merge_cqa_dupstack(data_path):
                         f2, desc=f"Merging {corpus_name} Qrels", leave=False
                     ):
                         # since it's a tsv, split by tab
-                        qid, cid, score = line.strip().split("\t")
+                        qid, cid, score = line.rstrip().split("\t")
                         # add the corpus name to _id
                         qid = f"{corpus_name}_{qid}"
                         cid = f"{corpus_name}_{cid}"
@@ -283,7 +283,7 @@ def load_qrels(
             leave=False,
             disable=not show_progress,
         ):
-            qid, cid, score = line.strip().split("\t")
+            qid, cid, score = line.rstrip().split("\t")
             qrels.append((qid, cid, int(score)))
 
     if return_dict:
-- 
2.43.0


From e4abec70b1eda72484cad42ee4db9e8581c28d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 38/61] fix: an empty relevance file holds no judgements

---
 bm25s/utils/beir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 7e4fc33..214bf79 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -109,7 +109,7 @@ def merge_cqa_dupstack(data_path):
                 corpus_name = file.parent.parent.name
                 with open(file, "r", encoding="utf-8") as f2:
                     # skip first line
-                    next(f2)
+                    next(f2, None)
 
                     for line in tqdm(
                         f2, desc=f"Merging {corpus_name} Qrels", leave=False
@@ -276,7 +276,7 @@ def load_qrels(
     qrels = []
     with open(qrels_path, "r", encoding="utf-8") as f:
         # skip first line
-        next(f)
+        next(f, None)
         for line in tqdm(
             f,
             desc="Loading Qrels {}".format(dataset),
-- 
2.43.0


From 7ce16ab8ac0d62fb14b2f84ad661172565d9076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 39/61] fix: evaluate counts a repeated cutoff once

---
 bm25s/utils/beir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index 214bf79..e5cbe34 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -324,6 +324,9 @@ def evaluate(
                     results[qid].pop(pid)
                     popped.append(pid)
 
+    # a cutoff given twice must not be counted twice
+    k_values = list(dict.fromkeys(k_values))
+
     ndcg = {}
     _map = {}
     recall = {}
-- 
2.43.0


From f9a2a77985e49a411fd2684ae58a8727d2aa3931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 40/61] fix: evaluate does not remove documents from the
 caller's results

---
 bm25s/utils/beir.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index e5cbe34..a5b61a7 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -317,12 +317,10 @@ def evaluate(
         logging.info(
             "For evaluation, we ignore identical query and document ids (default), please explicitly set ``ignore_identical_ids=False`` to ignore this."
         )
-        popped = []
-        for qid, rels in results.items():
-            for pid in list(rels):
-                if qid == pid:
-                    results[qid].pop(pid)
-                    popped.append(pid)
+        results = {
+            qid: {pid: score for pid, score in rels.items() if pid != qid}
+            for qid, rels in results.items()
+        }
 
     # a cutoff given twice must not be counted twice
     k_values = list(dict.fromkeys(k_values))
-- 
2.43.0


From fe2748d6d00a4ed90b8f81ea0223852462480b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:45 +0000
Subject: [PATCH 41/61] fix: an incomplete download of unknown size is not kept
 as the dataset archive

---
 bm25s/utils/beir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bm25s/utils/beir.py b/bm25s/utils/beir.py
index a5b61a7..bcee5a8 100644
--- a/bm25s/utils/beir.py
+++ b/bm25s/utils/beir.py
@@ -176,6 +176,9 @@ def download_dataset(
             raise OSError(
                 f"Incomplete download of {url}: received {size} of {total_size} bytes."
             )
+        if total_size == 0 and not zipfile.is_zipfile(partial_path):
+            # the size is unknown, but only a complete archive ends with its directory
+            raise OSError(f"Incomplete download of {url}: not a zip archive.")
         partial_path.replace(save_zip_path)
 
     # now that we have the zip file, extract it
-- 
2.43.0


From 64a300ffb2788316adf0cda7498e2512b77e9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:37 +0000
Subject: [PATCH 42/61] fix: an index saved with the numba backend can be used
 where numba is not installed

---
 bm25s/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index a6fd8ba..3c1affb 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1169,6 +1169,11 @@ class BM25:
                 for token, idx in vocab_dict.items()
             }
 
+        # the backend that was available when the index was saved may not be installed here
+        if params.get("backend") == "numba" and _retrieve_numba_functional is None:
+            logger.warning("Numba is not installed, using the numpy backend instead.")
+            params["backend"] = "numpy"
+
         bm25_obj = cls(**params)
         bm25_obj.vocab_dict = vocab_dict
         bm25_obj._original_version = original_version
-- 
2.43.0


From 36b7b5b033579a3ad6d719381a152b81088e2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:21 +0000
Subject: [PATCH 43/61] fix: the numba backend accepts any number of threads
 instead of failing when fewer CPUs can be used

---
 bm25s/numba/retrieve_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index c3e7a81..e7c5864 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -78,7 +78,7 @@ def _retrieve_numba_functional(
     int_dtype="int32",
     weight_mask=None,
 ):  
-    from numba import get_num_threads, set_num_threads, njit
+    from numba import config, get_num_threads, set_num_threads, njit
 
 
     if backend_selection != "numba":
@@ -120,7 +120,10 @@ def _retrieve_numba_functional(
         n_threads = os.cpu_count()
     elif n_threads == 0:
         n_threads = 1
-    
+
+    # numba rejects more threads than it has launched, e.g. when fewer CPUs can be used
+    n_threads = min(n_threads, config.NUMBA_NUM_THREADS)
+
     # get og thread count
     og_n_threads = get_num_threads()
     set_num_threads(n_threads)
-- 
2.43.0


From 04936b6c9450a136fbb9f8529399152d5b0ed61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 44/61] fix: restore numba's thread count when retrieve fails
 with the numba backend

---
 bm25s/numba/retrieve_utils.py | 44 +++++++++++++++++------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/bm25s/numba/retrieve_utils.py b/bm25s/numba/retrieve_utils.py
index e7c5864..aaf4486 100644
--- a/bm25s/numba/retrieve_utils.py
+++ b/bm25s/numba/retrieve_utils.py
@@ -124,11 +124,6 @@ def _retrieve_numba_functional(
     # numba rejects more threads than it has launched, e.g. when fewer CPUs can be used
     n_threads = min(n_threads, config.NUMBA_NUM_THREADS)
 
-    # get og thread count
-    og_n_threads = get_num_threads()
-    set_num_threads(n_threads)
-
-
     # convert query_tokens_ids from list of list to a flat 1-d np.ndarray with
     # pointers to the start of each query to be used to find the boundaries of each query
     query_pointers = np.cumsum([0] + [len(q) for q in query_tokens_ids], dtype=int_dtype)
@@ -138,23 +133,28 @@ def _retrieve_numba_functional(
         # the weighted scores must keep their type in the compiled code
         weight_mask = weight_mask.astype(dtype)
 
-    retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
-        query_pointers=query_pointers,
-        query_tokens_ids_flat=query_tokens_ids_flat,
-        k=k,
-        sorted=sorted,
-        dtype=np.dtype(dtype),
-        int_dtype=np.dtype(int_dtype),
-        data=scores["data"],
-        indptr=scores["indptr"],
-        indices=scores["indices"],
-        num_docs=scores["num_docs"],
-        nonoccurrence_array=nonoccurrence_array,
-        weight_mask=weight_mask,
-    )
-
-    # reset the number of threads
-    set_num_threads(og_n_threads)
+    # get og thread count
+    og_n_threads = get_num_threads()
+    set_num_threads(n_threads)
+
+    try:
+        retrieved_scores, retrieved_indices = _retrieve_internal_jitted_parallel(
+            query_pointers=query_pointers,
+            query_tokens_ids_flat=query_tokens_ids_flat,
+            k=k,
+            sorted=sorted,
+            dtype=np.dtype(dtype),
+            int_dtype=np.dtype(int_dtype),
+            data=scores["data"],
+            indptr=scores["indptr"],
+            indices=scores["indices"],
+            num_docs=scores["num_docs"],
+            nonoccurrence_array=nonoccurrence_array,
+            weight_mask=weight_mask,
+        )
+    finally:
+        # reset the number of threads, also after a failure
+        set_num_threads(og_n_threads)
 
     if corpus is None:
         retrieved_docs = retrieved_indices
-- 
2.43.0


From aad088fa7ed8e0ad2cadc3b13fd624b379a217b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 45/61] fix: the IDs of stemmed tokens do not depend on the
 hash seed of the process

---
 bm25s/tokenization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 2198ab8..95537ba 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -604,7 +604,8 @@ def tokenize(
 
         # Now, we use the stemmer on the token_to_index dictionary to get the stemmed tokens
         tokens_stemmed = stemmer_fn(unique_tokens)
-        vocab = set(tokens_stemmed)
+        # unlike a set, keeps the order, so that the IDs are the same in every process
+        vocab = dict.fromkeys(tokens_stemmed)
         vocab_dict = {token: i for i, token in enumerate(vocab)}
         stem_id_to_stem = {v: k for k, v in vocab_dict.items()}
         # We create a dictionary mapping the stemmed tokens to their index
-- 
2.43.0


From 4e0832a7842a9ecf8cd42c4b25978fd4ef2e778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 46/61] fix: retrieved documents keep their type when numbers
 and booleans are mixed

---
 bm25s/utils/corpus.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/corpus.py b/bm25s/utils/corpus.py
index cd5512b..69c4e7b 100644
--- a/bm25s/utils/corpus.py
+++ b/bm25s/utils/corpus.py
@@ -29,8 +29,13 @@ def documents_to_array(documents, shape):
     except ValueError:
         array = None
 
-    # sequences would be unpacked to extra dimensions, and mixed types converted to strings
-    if array is None or array.shape != (len(documents),) or array.tolist() != documents:
+    # sequences would be unpacked to extra dimensions, and mixed types converted to a common one
+    if (
+        array is None
+        or array.shape != (len(documents),)
+        or len({type(doc) for doc in documents}) > 1
+        or array.tolist() != documents
+    ):
         array = np.empty(len(documents), dtype=object)
         for i, doc in enumerate(documents):
             array[i] = doc
-- 
2.43.0


From 65785b9eac3c567aeacbe72b4de5b400037aa332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 47/61] fix: Timer.is_paused and Timer.is_resumed tell whether
 a timer is paused or resumed

---
 bm25s/utils/benchmark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 9acce7b..22d1c04 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -70,6 +70,8 @@ class Timer:
 
         if "last" in r:
             r["elapsed"] += paused_time - r.pop("last")
+            r["paused"] = paused_time
+            r.pop("resumed", None)
 
     def resume(self, name):
         # if not self.has_started(name):
@@ -82,7 +84,10 @@ class Timer:
         #     raise ValueError(f"Timer with name {name} already stopped.")
 
         # resuming a running timer must not discard the time since it was started
-        self.results[name].setdefault("last", time.monotonic())
+        r = self.results[name]
+        if "last" not in r:
+            r["last"] = r["resumed"] = time.monotonic()
+            r.pop("paused", None)
 
     def is_paused(self, name):
         return name in self.results and "paused" in self.results[name]
-- 
2.43.0


From 0bbacbbc83cae3f5c5daa7097cb8a5c9085c9f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:23 +0000
Subject: [PATCH 48/61] fix: the hub card shows tokenizer calls that exist

---
 bm25s/hf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bm25s/hf.py b/bm25s/hf.py
index 73f1513..0204780 100644
--- a/bm25s/hf.py
+++ b/bm25s/hf.py
@@ -115,8 +115,9 @@ If you have saved a `Tokenizer` object with the index using the following approa
 from bm25s.hf import TokenizerHF
 
 token = "your_hugging_face_token"
-tokenizer = TokenizerHF(corpus=corpus, stopwords="english")
-tokenizer.save_to_hub("{username}/{repo_name}", token=token)
+tokenizer = TokenizerHF(stopwords="english")
+corpus_tokens = tokenizer.tokenize(corpus)
+tokenizer.save_vocab_to_hub("{username}/{repo_name}", token=token)
 
 # and stopwords too
 tokenizer.save_stopwords_to_hub("{username}/{repo_name}", token=token)
@@ -127,7 +128,7 @@ Then, you can load the tokenizer using the following code:
 ```python
 from bm25s.hf import TokenizerHF
 
-tokenizer = TokenizerHF(corpus=corpus, stopwords=[])
+tokenizer = TokenizerHF(stopwords=[])
 tokenizer.load_vocab_from_hub("{username}/{repo_name}", token=token)
 tokenizer.load_stopwords_from_hub("{username}/{repo_name}", token=token)
 ```
-- 
2.43.0


From 58d68df1daf86a61e3222294885ce1f46cb68329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 49/61] fix: orjson stores the same object keys as the builtin
 json module

Dictionaries with integer keys or keys of a subclass of str (e.g. numpy strings) were rejected with orjson only:
such a document was saved as null, and a vocabulary of such tokens could not be saved.
---
 bm25s/utils/json_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 35b5f96..d4266af 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -20,11 +20,13 @@ def _escape_non_ascii(match) -> str:
     return f"\\u{code:04x}"
 
 def dumps_with_orjson(d: dict, **kwargs) -> str:
+    # the keys of an object may be numbers or subclasses of str, as with the builtin module
+    data = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
-        return re.sub(r"[^\x00-\x7f]", _escape_non_ascii, orjson.dumps(d).decode("utf-8"))
+        return re.sub(r"[^\x00-\x7f]", _escape_non_ascii, data)
     # Ignore other kwargs not supported by orjson
-    return orjson.dumps(d).decode("utf-8")
+    return data
 
 if ORJSON_AVAILABLE:
     def dumps(d: dict, **kwargs) -> str:
-- 
2.43.0


From 440795f493d6ce782e496e2e808d887a07127109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 50/61] fix: save and search an index whose tokens or token IDs
 are numpy integers

index accepts numpy integers as the token IDs of a vocabulary, but save could not store them, and numpy integers
used as tokens were not recognised as integer tokens.
---
 bm25s/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 3c1affb..163035a 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -715,7 +715,7 @@ class BM25:
                 )
             # if the index was built from integer tokens, the integers of the query are tokens
             # (keys of the vocabulary) too, which may differ from the internal token IDs
-            has_int_tokens = isinstance(next(iter(self.vocab_dict), None), int)
+            has_int_tokens = isinstance(next(iter(self.vocab_dict), None), (int, np.integer))
             query_tokens_filtered = []
             for query in query_tokens:
                 if has_int_tokens:
@@ -962,10 +962,11 @@ class BM25:
         vocab_path = save_dir / vocab_name
 
         # integer tokens are saved as strings, since they are the keys of a JSON object
-        has_int_tokens = isinstance(next(iter(self.vocab_dict), None), int)
-        vocab_dict = self.vocab_dict
-        if has_int_tokens:
-            vocab_dict = {str(token): idx for token, idx in vocab_dict.items()}
+        has_int_tokens = isinstance(next(iter(self.vocab_dict), None), (int, np.integer))
+        vocab_dict = {
+            str(token) if has_int_tokens else token: int(idx)
+            for token, idx in self.vocab_dict.items()
+        }
 
         with open(vocab_path, "wt", encoding="utf-8") as f:
             f.write(json_functions.dumps(vocab_dict, ensure_ascii=False))
-- 
2.43.0


From fd8770b0865e18109acb6a7654bb107e0947f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 51/61] fix: save an index whose parameters are numpy numbers
 or types

BM25(k1=np.float32(1.2)) or BM25(dtype=np.float32) could index and search, but save failed after having removed
the index saved before.
---
 bm25s/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 163035a..8af6fb8 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1023,7 +1023,15 @@ class BM25:
             params["has_int_tokens"] = True
 
         with open(params_path, "w") as f:
-            json.dump(params, f, indent=4)
+            # parameters may be numpy numbers and types, which JSON does not know
+            json.dump(
+                params,
+                f,
+                indent=4,
+                default=lambda x: x.item()
+                if isinstance(x, (np.generic, np.ndarray))
+                else np.dtype(x).name,
+            )
 
     def load_scores(
         self,
-- 
2.43.0


From 30da3444381a01e0a6e3756fac73c2d9cd2a46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 52/61] fix: a corpus that is not iterable is skipped as
 announced

save warned that it skips such a corpus, removed the corpus saved before, and then failed; it also warned that it
skips an on-disk corpus, which it stores.
---
 bm25s/__init__.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 8af6fb8..8340ef4 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -973,15 +973,19 @@ class BM25:
 
         corpus = corpus if corpus is not None else self.corpus
 
+        if corpus is not None:
+            # if it's not an iterable, we skip
+            try:
+                iter(corpus)
+            except TypeError:
+                logging.warning(
+                    "The corpus is not an iterable. Skipping saving the corpus."
+                )
+                corpus = None
+
         if corpus is not None:
             (save_dir / corpus_name).unlink(missing_ok=True)
             with open(save_dir / corpus_name, "wt", encoding="utf-8") as f:
-                # if it's not an iterable, we skip
-                if not isinstance(corpus, Iterable):
-                    logging.warning(
-                        "The corpus is not an iterable. Skipping saving the corpus."
-                    )
-
                 for i, doc in enumerate(corpus):
                     if isinstance(doc, str):
                         doc = {"id": i, "text": doc}
-- 
2.43.0


From bcfeb5392485407f57b988315fd858892b25d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 53/61] fix: a document that cannot be encoded is stored as
 null without orjson too

Without orjson, a document with a lone surrogate made save fail half way.
---
 bm25s/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 8340ef4..28912c3 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -1000,6 +1000,8 @@ class BM25:
 
                     try:
                         doc_str = json_functions.dumps(doc, ensure_ascii=False)
+                        # text with lone surrogates cannot be written
+                        doc_str.encode("utf-8")
                     except Exception as e:
                         logging.warning(f"Error saving document at index {i}: {e}")
                         doc_str = "null"
-- 
2.43.0


From ec082d03f6e866ecfa7b24de991be2ae66e381bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:03 +0000
Subject: [PATCH 54/61] fix: a save that cannot store its vocabulary leaves the
 directory as it was

A token with a lone surrogate made save fail only after the index saved before had been removed.
---
 bm25s/__init__.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 28912c3..18f57cb 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -933,6 +933,16 @@ class BM25:
             If True, the arrays will be saved using pickle. If False, the arrays will be saved
             in a more efficient format, but they will not be readable by older versions of numpy.
         """
+        # integer tokens are saved as strings, since they are the keys of a JSON object
+        has_int_tokens = isinstance(next(iter(self.vocab_dict), None), (int, np.integer))
+        vocab_dict = {
+            str(token) if has_int_tokens else token: int(idx)
+            for token, idx in self.vocab_dict.items()
+        }
+        # a vocabulary that cannot be stored is detected before anything saved here is removed
+        vocab_json = json_functions.dumps(vocab_dict, ensure_ascii=False)
+        vocab_json.encode("utf-8")
+
         # Save the self.vocab_dict and self.score_matrix to the save_dir
         save_dir = Path(save_dir)
         save_dir.mkdir(parents=True, exist_ok=True)
@@ -960,16 +970,8 @@ class BM25:
 
         # Save the vocab dictionary
         vocab_path = save_dir / vocab_name
-
-        # integer tokens are saved as strings, since they are the keys of a JSON object
-        has_int_tokens = isinstance(next(iter(self.vocab_dict), None), (int, np.integer))
-        vocab_dict = {
-            str(token) if has_int_tokens else token: int(idx)
-            for token, idx in self.vocab_dict.items()
-        }
-
         with open(vocab_path, "wt", encoding="utf-8") as f:
-            f.write(json_functions.dumps(vocab_dict, ensure_ascii=False))
+            f.write(vocab_json)
 
         corpus = corpus if corpus is not None else self.corpus
 
-- 
2.43.0


From 94dabb67000b49e63e97c509d7fbd33f3583db9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 55/61] fix: a vocabulary or stopwords that cannot be saved
 leave the file saved before

The file was emptied before the contents were found to be no JSON (e.g. a lone surrogate in a word).
---
 bm25s/tokenization.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 95537ba..8cbe5da 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -121,13 +121,15 @@ class Tokenizer:
         path = save_dir / vocab_name
 
         save_dir.mkdir(parents=True, exist_ok=True)
-        with open(path, "w", encoding='utf-8') as f:
-            d = {
-                "word_to_stem": self.word_to_stem,
-                "stem_to_sid": self.stem_to_sid,
-                "word_to_id": self.word_to_id,
-            }
-            f.write(json_functions.dumps(d, ensure_ascii=False))
+        d = {
+            "word_to_stem": self.word_to_stem,
+            "stem_to_sid": self.stem_to_sid,
+            "word_to_id": self.word_to_id,
+        }
+        # what cannot be stored is detected before the file saved here is overwritten
+        content = json_functions.dumps(d, ensure_ascii=False).encode("utf-8")
+        with open(path, "wb") as f:
+            f.write(content)
         
     def load_vocab(self, save_dir: str, vocab_name: str = "vocab.tokenizer.json"):
         """
@@ -172,8 +174,10 @@ class Tokenizer:
         path = save_dir / stopwords_name
 
         save_dir.mkdir(parents=True, exist_ok=True)
+        # what cannot be stored is detected before the file saved here is overwritten
+        content = json_functions.dumps(self.stopwords)
         with open(path, "w") as f:
-            f.write(json_functions.dumps(self.stopwords))
+            f.write(content)
     
     def load_stopwords(self, save_dir: str, stopwords_name: str = "stopwords.tokenizer.json"):
         """
-- 
2.43.0


From ca303d22e1432d3bfc90e78db1eafa48d5bfae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 56/61] fix: save the stopwords of a tokenizer that was given a
 set

A set of stopwords is accepted and used, but could not be saved.
---
 bm25s/tokenization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/tokenization.py b/bm25s/tokenization.py
index 8cbe5da..18ede5e 100644
--- a/bm25s/tokenization.py
+++ b/bm25s/tokenization.py
@@ -175,7 +175,10 @@ class Tokenizer:
 
         save_dir.mkdir(parents=True, exist_ok=True)
         # what cannot be stored is detected before the file saved here is overwritten
-        content = json_functions.dumps(self.stopwords)
+        stopwords = self.stopwords
+        if isinstance(stopwords, (set, frozenset)):
+            stopwords = sorted(stopwords)
+        content = json_functions.dumps(stopwords)
         with open(path, "w") as f:
             f.write(content)
     
-- 
2.43.0


From d376158ce992276538b1d318ff4da55f62b0fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 57/61] fix: NaN and infinities are stored as null without
 orjson too

Without orjson they were written as NaN and Infinity, which are no JSON, and orjson refused to load the whole
corpus because of one of them.
---
 bm25s/utils/json_functions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index d4266af..1549961 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -1,4 +1,5 @@
 import json
+import math
 import re
 
 try:
@@ -8,7 +9,18 @@ except ImportError:
     ORJSON_AVAILABLE = False
     
 
+def _non_finite_to_none(d):
+    if isinstance(d, float):
+        return d if math.isfinite(d) else None
+    if isinstance(d, dict):
+        return {key: _non_finite_to_none(value) for key, value in d.items()}
+    if isinstance(d, (list, tuple)):
+        return [_non_finite_to_none(value) for value in d]
+    return d
+
 def dumps_with_builtin(d: dict, **kwargs) -> str:
+    # NaN and infinities are no JSON: they are stored as null, as orjson does
+    d = _non_finite_to_none(d)
     return json.dumps(d, **kwargs)
 
 def _escape_non_ascii(match) -> str:
-- 
2.43.0


From e471bafbe774aa409271e70b284ad50a7004136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 58/61] fix: orjson stores numpy floats and named tuples as the
 builtin json module does

A document with one of them was saved as null with orjson only.
---
 bm25s/utils/json_functions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bm25s/utils/json_functions.py b/bm25s/utils/json_functions.py
index 1549961..a7bd6c6 100644
--- a/bm25s/utils/json_functions.py
+++ b/bm25s/utils/json_functions.py
@@ -31,9 +31,19 @@ def _escape_non_ascii(match) -> str:
         return f"\\u{0xD800 + (code >> 10):04x}\\u{0xDC00 + (code & 0x3FF):04x}"
     return f"\\u{code:04x}"
 
+def _subclass_to_builtin(d):
+    # orjson does not know subclasses of float (e.g. numpy.float64) and tuple (e.g. named tuples)
+    if isinstance(d, float):
+        return float(d)
+    if isinstance(d, tuple):
+        return list(d)
+    raise TypeError(f"Type is not JSON serializable: {type(d).__name__}")
+
 def dumps_with_orjson(d: dict, **kwargs) -> str:
     # the keys of an object may be numbers or subclasses of str, as with the builtin module
-    data = orjson.dumps(d, option=orjson.OPT_NON_STR_KEYS).decode("utf-8")
+    data = orjson.dumps(
+        d, default=_subclass_to_builtin, option=orjson.OPT_NON_STR_KEYS
+    ).decode("utf-8")
     if kwargs.get("ensure_ascii", True):
         # Simulate `ensure_ascii=True` by escaping non-ASCII characters
         return re.sub(r"[^\x00-\x7f]", _escape_non_ascii, data)
-- 
2.43.0


From 84553635afba9232b237848870954ec2fb7cafd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 59/61] fix: the throughput that a timer shows is that of the
 exact time, short times no longer divide by zero

---
 bm25s/utils/benchmark.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bm25s/utils/benchmark.py b/bm25s/utils/benchmark.py
index 22d1c04..e4aba34 100644
--- a/bm25s/utils/benchmark.py
+++ b/bm25s/utils/benchmark.py
@@ -116,8 +116,9 @@ class Timer:
         t = self.elapsed(name) + offset
         s = f"{self.prefix} {name}: {t:.4f}s"
         if n_total is not None:
-            # calculate throughput
-            throughput = n_total / t
+            # calculate throughput from the exact time, since a short time is rounded to zero
+            t = self.results[name]["elapsed"] + offset
+            throughput = n_total / t if t > 0 else float("inf")
             s += f" ({throughput:.2f}/s)"
         print(s)
 
-- 
2.43.0


From 194e33647ae528fdf90c1fa2b58327b85e8ebf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:00 +0000
Subject: [PATCH 60/61] fix: token ids beyond the integer type of the index
 were wrapped around to other tokens

---
 bm25s/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bm25s/__init__.py b/bm25s/__init__.py
index 18f57cb..b8e4d58 100644
--- a/bm25s/__init__.py
+++ b/bm25s/__init__.py
@@ -524,7 +524,7 @@ class BM25:
 
         dtype = np.dtype(self.dtype)
         int_dtype = np.dtype(self.int_dtype)
-        query_tokens_ids: np.ndarray = np.asarray(query_tokens_ids, dtype=int_dtype)
+        query_tokens_ids: np.ndarray = np.asarray(query_tokens_ids)
 
         max_token_id = int(query_tokens_ids.max(initial=0))
 
@@ -537,6 +537,9 @@ class BM25:
         if query_tokens_ids.min(initial=0) < 0:
             raise ValueError("The token IDs in the query must not be negative.")
 
+        # only IDs that are known to be in the index, as larger ones could wrap around
+        query_tokens_ids = query_tokens_ids.astype(int_dtype)
+
         scores = self._compute_relevance_from_scores(
             data=data,
             indptr=indptr,
-- 
2.43.0


From 9afe37e011279cae01c5ccb7379989de11b6a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 61/61] fix: automatic selection narrowed 64-bit integer scores
 and failed on extended precision

---
 bm25s/selection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bm25s/selection.py b/bm25s/selection.py
index af7d6f8..3bc0efa 100644
--- a/bm25s/selection.py
+++ b/bm25s/selection.py
@@ -58,9 +58,9 @@ def topk(query_scores, k, backend="auto", sorted=True):
         )
     if backend == "auto":
         # if jax.lax is available, use it to speed up selection, otherwise use numpy. By default,
-        # jax converts double precision scores to single precision, which changes them
-        is_double = getattr(query_scores, "dtype", None) == np.float64
-        backend = "jax" if JAX_IS_AVAILABLE and not is_double else "numpy"
+        # jax converts scores of 64 bits (floats or integers) to 32 bits, which changes them
+        is_wide = np.asarray(query_scores).dtype.itemsize > 4
+        backend = "jax" if JAX_IS_AVAILABLE and not is_wide else "numpy"
     
     if backend not in ["numpy", "jax"]:
         raise ValueError("Invalid backend. Please choose from 'numpy' or 'jax'.")
-- 
2.43.0

