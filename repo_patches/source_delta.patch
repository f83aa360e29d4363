From 60ae0e2a4db08499afc3e39e554a84f754a71fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 01/23] fix: levenshtein_alignment renames attributes of its
 argument hyps

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..677731a 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1435,6 +1435,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # rename on a copy, so that the caller's `hyps` is not modified
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From f4c22f632c03a5b39f25331a547b06a8d2d6c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 02/23] fix: Nbest.from_lattice scales the scores of its
 argument in place

---
 k2/python/k2/nbest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..9c3387e 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,16 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # scale the scores of a copy, so that `lattice` is not modified
+        scaled_lattice = lattice.clone()
+        scaled_lattice.scores = lattice.scores.detach() * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From 6208122c0db31e380d2a89b98d7ddd5df495fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 03/23] fix: generate_nbest_list adds an attribute to its
 argument

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 9c3387e..be2f2e4 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -388,8 +388,8 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     assert hasattr(lats, 'phones')
 
     assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
     # we use tokens instead of phones in the following code
+    tokens = lats.phones
 
     # First, extract `num_paths` paths for each sequence.
     # paths is a k2.RaggedTensor with axes [seq][path][arc_pos]
@@ -399,7 +399,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From 9320d9ab870724b4769070123641054fa36c7bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:40 +0000
Subject: [PATCH 04/23] fix: whole_lattice_rescoring changes the scores of its
 argument

---
 k2/python/k2/nbest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index be2f2e4..5560935 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -321,6 +321,8 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
+    # work on a copy, so that the caller's lattice is not modified
+    lats = lats.clone()
     lats.scores = lats.scores - lats.lm_scores
     # Now lats contains only acoustic scores
 
-- 
2.43.0


From 9781f58f2bb82b4b9c4dbb51127c4c82998049a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 05/23] fix: closure ignores the filler of an attribute and
 fails on ragged attributes

---
 k2/python/k2/fsa_algo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 677731a..ba1ed91 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -873,8 +873,16 @@ def closure(fsa: Fsa) -> Fsa:
     for name, value in fsa.named_tensor_attr():
         if name == 'aux_labels':
             new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
+        elif isinstance(value, torch.Tensor):
+            filler = float(fsa.get_filler(name))
+            new_value = index_select(value, arc_map, default_value=filler)
         else:
-            new_value = index_select(value, arc_map)
+            assert isinstance(value, k2.RaggedTensor)
+            # Only integer types ragged attributes are supported now
+            assert value.dtype == torch.int32
+            new_value, _ = value.index(arc_map,
+                                       axis=0,
+                                       need_value_indexes=False)
         setattr(out_fsa, name, new_value)
 
     for name, value in fsa.named_non_tensor_attr():
-- 
2.43.0


From 5c4b213f3e0da94bc803b94abd0675b71857bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 06/23] fix: intersect_dense_pruned ignores the filler of an
 attribute

---
 k2/python/k2/autograd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/autograd.py b/k2/python/k2/autograd.py
index 5d62b47..2df5702 100644
--- a/k2/python/k2/autograd.py
+++ b/k2/python/k2/autograd.py
@@ -431,7 +431,11 @@ class _IntersectDensePrunedFunction(torch.autograd.Function):
 
         for name, a_value in a_fsas.named_tensor_attr(include_scores=False):
             if isinstance(a_value, torch.Tensor):
-                value = _k2.index_select(a_value, arc_map_a)
+                # arc_map_a contains -1 when allow_partial is True
+                filler = float(a_fsas.get_filler(name))
+                value = _k2.index_select(a_value,
+                                         arc_map_a,
+                                         default_value=filler)
             else:
                 assert isinstance(a_value, k2.RaggedTensor)
                 # Only integer types ragged attributes are supported now
-- 
2.43.0


From b88c933945508b5f708bda5357e048a7e76d8430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:37 +0000
Subject: [PATCH 07/23] fix: RnntDecodingStreams.format_output fills with the
 filler of another attribute

---
 k2/python/k2/rnnt_decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..5941c09 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -242,7 +242,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         assert isinstance(value, Tensor)
                         new_value = index_select(
-                            value, arc_map, default_value=filler
+                            value, arc_map, default_value=info["filler"]
                         )
                     else:
                         assert isinstance(value, RaggedTensor)
@@ -256,7 +256,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         # fill with filler value
                         new_value = torch.tensor(
-                            [filler] * num_arcs,
+                            [info["filler"]] * num_arcs,
                             dtype=info["dtype"],
                             device=device,
                         )
-- 
2.43.0


From dcab6d61081a467ef9ab2bac859daac3c320e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:03 +0000
Subject: [PATCH 08/23] fix: a rejected assignment to Fsa.scores changes the
 FSA

---
 k2/python/k2/fsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..18e21c6 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -412,10 +412,12 @@ class Fsa(object):
                 self.properties
                 return
 
+            if name == 'scores':
+                assert value.dtype == torch.float32
+
             self._tensor_attr[name] = value
 
             if name == 'scores':
-                assert value.dtype == torch.float32
                 # NOTE: we **reinterpret** the float patterns
                 # to integer patterns here.
                 self.arcs.values()[:, -1] = _k2.as_int(value.detach())
-- 
2.43.0


From c5c2e283abf087f8c21eacda03fea7201c383dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 09/23] fix: get_hat_logprobs_pruned validates lengths like its
 siblings

It only checked the padded T >= S and only for the modified type, so that
sequences with T < S gave an infinite loss instead of being rejected, as
get_rnnt_logprobs_pruned() and the other get_rnnt_logprobs*() do.
---
 k2/python/k2/rnnt_loss.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..acad908 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1074,11 +1074,8 @@ def get_hat_logprobs_pruned(
     (B, T, s_range, C) = logits.shape
     assert ranges.shape == (B, T, s_range), (ranges.shape, B, T, s_range)
     (B, S) = symbols.shape
-    assert S >= 0, S
-    assert (
-        rnnt_type != "modified" or T >= S
-    ), f"Modified transducer requires T >= S, but got T={T} and S={S}"
     assert rnnt_type in ["regular", "modified", "constrained"], rnnt_type
+    _validate_st_lengths(S, T, rnnt_type == "regular", boundary)
     assert termination_symbol == 0, f"Termination symbol must be 0, but got {termination_symbol}"
 
     # For blank symbol, log-prob is log-sigmoid of the score
-- 
2.43.0


From c97510a4b8d1e8c1fe1681abc2309a80d18d990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 10/23] fix: Determinize of an FsaVec wrote the arc maps
 through the wrong pointer

It offset arc_derivs[i] (the single output object taken as an array) instead
of derivs_vector[i]: determinizing an FsaVec with an arc map crashed or
corrupted memory.
---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..9236004 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From a044fa6c6d497db6f206cae04ef2690bbe027502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 11/23] fix: Nbest.intersect called the property
 RaggedShape.dim0

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 5560935..d9988a1 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -219,8 +219,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 3ba8b7e3312fa62c125aee0a61028db1edc50210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 12/23] fix: SymbolTable.add accepted a negative id

---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..80a0f45 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -181,6 +181,9 @@ class SymbolTable(Generic[Symbol]):
         # Specific ID not provided - use next available.
         if index is None:
             index = self._next_available_id
+        if index < 0:
+            raise ValueError(f"Cannot assign negative id '{index}' "
+                             f"to '{symbol}'")
         # Specific ID provided but not available.
         if index in self._id2sym:
             raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
-- 
2.43.0


From 6e65fa4b256f1f33b62dd3afef7244d639b27c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 13/23] fix: comparing symbol tables with different symbols
 raised KeyError

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 80a0f45..5af2ecc 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -267,7 +267,7 @@ class SymbolTable(Generic[Symbol]):
             return False
 
         for s in self.symbols:
-            if self[s] != other[s]:
+            if s not in other or self[s] != other[s]:
                 return False
 
         return True
-- 
2.43.0


From 69cdee301f5e250754969f9384d48b69345ae77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:55 +0000
Subject: [PATCH 14/23] fix: SymbolTable.to_file wrote in the locale's
 encoding, from_file reads utf-8

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 5af2ecc..eb20a96 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -158,7 +158,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From 1840ca79432f2b7ac105412a8dd122e5d3f69d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 15/23] fix: SymbolTable rejects an epsilon symbol whose id is
 not 0

---
 k2/python/k2/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index eb20a96..0e31aa5 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,8 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id, \
+                    f'{self.eps} must have id 0'
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From d7130d822d38de053651d989fbac74c646683eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 16/23] fix: FsaVecFromTensor() used the memory of its input
 tensor as scratch space

---
 k2/csrc/fsa.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..aedbc33 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -460,8 +460,7 @@ FsaVec FsaVecFromTensor(Tensor &t, bool *error) {
       row_ids12;  // we overwrote the data in the lambda above.
   RowIdsToRowSplits(row_ids2, &row_splits2);
 
-  if (!ValidateRowSplitsAndIds(row_splits2, row_ids2,
-                               &row_splits12)) {  // last arg is temp space
+  if (!ValidateRowSplitsAndIds(row_splits2, row_ids2)) {
     K2_LOG(WARNING)
         << "Could not convert tensor to FSA, problem validating "
            "row-splits and row-ids (likely data corruption or code bug)";
-- 
2.43.0


From ae622f7d385f53a51ce2056c8cba51aedae7e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 17/23] fix: GetBestPaths() overwrote the labels and scores of
 FSAs that share arcs with its copies

---
 k2/torch/csrc/fsa_algo.cu |  2 ++
 k2/torch/csrc/nbest.cu    | 13 +++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/k2/torch/csrc/fsa_algo.cu b/k2/torch/csrc/fsa_algo.cu
index adcb759..9ea08eb 100644
--- a/k2/torch/csrc/fsa_algo.cu
+++ b/k2/torch/csrc/fsa_algo.cu
@@ -94,6 +94,8 @@ void Invert(FsaClass *lattice) {
         torch::tensor(-1, torch::device(labels.device()).dtype(labels.dtype()));
     aux_labels = torch::where(labels == -1, minus_one, aux_labels);
 
+    // The arcs may be shared with other FSAs, whose labels must not change.
+    lattice->fsa = FsaVec(lattice->fsa.shape, lattice->fsa.values.Clone());
     lattice->SetTensorAttr("aux_labels", labels);
     lattice->SetLabels(aux_labels);
   } else {
diff --git a/k2/torch/csrc/nbest.cu b/k2/torch/csrc/nbest.cu
index 19ebb1f..2244251 100644
--- a/k2/torch/csrc/nbest.cu
+++ b/k2/torch/csrc/nbest.cu
@@ -33,14 +33,11 @@ Nbest Nbest::FromLattice(FsaClass &lattice, int32_t num_paths,
   K2_CHECK_EQ(lattice.fsa.NumAxes(), 3);
   K2_CHECK_GT(num_paths, 1);
 
-  torch::Tensor scores = lattice.Scores();
-  torch::Tensor saved_scores = scores.clone();
-
-  scores = scores * nbest_scale;
-  lattice.SetScores(scores);
-  Nbest ans = RandomPaths(lattice, num_paths);
-  lattice.SetScores(saved_scores);
-  return ans;
+  // Scale the scores of a copy: the arcs may be shared with other FSAs.
+  FsaClass scaled_lattice = lattice;
+  scaled_lattice.fsa = FsaVec(lattice.fsa.shape, lattice.fsa.values.Clone());
+  scaled_lattice.SetScores(lattice.Scores() * nbest_scale);
+  return RandomPaths(scaled_lattice, num_paths);
 }
 
 void Nbest::Intersect(FsaClass *lattice) {
-- 
2.43.0


From 5ab68a05129b7fe0b09872a122d0e2825f94e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 18/23] fix: OnlineDenseIntersecter used the decoding graph
 after it was freed

It kept a reference to the FsaVec passed to its constructor, which Python
may have dropped by the time decode() is called.
---
 k2/csrc/intersect_dense_pruned.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..ec5a0d3 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1638,7 +1638,7 @@ class MultiGraphDenseIntersectPruned {
   }
 
   ContextPtr c_;
-  FsaVec &a_fsas_;         // Note: a_fsas_ has 3 axes.
+  FsaVec a_fsas_;          // Note: a_fsas_ has 3 axes.
   int32_t a_fsas_stride_;  // 1 if we use a different FSA per sequence
                            // (a_fsas_.Dim0() > 1), 0 if the decoding graph is
                            // shared (a_fsas_.Dim0() == 1).
-- 
2.43.0


From 1d664b13cc9e8d53d4e5924e61790962aee0ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 19/23] fix: closure of an FSA with no arcs returned
 uninitialized arcs

---
 k2/csrc/fsa_algo.cu | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 9236004..6390a79 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1460,20 +1460,24 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           }
         }
 
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
-        }
-
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
 
         out_arcs_data[out_arc_idx01] = arc;
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  // it may happen that the start state has no leaving arcs (the fsa may have
+  // no arcs at all, so this cannot be done in the kernel above)
+  K2_EVAL(
+      c, 1, lambda_add_arc_if_no_leaving_arcs, (int32_t i)->void {
+        if (fsa_row_splits_data[1] == 0) {
+          Arc new_arc(0, fsa_final_state, -1, 0.0f);
+          out_arcs_data[i] = new_arc;
+          out_row_ids_data[i] = 0;
+          tmp_arc_map_data[i] = -1;
+        }
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From b7f6895f5e7b36e51c1419793da0da00f91ede72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 20/23] fix: accept one-element tensors whatever their stride

---
 k2/csrc/torch_util.h  | 3 ++-
 k2/torch/csrc/utils.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..f95b057 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -121,7 +121,8 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // The stride of a tensor with only one element does not matter.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 8c6125e..5d7a101 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -86,7 +86,8 @@ Array1<T> Array1FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strides.
-  if (tensor.numel() > 0)
+  // The stride of a tensor with only one element does not matter.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.stride(0), 1)
         << "Expected stride: 1. Given: " << tensor.stride(0);
 
-- 
2.43.0


From 0d5e236e5538c884c7519ef2db720ff01339c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 21/23] fix: data race on Semaphore::device_type_

---
 k2/csrc/context.cu | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/context.cu b/k2/csrc/context.cu
index 978b92d..b9a94a6 100644
--- a/k2/csrc/context.cu
+++ b/k2/csrc/context.cu
@@ -139,11 +139,15 @@ void GetBlockSizesForLambda2(int32_t m, int32_t n, dim3 *block_dim,
 
 void Semaphore::Signal(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
-        << "Semaphore must always be used with the same device type.";
+  {
+    // Signal() and Wait() are called from different threads.
+    std::lock_guard<std::mutex> lock(events_mutex_);
+    if (device_type_ == kUnk)
+      device_type_ = device_type;
+    else
+      K2_CHECK_EQ(device_type, device_type_)
+          << "Semaphore must always be used with the same device type.";
+  }
   if (device_type == kCuda) {
     cudaEvent_t event;
     cudaError_t e = cudaEventCreateWithFlags(&event, cudaEventDisableTiming);
@@ -161,11 +165,15 @@ void Semaphore::Signal(ContextPtr c) {
 
 void Semaphore::Wait(ContextPtr c) {
   DeviceType device_type = c->GetDeviceType();
-  if (device_type_ == kUnk)
-    device_type_ = device_type;
-  else
-    K2_CHECK_EQ(device_type, device_type_)
-        << "Semaphore must always be used with the same device type.";
+  {
+    // Signal() and Wait() are called from different threads.
+    std::lock_guard<std::mutex> lock(events_mutex_);
+    if (device_type_ == kUnk)
+      device_type_ = device_type;
+    else
+      K2_CHECK_EQ(device_type, device_type_)
+          << "Semaphore must always be used with the same device type.";
+  }
   semaphore_.acquire();
   if (device_type == kCuda) {
     cudaEvent_t event;
-- 
2.43.0


From 3ba4529f93bf6c2425c70ff00fbd45eb0fcbf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 22/23] fix: index_select ignored the index when its source is
 empty

---
 k2/python/csrc/torch/index_select.cu | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..40cf7a3 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,10 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, all the indexes have to be -1.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +124,11 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.sizes()[0] == 0)
+  if (index_array.Dim() == 0)
     return torch::empty({0, src.sizes()[1]}, src.options());
+  // If src is an empty tensor, all the indexes have to be -1.
+  if (src.sizes()[0] == 0)
+    return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From 4ec3cbf781bd98d9c9e89f6945a03ac0a29eecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 23/23] fix: union of FSAs with states but no arcs returned
 uninitialized arcs

---
 k2/csrc/fsa_algo.cu | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 6390a79..59e784a 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,16 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // For each FSA, add a new arc from the new start state to its start state.
+  // This is not done in the kernel above as an FSA may have no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_add_start_arcs, (int32_t fsas_idx0) {
+        int32_t state_offset = 1 - fsas_idx0;
+        Arc arc(0, fsas_row_splits1_data[fsas_idx0] + state_offset, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0

