From a088c93a0d8abd11de5cb50e638e7a0f50037e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 01/87] fix: Wp-method executes second phase tests of states
 without state identifiers

---
 aalpy/oracles/WpMethodEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..ce5cece 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -57,7 +57,9 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 _ = hyp.execute_sequence(hyp.initial_state, t + mid)
                 state = hyp.current_state
                 if state not in state_mapping:
-                    state_mapping[state] = state_characterization_set(hyp, alphabet, state)
+                    # the empty sequence still tests the access sequence itself, eg. if hypothesis has a single state or
+                    # if the outputs of the states are enough to distinguish them (Moore machines and DFAs)
+                    state_mapping[state] = state_characterization_set(hyp, alphabet, state) or [()]
 
                 for sm in state_mapping[state]:
                     yield t + mid + sm
-- 
2.43.0


From 5f5f19e4fe4d782d60147d294f0de11c273d6f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 02/87] fix: W-method and Wp-method compare already executed
 tests with the current hypothesis

---
 aalpy/oracles/WMethodEqOracle.py  | 11 +++++++++--
 aalpy/oracles/WpMethodEqOracle.py | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..dd53963 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -24,7 +24,8 @@ class WMethodEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
         self.shuffle = shuffle_test_set
-        self.cache = set()
+        # executed test cases and outputs of the SUL
+        self.cache = dict()
 
     def test_suite(self, cover, depth, char_set):
         """
@@ -73,7 +74,13 @@ class WMethodEqOracle(Oracle):
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[:ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
+            else:
+                # sequence was already executed on the SUL, but perhaps with a different hypothesis
+                out_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if out_hyp[ind] != out_sul:
+                        return seq[:ind + 1]
 
         return None
 
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index ce5cece..9be5332 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -73,7 +73,8 @@ class WpMethodEqOracle(Oracle):
     def __init__(self, alphabet: list, sul: SUL, max_number_of_states=4):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
-        self.cache = set()
+        # executed test cases and outputs of the SUL
+        self.cache = dict()
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
@@ -99,16 +100,24 @@ class WpMethodEqOracle(Oracle):
         for seq in test_suite:
             if seq not in self.cache:
                 self.reset_hyp_and_sul(hypothesis)
+                outputs = []
 
                 for ind, letter in enumerate(seq):
                     out_hyp = hypothesis.step(letter)
                     out_sul = self.sul.step(letter)
                     self.num_steps += 1
 
+                    outputs.append(out_sul)
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[: ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
+            else:
+                # sequence was already executed on the SUL, but perhaps with a different hypothesis
+                out_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if out_hyp[ind] != out_sul:
+                        return seq[: ind + 1]
 
         return None
 
-- 
2.43.0


From 54bca145f0474940f9ab8a4760c639f8b04f7572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 03/87] fix: W-method and Wp-method test minimal equivalent of
 non-minimal hypotheses

---
 aalpy/oracles/WMethodEqOracle.py  | 7 ++++++-
 aalpy/oracles/WpMethodEqOracle.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index dd53963..acd2399 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -50,7 +50,12 @@ class WMethodEqOracle(Oracle):
     def find_cex(self, hypothesis):
 
         if not hypothesis.characterization_set:
-            hypothesis.characterization_set = hypothesis.compute_characterization_set()
+            hypothesis.characterization_set = hypothesis.compute_characterization_set(raise_warning=False)
+            # non-minimal intermediate hypothesis that can occur in KV, test its minimal equivalent
+            if hypothesis.characterization_set is None:
+                hypothesis = hypothesis.copy()
+                hypothesis.minimize()
+                hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
         # covers every transition of the specification at least once.
         transition_cover = [
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 9be5332..4818318 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -78,7 +78,12 @@ class WpMethodEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
-            hypothesis.characterization_set = hypothesis.compute_characterization_set()
+            hypothesis.characterization_set = hypothesis.compute_characterization_set(raise_warning=False)
+            # non-minimal intermediate hypothesis that can occur in KV, test its minimal equivalent
+            if hypothesis.characterization_set is None:
+                hypothesis = hypothesis.copy()
+                hypothesis.minimize()
+                hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
         transition_cover = set(
             state.prefix + (letter,)
-- 
2.43.0


From f1e1c07039505f34c7ebdabb80816da3d9f77b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 04/87] fix: TransitionFocusOracle focuses on transitions of
 the reached hypothesis state

---
 aalpy/oracles/TransitionFocusOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..b3c5d0f 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -44,6 +44,7 @@ class TransitionFocusOracle(Oracle):
 
                 out_sul = self.sul.step(inputs[-1])
                 out_hyp = hypothesis.step(inputs[-1])
+                curr_state = hypothesis.current_state
                 self.num_steps += 1
 
                 if out_sul != out_hyp:
-- 
2.43.0


From ac7f6c61aa111d0c879edb9e4e31e664a275c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 05/87] fix: CacheBasedEqOracle extends observed traces

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From 5c486376ab1ab5db2a6f76e425d8c52d28319e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 06/87] fix: KWayTransitionCoverageEqOracle recomputes coverage
 of paths kept from previous hypotheses

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..8c356ab 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # cached paths were computed on previous hypotheses, so their transitions have to be recomputed
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From 4efb3d5ba772c70f2ecdca512a6efd35ca0fe30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 07/87] fix: KWayStateCoverageEqOracle distinguishes
 permutations of the same states

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..1a439cc 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -53,7 +53,9 @@ class KWayStateCoverageEqOracle(Oracle):
         shuffle(states)
 
         for comb in self.fun(hypothesis.states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+            prefixes = tuple(c.prefix for c in comb)
+            if self.fun is combinations:
+                prefixes = frozenset(prefixes)
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From 8e2ddc18908ebd8252ffa680a07ed92fd4f7b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:55 +0000
Subject: [PATCH 08/87] fix: BreadthFirstExplorationEqOracle compares every
 test case with every hypothesis

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..f2e34c8 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -25,6 +25,7 @@ class BreadthFirstExplorationEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.depth = depth
         self.queue = []
+        self.executed = dict()
 
         # generate all test-cases
         for seq in product(self.alphabet, repeat=self.depth):
@@ -34,8 +35,16 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
+        # test cases executed with previous hypotheses have to conform to the current hypothesis as well
+        for test_case, outputs in self.executed.items():
+            out_hyp = hypothesis.execute_sequence(hypothesis.initial_state, test_case)
+            for ind, out_sul in enumerate(outputs):
+                if out_hyp[ind] != out_sul:
+                    return test_case[:ind + 1]
+
         while self.queue:
-            test_case = self.queue.pop()
+            test_case = self.queue[-1]
+            outputs = []
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
@@ -43,8 +52,12 @@ class BreadthFirstExplorationEqOracle(Oracle):
                 out_sul = self.sul.step(letter)
                 self.num_steps += 1
 
+                outputs.append(out_sul)
                 if out_hyp != out_sul:
                     self.sul.post()
                     return test_case[:ind + 1]
 
+            self.executed[test_case] = outputs
+            self.queue.pop()
+
         return None
-- 
2.43.0


From da5a96a1238d40d431ba1e19c288f7272eac6e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 09/87] fix: ProvidedSequencesOracleWrapper passes the (cached)
 sul on to the wrapped oracle

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..e3d65cb 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -35,6 +35,8 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
             self.provided_counterexamples.remove(provided_cex)
 
+        # learning algorithms wrap the sul of the oracle in a cache, which has to be used by the actual oracle as well
+        self.oracle.sul = self.sul
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-- 
2.43.0


From be15cc3b2f361bf4c79ef8be6cbed5f2cd2ed472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 10/87] fix: CacheDict detects non-determinism in traces added
 to the cache

---
 aalpy/base/CacheTree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..6aaa7fd 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -162,8 +162,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From de9a5b4c1381c4ac4737cf6e87940a9d3312607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 11/87] fix: CacheDict stores the output of the empty word
 instead of raising KeyError

---
 aalpy/base/CacheTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index 6aaa7fd..96e9cf2 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
-- 
2.43.0


From c90ef02253f8aea19445bc35d9743fae639fafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 12/87] fix: CacheDict accepts membership queries given as
 lists

---
 aalpy/base/CacheTree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index 96e9cf2..ea44c00 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -155,6 +155,7 @@ class CacheDict:
             outputs associated with inputs if it is in the query, None otherwise
 
         """
+        input_seq = tuple(input_seq)
         if input_seq in self.cache_dict.keys():
             return self.get_output_sequence(input_seq)
         return None
-- 
2.43.0


From aba3ee39d06209d8795870a2c0d995ec26070833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 13/87] fix: W-method and Wp-method close the session of the
 last test before returning a counterexample

---
 aalpy/oracles/WMethodEqOracle.py  | 1 +
 aalpy/oracles/WpMethodEqOracle.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index acd2399..5865d96 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -85,6 +85,7 @@ class WMethodEqOracle(Oracle):
                 out_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
                 for ind, out_sul in enumerate(self.cache[seq]):
                     if out_hyp[ind] != out_sul:
+                        self.sul.post()
                         return seq[:ind + 1]
 
         return None
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 4818318..931b04c 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -122,6 +122,7 @@ class WpMethodEqOracle(Oracle):
                 out_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
                 for ind, out_sul in enumerate(self.cache[seq]):
                     if out_hyp[ind] != out_sul:
+                        self.sul.post()
                         return seq[: ind + 1]
 
         return None
-- 
2.43.0


From aeebcc7d6ab472908d5e8ab44d08813911608115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 14/87] fix: ProvidedSequencesOracleWrapper closes the sessions
 of sequences that are no counterexamples

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index e3d65cb..6784221 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -33,6 +33,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
                     self.sul.post()
                     return tuple(inputs)
 
+            self.sul.post()
             self.provided_counterexamples.remove(provided_cex)
 
         # learning algorithms wrap the sul of the oracle in a cache, which has to be used by the actual oracle as well
-- 
2.43.0


From 43b0f5ae31c732180e62b56337c29739f8930548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 15/87] fix: random oracles close the last session before
 reporting that no counterexample was found

---
 aalpy/oracles/RandomWalkEqOracle.py | 1 +
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/aalpy/oracles/RandomWalkEqOracle.py b/aalpy/oracles/RandomWalkEqOracle.py
index 463eb61..487bf5f 100644
--- a/aalpy/oracles/RandomWalkEqOracle.py
+++ b/aalpy/oracles/RandomWalkEqOracle.py
@@ -82,6 +82,7 @@ class RandomWalkEqOracle(Oracle):
                         cex.extend([i, o])
                     return cex
 
+        self.sul.post()
         return None
 
     def reset_counter(self):
diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..90e9e4e 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -88,6 +88,7 @@ class RandomWordEqOracle(Oracle):
                             cex.extend([i, o])
                         return cex
 
+        self.sul.post()
         return None
 
     def reset_counter(self):
-- 
2.43.0


From 06d6125bdcb4ff17b140e3e92a0b182ae722c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 16/87] fix: RandomWordEqOracle.reset_counter provides the walk
 lengths of the new walks

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 90e9e4e..651cdf0 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -93,4 +93,5 @@ class RandomWordEqOracle(Oracle):
 
     def reset_counter(self):
         if self.reset_after_cex:
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
             self.num_walks_done = 0
-- 
2.43.0


From b1af12f2321e548fec40227f1866b562b83d3fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 17/87] fix: stochastic longest prefix counterexample
 processing compares inputs and outputs

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..66f5fa3 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -20,7 +20,7 @@ def stochastic_longest_prefix(cex, prefixes):
     trimmed_cex = None
     trimmed = False
     for p in prefixes:
-        if p[1::2] == cex[:len(p)][1::2]:
+        if tuple(p) == tuple(cex[:len(p)]):
             trimmed_cex = cex[len(p):]
             trimmed = True
             break
-- 
2.43.0


From 5938d484c550388c37de93cef69a5cea2a24bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:58 +0000
Subject: [PATCH 18/87] fix: stochastic observation table populates rows of
 newly observed extensions

---
 .../stochastic/SamplingBasedObservationTable.py       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..3fc60cf 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,13 +122,12 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
+        self._update_rows(element_of_s if element_of_s else self.S)
+        # extensions are determined afterwards, so that those observed since the last update are also populated
+        self._update_rows(list(self.get_extended_s(element_of_s=element_of_s)))
 
-        for s in s_set:
+    def _update_rows(self, rows):
+        for s in rows:
             for e in self.E:
                 self.T[s][e] = self.teacher.frequency_query(s, e)
                 self.freq_query_cache[s + e] = self.T[s][e]
-- 
2.43.0


From 6b91861f22e1954ef67fc3572e3def694ae898c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 19/87] fix: non-deterministic L* checks closedness after
 removing rows from the table

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..5788386 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -77,8 +77,9 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         row_to_close = ot.get_row_to_close()
         while row_to_close is not None:
             ot.query_missing_observations()
-            row_to_close = ot.get_row_to_close()
+            # rows are removed before the table is checked for closedness, removal may leave rows unclosed
             ot.clean_obs_table()
+            row_to_close = ot.get_row_to_close()
 
         hypothesis = ot.gen_hypothesis()
 
-- 
2.43.0


From bc27620e907d0a5b716a6283836e02c2cbde4711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 20/87] fix: KWayTransitionCoverageEqOracle covers transitions
 of reachable states only, and terminates

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index 8c356ab..53b5d3f 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -76,7 +76,10 @@ class KWayTransitionCoverageEqOracle(Oracle):
         covered = set()
         step_count = 0
 
-        size_of_universe = len(hypothesis.states) * pow(len(self.alphabet), self.k)
+        # only transitions of reachable states can be covered
+        reachable_states = [state for state in hypothesis.states
+                            if hypothesis.get_shortest_path(hypothesis.initial_state, state) is not None]
+        size_of_universe = len(reachable_states) * pow(len(self.alphabet), self.k)
 
         while size_of_universe > len(covered):
             path = self.select_optimal_path(covered, paths)
@@ -121,7 +124,10 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def generate_prefix_steps(self, hypothesis: Automaton) -> tuple:
         for state in reversed(hypothesis.states):
-            prefix = state.prefix
+            # access sequence computed during learning does not have to reach the state in intermediate hypotheses
+            prefix = hypothesis.get_shortest_path(hypothesis.initial_state, state)
+            if prefix is None:
+                continue
             for steps in sorted(product(self.alphabet, repeat=self.k), key=lambda k: random()):
                 yield prefix + steps + tuple(choices(self.alphabet, k=self.random_walk_len))
 
-- 
2.43.0


From 076c4ff8e6e5507d8ab5d92e9404ea0816cf171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 21/87] fix: Sevpa.get_error_state only reports states that
 cannot be left

---
 aalpy/automata/Sevpa.py | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..b9d8ea2 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -308,45 +308,26 @@ class Sevpa(Automaton):
             - if the pop transitions from the corresponding stack symbol lead to the same state
             - for example:
                 - all q2 transitions lead to q2
-                - the pop transitions from the initial state which pop the q2+call-symbol from the stack lead to q2 as well
+                - the pop transitions from all states which pop the q2+call-symbol from the stack lead to q2 as well
 
             - Not an error state if it is the initial state or an accepting state
         """
 
         for state in self.states:
 
-            is_error_state = True
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
-            # check internal and return transitions
-            ret_int_al = []
-            ret_int_al.extend(self.input_alphabet.internal_alphabet)
-            ret_int_al.extend(self.input_alphabet.return_alphabet)
-            for letter in ret_int_al:
-                for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
-                            is_error_state = False
-                            break
-                if not is_error_state:
-                    break
+            # all internal and return transitions have to be self loops
+            is_error_state = all(transition.target_state == state
+                                 for transitions in state.transitions.values() for transition in transitions)
 
-            # check return transitions from the initial state
+            # once the state is pushed on the stack, popping it has to lead back to it from every state
             if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
-                                is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
+                is_error_state = all(transition.target_state == state
+                                     for origin in self.states
+                                     for transitions in origin.transitions.values() for transition in transitions
+                                     if transition.stack_guard and transition.stack_guard[0] == state.state_id)
 
             if is_error_state:
                 return state
-- 
2.43.0


From 2ee83217b66f47ea752455f93e70123a922c5926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 22/87] fix: KV for visibly pushdown systems computes all
 return transitions of intermediate hypotheses

---
 .../deterministic/ClassificationTree.py             | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..c46809c 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -70,9 +70,6 @@ class ClassificationTree:
         self.initial_state = None
         self.hypothesis_states = {}
 
-        # prefix of identified error state in VPDA learning
-        self.error_state_prefix = None
-
         if self.automaton_type != 'mealy':
             initial_output = sul.query(())[-1]
             cex_output = sul.query(cex)[-1]
@@ -225,9 +222,6 @@ class ClassificationTree:
                             continue
 
                         for other_state in self.hypothesis_states.values():
-                            # ignore other state if other state is error state
-                            if other_state.prefix == self.error_state_prefix:
-                                continue
                             transition_target_node = self._sift(
                                 other_state.prefix + (input_element,) + state.prefix + (return_letter,))
                             transition_target_access_string = transition_target_node.access_string
@@ -238,12 +232,7 @@ class ClassificationTree:
                             state.transitions[return_letter].append(trans)
 
         if self.automaton_type == 'vpa':
-            hypothesis = Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
-            if not self.error_state_prefix:
-                error_state = hypothesis.get_error_state()
-                if error_state:
-                    self.error_state_prefix = error_state.prefix
-            return hypothesis
+            return Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
 
         return automaton_class[self.automaton_type](initial_state=self.initial_state,
                                                     states=list(self.hypothesis_states.values()))
-- 
2.43.0


From e95b9fbefa9eaad8d049b710dbe1c0916ae3fd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 23/87] fix: return transitions of loaded 1-SEVPAs are stored
 under their return letter

---
 aalpy/utils/FileHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..c4defee 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -256,13 +256,14 @@ def _process_label(label, source, destination, automaton_type):
         source.transitions[inp].append((destination, out, float(prob)))
     if automaton_type == 'sevpa':
         match = re.match(sevpa_transition_pattern, label)
-        # cast to integer
-        label = int(label) if label.isdigit() else label
         if match:
             ret, stack_guard, top_of_stack = match.groups()
+            ret = int(ret) if ret.isdigit() else ret
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            source.transitions[ret].append(return_transition)
         else:
+            # cast to integer
+            label = int(label) if label.isdigit() else label
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
         pass
-- 
2.43.0


From 247cdbaf5a8ca5ffdf510f1a50d129853709c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 24/87] fix: load_automaton_from_file computes prefixes of
 deterministic automata if requested

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index c4defee..cdbe19b 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -407,7 +407,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and automaton_type in {'dfa', 'moore', 'mealy'}:
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From 97ea9b0f9b03e0d6f8d5bfcd7f3a08e2ffabc784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:56 +0000
Subject: [PATCH 25/87] fix: load_automaton_from_file rejects incomplete files

---
 aalpy/utils/FileHandler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index cdbe19b..f35c45f 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -378,7 +378,11 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     node_label_dict = dict()
 
     with open(Path(path)) as f:
-        for line in f.readlines():
+        lines = f.readlines()
+        # the cut-off last line of an interrupted save could be mistaken for another definition
+        if '}' not in ''.join(lines).rstrip().split('\n')[-1]:
+            raise ValueError(f'Definition of the automaton in {path} is incomplete.')
+        for line in lines:
             line = line.strip()
             if '__start0 ->' in line:
                 match = re.search(starting_state_pattern, line)
-- 
2.43.0


From 5e8cf3330292133f448c8739cda36be0b89110de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 26/87] fix: get_same_state_transitions returns transitions in
 a reproducible order

---
 aalpy/base/Automaton.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..ed7abbc 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -37,8 +37,7 @@ class AutomatonState(ABC):
         Get all transitions that lead to the same state (self loops).
         """
         dst = self.get_diff_state_transitions()
-        all_trans = set(self.transitions.keys())
-        return [t for t in all_trans if t not in dst]
+        return [t for t in self.transitions.keys() if t not in dst]
 
 
 AutomatonStateType = TypeVar("AutomatonStateType", bound=AutomatonState)
-- 
2.43.0


From 5dcbcca32973c69e4d5b3e5457a2ed32cd4dac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 27/87] fix: characterization set is computed in a reproducible
 order

---
 aalpy/base/Automaton.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index ed7abbc..cbe5361 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -399,7 +399,8 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                 for new_block in new_blocks:
                     blocks.append(new_block)
 
-        char_set = list(set(char_set))
+        # remove duplicates, but keep the order
+        char_set = list(dict.fromkeys(char_set))
         if return_same_states:
             return None, None
         return char_set
-- 
2.43.0


From 5527c5d5c46f441fdeac9757c99baa96b524b055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 28/87] fix: Wp-method executes its test suite in a
 reproducible order

---
 aalpy/oracles/WpMethodEqOracle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 931b04c..44e454c 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -85,14 +85,14 @@ class WpMethodEqOracle(Oracle):
                 hypothesis.minimize()
                 hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
-        transition_cover = set(
+        # dictionaries are used as ordered sets
+        state_cover = dict.fromkeys(state.prefix for state in hypothesis.states)
+        difference = dict.fromkeys(
             state.prefix + (letter,)
             for state in hypothesis.states
             for letter in self.alphabet
+            if state.prefix + (letter,) not in state_cover
         )
-
-        state_cover = set(state.prefix for state in hypothesis.states)
-        difference = transition_cover.difference(state_cover)
         depth = self.m + 1 - len(hypothesis.states)
         # first phase State Cover * Middle * Characterization Set
         first_phase = first_phase_it(self.alphabet, state_cover, depth, hypothesis.characterization_set)
-- 
2.43.0


From 316ab89cbb09b97af25832115cc89cfa7defba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:35 +0000
Subject: [PATCH 29/87] fix: L# keeps basis candidates in a reproducible order

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 55fbe10..d260927 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -299,10 +299,10 @@ class ObservationTree:
                     self.frontier_to_basis_dict[new_frontier] = basis_candidates
 
     def find_basis_candidates(self, new_frontier):
-        return {
+        return [
             new_basis_state for new_basis_state in self.basis
             if not Apartness.states_are_apart(new_basis_state, new_frontier, self)
-        }
+        ]
 
     def explore_frontier(self, basis_state, inp):
         # Explores a specific frontier state (basis state + input) by passing a query to the SUL
-- 
2.43.0


From d0481d765a03a295c3b7775f21a8ead421ea97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:28 +0000
Subject: [PATCH 30/87] fix: stochastic L* does not stop with a hypothesis
 refuted in the same round

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..9654ab4 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -191,7 +191,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             if stop_based_on_unambiguity:
                 break
 
-        if not refined:
+        # a refuted hypothesis is not final, even if all its cells are completed
+        if not refined and not cex:
             break
 
     total_time = round(time.time() - start_time, 2)
-- 
2.43.0


From 1692ddde81ed0a2736f4a01020c584350f4198d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 31/87] fix: total state matching of adaptive L# handles Moore
 machines

---
 aalpy/learning_algs/adaptive/StateMatching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..8969e45 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,8 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            ref_out = reference_state.is_accepting if ob_tree.automaton_type == 'dfa' else reference_state.output
+            if ref_out != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From beec810e17beced22360a14fafded883604131d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:39 +0000
Subject: [PATCH 32/87] fix: adaptive L# skips references without common inputs

---
 .../learning_algs/adaptive/AdaptiveObservationTree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..ba090e8 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,16 +488,19 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for reference_id, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
                     f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
                 continue
+            usable_references.append(reference)
+        # the list passed by the user is not changed
+        self.references = usable_references
 
+        for reference_id in range(0, len(self.references)):
+            reference = self.references[reference_id]
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-- 
2.43.0


From 364174329564de0376629106fc2e91ed0b79daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 33/87] fix: L# and adaptive L# perform max_learning_rounds
 learning rounds

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From 8d4f8271820c57cb271e2e396fbfca2a9d02ebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:55 +0000
Subject: [PATCH 34/87] fix: non-deterministic L* performs at most
 max_learning_rounds learning rounds

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 5788386..8116aa2 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,9 +67,6 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
-            break
-
         ot.S = list()
         ot.S.append((tuple(), tuple()))
         ot.query_missing_observations()
@@ -103,7 +100,8 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         else:
             cex = last_cex
 
-        if cex is None:
+        # the observation table is not extended if no further round follows
+        if cex is None or max_learning_rounds and learning_rounds == max_learning_rounds:
             break
         else:
             cex_suffixes = all_suffixes(cex[0])
-- 
2.43.0


From 7bedf93257a3740957f6e444e1b63249260fcbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 35/87] fix: non-deterministic L* adds probabilities to the
 hypothesis given to the oracle

---
 .../non_deterministic/OnfsmLstar.py           |  2 +-
 .../OnfsmObservationTable.py                  | 30 +++++++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 8116aa2..e79e9d8 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -111,7 +111,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
                     break
 
     if stochastic:
-        hypothesis = ot.gen_hypothesis(stochastic=True)
+        hypothesis = ot.add_probabilities(hypothesis)
 
     total_time = round(time.time() - start_time, 2)
     eq_query_time = round(eq_query_time, 2)
diff --git a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
index 68c9d14..cb12aa6 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
@@ -202,3 +202,33 @@ class NonDetObservationTable:
         automaton.characterization_set = self.E
 
         return automaton
+
+    def add_probabilities(self, hypothesis):
+        """
+        Add the observed frequencies of outputs to a hypothesis. The table is not used, as traces observed after the
+        hypothesis was generated, e.g., by the equivalence query, may have left it unclosed.
+
+        Args:
+
+            hypothesis: ONFSM generated by gen_hypothesis
+
+        Returns:
+
+            Stochastic Mealy machine with the states and transitions of the hypothesis
+        """
+        states = {state: StochasticMealyState(state.state_id) for state in hypothesis.states}
+
+        for state, stochastic_state in states.items():
+            stochastic_state.prefix = state.prefix
+            for letter, transitions in state.transitions.items():
+                frequencies = self.sul.cache.get_sampling_distributions(state.prefix, letter)
+                # outputs that are missing in a hypothesis that was refuted in the last round are ignored
+                total = sum(frequencies[output] for output, _ in transitions)
+                for output, destination in transitions:
+                    stochastic_state.transitions[letter].append((states[destination], output,
+                                                                 frequencies[output] / total))
+
+        automaton = StochasticMealyMachine(states[hypothesis.initial_state], list(states.values()))
+        automaton.characterization_set = self.E
+
+        return automaton
-- 
2.43.0


From b25efe0b60525f8ba4265f3c4947ac6b81b16791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 36/87] fix: KWayStateCoverageEqOracle counts the tests of
 one-state hypotheses

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index 1a439cc..4a27394 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
-- 
2.43.0


From b5bc03ee48d74983b73d69058c2cc87335b86304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 37/87] fix: ProvidedSequencesOracleWrapper counts all queries
 and steps of the wrapped oracle once

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index 6784221..08c129d 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -38,12 +38,12 @@ class ProvidedSequencesOracleWrapper(Oracle):
 
         # learning algorithms wrap the sul of the oracle in a cache, which has to be used by the actual oracle as well
         self.oracle.sul = self.sul
+        num_queries, num_steps = self.oracle.num_queries, self.oracle.num_steps
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - num_queries
+        self.num_steps += self.oracle.num_steps - num_steps
 
         return cex
 
-- 
2.43.0


From 27ea419ac6dd46729b2c7481e40444a4540af031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 38/87] fix: stochastic L* subtracts the steps of the oracle
 from the reported learning steps

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 9654ab4..5f9d027 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -203,7 +203,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From 4a50654401084d0bb77f67744a55227458eb7349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 39/87] fix: classic RPNI learns Mealy machines from data with
 outputs stored per input

---
 .../deterministic_passive/ClassicRPNI.py      | 34 ++++++-------------
 .../rpni_helper_functions.py                  | 13 +++----
 2 files changed, 17 insertions(+), 30 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..b9fd7b6 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -12,7 +12,7 @@ class ClassicRPNI:
 
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
-        self.test_data = extract_unique_sequences(self.root_node)
+        self.test_data = extract_unique_sequences(self.root_node, automaton_type)
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -66,16 +66,7 @@ class ClassicRPNI:
         """
         Only allow merging of states that have same output(s).
         """
-        if self.automaton_type != 'mealy':
-            # None is compatible with everything
-            return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
-        else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+        return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -112,18 +103,13 @@ class ClassicRPNI:
                 red_node.children[i] = blue_node.children[i]
 
     def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
+        # Outputs are stored per input, change the outputs of red only to concrete outputs
+        for i, o in blue_node.output.items():
+            if o is not None or i not in red_node.output:
+                red_node.output[i] = o
 
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
+        for i in blue_node.children.keys():
+            if i in red_node.children.keys():
+                self._fold_mealy(red_node.children[i], blue_node.children[i])
             else:
-                red_node.children[io] = blue_node.children[io]
-
+                red_node.children[i] = blue_node.children[i]
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..1e50742 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,10 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            # Outputs of Mealy machines are stored per input, check them if output in test data is concrete (not None)
+            if o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -98,7 +98,7 @@ def createPTA(data, automaton_type):
     return root_node
 
 
-def extract_unique_sequences(root_node):
+def extract_unique_sequences(root_node, automaton_type='moore'):
     def get_leaf_nodes(root):
         leaves = []
 
@@ -118,8 +118,9 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
-            curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            child_node = curr_node.children[i]
+            seq.append((i, curr_node.output.get(i) if automaton_type == 'mealy' else child_node.output))
+            curr_node = child_node
         paths.append(seq)
 
     return paths
-- 
2.43.0


From 04756e738753a0285becf57de1c3298bb557f312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 40/87] fix: classic RPNI keeps the label of the empty sequence

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index b9fd7b6..f9ea682 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -13,6 +13,8 @@ class ClassicRPNI:
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
         self.test_data = extract_unique_sequences(self.root_node, automaton_type)
+        # label of the empty sequence, which is not part of the unique sequences
+        self.initial_output = self.root_node.output if self.root_node and automaton_type != 'mealy' else None
 
         if self.print_info:
             print(f'PTA Construction Time: {round(time.time() - pta_construction_start, 2)}')
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.initial_output is not None and root_node.output != self.initial_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From 7c88e0b8647b1cea42f870be6de6814bd27f076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 41/87] fix: GSM rejects contradicting labels of the empty
 sequence

---
 aalpy/learning_algs/general_passive/GsmNode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..7dc4f47 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -421,6 +421,8 @@ class GsmNode:
                 transitions[output] = transitions.pop(unknown_output)
             if output not in transitions:
                 raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
+        elif output is not unknown_output and curr_node.get_prefix_output() != output:
+            raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
 
     @staticmethod
     def createPTA(data, output_behavior, data_format=None) -> 'GsmNode':
-- 
2.43.0


From 25f1a074b5e46f669c62f1aaa860d30b5aafe028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 42/87] fix: run_EDSM returns None if data is non-deterministic

---
 aalpy/learning_algs/general_passive/GsmAlgorithms.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/general_passive/GsmAlgorithms.py b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
index 02d85d4..f20c3d4 100644
--- a/aalpy/learning_algs/general_passive/GsmAlgorithms.py
+++ b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
@@ -40,9 +40,16 @@ def run_EDSM(data, automaton_type, input_completeness=None, print_info=True) ->
 
     internal_automaton_type = 'moore' if automaton_type != 'mealy' else automaton_type
 
-    learned_model = run_GSM(data, output_behavior=internal_automaton_type,
+    try:
+        pta = GsmNode.createPTA(data, internal_automaton_type, 'labeled_sequences')
+    except ValueError:
+        print('Data provided to EDSM is not deterministic. Ensure that the data is deterministic, '
+              'or consider using Alergia.')
+        return None
+
+    learned_model = run_GSM(pta, output_behavior=internal_automaton_type,
                             transition_behavior="deterministic",
-                            score_calc=score, data_format='labeled_sequences', instrumentation=print_level)
+                            score_calc=score, data_format='tree', instrumentation=print_level)
 
     if automaton_type == 'dfa':
         learned_model = dfa_from_moore(learned_model)
-- 
2.43.0


From 024643b73170d3d23e6c511812049ac08f05b5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 43/87] fix: run_PAPNI returns None if data is
 non-deterministic

---
 aalpy/learning_algs/deterministic_passive/RPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..314f388 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,10 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    # data is not deterministic
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
-- 
2.43.0


From 8a664c985c102b6ce73368a90374a92d4280b83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 44/87] fix: automatic epsilon of Alergia stays in the valid
 range for small data

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 6534504..40abcaf 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -18,7 +18,8 @@ class Alergia:
         self.print_info = print_info
 
         if eps == 'auto':
-            eps = 10 / sum(len(d) - 1 for d in data)  # len - 1 to ignore initial output
+            # len - 1 to ignore initial output, 2 is the largest meaningful value (also used if there is hardly any data)
+            eps = min(2, 10 / max(1, sum(len(d) - 1 for d in data)))
 
         self.diff_checker = HoeffdingCompatibility(eps) if not compatibility_checker else compatibility_checker
 
-- 
2.43.0


From d1848ca1b59f3aa5010077d80b7bdb3995ec3d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 45/87] fix: run_Alergia_EDSM learns Markov chains from data
 without steps

---
 aalpy/learning_algs/general_passive/GsmAlgorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/GsmAlgorithms.py b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
index f20c3d4..19738c7 100644
--- a/aalpy/learning_algs/general_passive/GsmAlgorithms.py
+++ b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
@@ -173,6 +173,7 @@ def run_Alergia_EDSM(data, automaton_type, eps=0.05, print_info=False):
                             instrumentation=print_level, data_format='io_traces')
 
     if automaton_type == 'mc':
-        learned_model = mc_from_mdp(learned_model)
+        # input added by mc_format_to_mdp, missing in models of data without steps
+        learned_model = mc_from_mdp(learned_model, 'Input')
 
     return learned_model
-- 
2.43.0


From 1f92b2ce79441beb9e5d03edd8454fc27a64a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 46/87] fix: samples of active Alergia pair inputs with their
 outputs

---
 .../stochastic_passive/ActiveAleriga.py              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..665cb1e 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -34,7 +35,10 @@ class RandomWordSampler(Sampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        # preserves order, so that sampling can be reproduced
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
+        # samples of stochastic Mealy machines do not start with an output
+        initial_output = [] if isinstance(model, StochasticMealyMachine) else sul.query(())
         samples = []
 
         for _ in range(self.num_walks):
@@ -43,11 +47,7 @@ class RandomWordSampler(Sampler):
 
             outputs = sul.query(random_walk)
 
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
-
-            samples.append(sample)
+            samples.append(initial_output + list(zip(random_walk, outputs)))
 
         return samples
 
-- 
2.43.0


From 0fae448f5094b7caf43b35c4755f6c58f7c9d702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 47/87] fix: active Alergia learns the requested automaton type

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 665cb1e..589fed2 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -79,7 +79,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From 1eafa1d1971db88caa96aa45f08e4e5cdaa00314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 48/87] fix: active RPNI returns None if data is
 non-deterministic

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index e3e95dd..6314faf 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -55,6 +55,9 @@ def run_active_RPNI(data, sul, sampler, n_iter, automaton_type, print_info=True)
         if print_info:
             print(f'-------------Active RPNI Iteration: {i}-------------')
         model = run_RPNI(data, automaton_type=automaton_type, print_info=print_info)
+        if model is None:
+            # data is non-deterministic
+            return None
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From df9a06b2550ce5adbdb367616a4a8a5e34758b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:29 +0000
Subject: [PATCH 49/87] fix: active RPNI samples in a reproducible order

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 3 ++-
 aalpy/utils/HelperFunctions.py                           | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index 6314faf..65d64bf 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -35,7 +35,8 @@ class RandomWordSampler(RpniActiveSampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        # preserves order, so that sampling can be reproduced
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
         for _ in range(self.num_walks):
diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..591d7c2 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -285,18 +285,19 @@ def convert_i_o_traces_for_RPNI(sequences, automaton_type="mealy"):
     Eg. [[(1,'a'), (2,'b'), (3,'c')], [(6,'7'), (4,'e'), (3,'c')]] to
     [((1,), 'a'), ((1, 2), 'b'), ((1, 2, 3), 'c'), ((6,), '7'), ((6, 4), 'e'), ((6, 4, 3), 'c')]
     """
-    rpni_sequences = set()
+    # set that preserves order
+    rpni_sequences = dict()
 
     if automaton_type not in ["mealy", "moore", "dfa"]:
         raise ValueError()
 
     for s in sequences:
         if automaton_type in ["moore", "dfa"]:
-            rpni_sequences.add((tuple(), s[0]))
+            rpni_sequences[(tuple(), s[0])] = None
             s = s[1:]
         for i in range(len(s)):
             inputs = tuple([io[0] for io in s[:i + 1]])
-            rpni_sequences.add((inputs, s[i][1]))
+            rpni_sequences[(inputs, s[i][1])] = None
 
     return list(rpni_sequences)
 
-- 
2.43.0


From 5da90050678f94b413a70eb698bc82a42d4bc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 50/87] fix: results of Prism in scientific notation are read
 correctly

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..ed91d25 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+\.\d+(?:[eE][+-]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From bd7f9627a03baa82de5be45f11f74373c306f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 51/87] fix: model file written for Prism is removed if model
 checking fails

---
 aalpy/utils/ModelChecking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index ed91d25..a3e6d48 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -165,9 +165,10 @@ def model_check_properties(model: Mdp, properties: str):
 
     prism_model_path = f'mc_exp.prism'
 
-    data = evaluate_all_properties(prism_model_path, properties)
-
-    remove(prism_model_path)
+    try:
+        data = evaluate_all_properties(prism_model_path, properties)
+    finally:
+        remove(prism_model_path)
 
     return data
 
-- 
2.43.0


From 26d9b62be82e4fe2c8a731acf529c50f4b584372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 52/87] fix: results of Prism are assigned to their properties
 if some properties fail

---
 aalpy/utils/ModelChecking.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index a3e6d48..d7abd8a 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -134,6 +134,7 @@ def evaluate_all_properties(prism_file_name, properties_file_name):
     file_abs_path = path.abspath(prism_file_name)
     properties_als_path = path.abspath(properties_file_name)
     results = {}
+    prop_index = 0
     proc = subprocess.Popen(
         [aalpy.paths.path_to_prism, file_abs_path, properties_als_path],
         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=path_to_prism_file)
@@ -141,9 +142,12 @@ def evaluate_all_properties(prism_file_name, properties_file_name):
         if not line:
             break
         else:
+            # properties without a result (e.g. due to an error) must not shift results of the following properties
+            if line.startswith('Model checking:'):
+                prop_index += 1
             match = prism_prob_output_regex.match(line)
             if match:
-                results[f'prop{len(results) + 1}'] = float(match.group(1))
+                results[f'prop{prop_index}'] = float(match.group(1))
     proc.kill()
     return results
 
@@ -192,8 +196,10 @@ def model_check_experiment(path_to_properties, correct_prop_values, mdp, precisi
     model_checking_results = model_check_properties(mdp, path_to_properties)
 
     diff_2_correct = dict()
-    for ind, val in enumerate(model_checking_results.values()):
-        diff_2_correct[f'prop{ind + 1}'] = round(abs(correct_prop_values[ind] - val), precision)
+    for ind, correct_val in enumerate(correct_prop_values):
+        key = f'prop{ind + 1}'
+        if key in model_checking_results:
+            diff_2_correct[key] = round(abs(correct_val - model_checking_results[key]), precision)
 
     results = {key: round(val, precision) for key, val in model_checking_results.items()}
     return results, diff_2_correct
-- 
2.43.0


From 2872d36c99563fdadf3c1ce58029d1da0cbbade9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 53/87] fix: stochastic L* does not stop based on properties
 that were not checked

---
 aalpy/utils/ModelChecking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index d7abd8a..36e93b0 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -232,7 +232,8 @@ def stop_based_on_confidence(hypothesis, property_based_stopping, print_level=2)
 
     if print_level >= 2:
         print('Error for each property:', [round(d * 100, 2) for d in diff.values()])
-    if not diff:
+    # all properties have to be checked
+    if len(diff) != len(correct_values):
         return False
 
     for d in diff.values():
-- 
2.43.0


From 3db133700d23fc926773523ccd22727f19263936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 54/87] fix: max_rounds limits stochastic L* with property
 based stopping

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 5f9d027..bded61b 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -181,6 +181,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             # stop based on maximum allowed error
             if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
+            if max_rounds and learning_rounds >= max_rounds:
+                break
         else:
             # stop based on number of unambiguous rows
             stop_based_on_unambiguity = observation_table.stop(learning_rounds, chaos_cex_present, cex,
-- 
2.43.0


From 37f2b9d1a0f0e829849e870d9ae9d928c71442f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 55/87] fix: input file written for JAlergia is removed if
 JAlergia fails

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 40abcaf..00aabfe 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -254,8 +254,12 @@ def run_JAlergia(path_to_data_file, automaton_type, path_to_jAlergia_jar, eps=0.
         delete_tmp_file = True
         abs_path = os.path.abspath('jAlergiaInputs.txt')
 
-    subprocess.call(['java', heap_memory, '-jar', path_to_jAlergia_jar, '-input', abs_path, '-eps', str(eps), '-type',
-                     automaton_type])
+    try:
+        subprocess.call(['java', heap_memory, '-jar', path_to_jAlergia_jar, '-input', abs_path, '-eps', str(eps),
+                         '-type', automaton_type])
+    finally:
+        if delete_tmp_file:
+            os.remove('jAlergiaInputs.txt')
 
     if not os.path.exists(save_file):
         print("JAlergia error occurred.")
@@ -263,7 +267,5 @@ def run_JAlergia(path_to_data_file, automaton_type, path_to_jAlergia_jar, eps=0.
 
     model = load_automaton_from_file(save_file, automaton_type=automaton_type)
     os.remove(save_file)
-    if delete_tmp_file:
-        os.remove('jAlergiaInputs.txt')
 
     return model
-- 
2.43.0


From d638df0d4f0f0190e4e733315458e4111131cbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 56/87] fix: total_time of L# and adaptive L# left out the
 queries of the initial observation tree

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 020ab10..e6433a9 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -79,10 +79,10 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
             for input_seq, output_seq in samples:
                 sul.cache.add_to_cache(input_seq, output_seq)
 
+    start_time = time.time()
     ob_tree = AdaptiveObservationTree(alphabet, sul, references, automaton_type,
                                       extension_rule, separation_rule,
                                       rebuilding, state_matching)
-    start_time = time.time()
     eq_query_time = 0
     learning_rounds = 0
     hypothesis = None
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index c58bec6..d7c5873 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -59,8 +59,8 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
             for input_seq, output_seq in samples:
                 sul.cache.add_to_cache(input_seq, output_seq)
 
-    ob_tree = ObservationTree(alphabet, sul, automaton_type, extension_rule, separation_rule)
     start_time = time.time()
+    ob_tree = ObservationTree(alphabet, sul, automaton_type, extension_rule, separation_rule)
 
     eq_query_time = 0
     learning_rounds = 0
-- 
2.43.0


From 8e8fb8b2ab5f3d0cc98979d8ad9b5f7439331a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 57/87] fix: copy() and pickling of a SEVPA raised a KeyError,
 as its state setup did not tell the initial state

---
 aalpy/automata/Sevpa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index b9d8ea2..596479f 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # ensure initial state is first in the list
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,8 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        # if the initial state is not given, it is the first one, as in to_state_setup
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 78d087f8d10f65def49f65f40dd807e7ba18493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 58/87] fix: to_state_setup of NDMooreMachine returned None, so
 that it could be neither copied nor pickled

---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..1f78813 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -33,6 +33,8 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
                 continue
             set_dict_entry(state)
 
+        return state_setup
+
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
         states_map = {key: NDMooreState(key, output=value[0]) for key, value in state_setup.items()}
-- 
2.43.0


From 1ca637eb5c9ee88959da153d70f52c90ae53e500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:51 +0000
Subject: [PATCH 59/87] fix: to_state_setup of a VPA raised an AttributeError,
 so that it could be neither copied nor pickled

---
 aalpy/automata/Vpa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..fcbcf4b 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -156,10 +156,14 @@ class Vpa(Automaton):
         # ensure prefixes are computed
         # self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
+        # initial state is first in the list, the error sink is added by from_state_setup
+        sorted_states = sorted((s for s in self.states if s is not Vpa.error_state),
+                               key=lambda x: (x is not self.initial_state,
+                                              len(x.prefix) if x.prefix is not None else len(self.states)))
         for s in sorted_states:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -226,7 +230,8 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        # if the initial state is not given, it is the first one, as in to_state_setup
+        init_state_id = kwargs['init_state_id'] if 'init_state_id' in kwargs else next(iter(state_setup))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 39648ea208129037a032c161b71ff563f4d1d3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 60/87] fix: execute_sequence of a VPA started with the stack
 that the previous execution left

---
 aalpy/automata/Vpa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index fcbcf4b..67384fc 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -150,6 +150,11 @@ class Vpa(Automaton):
 
         return self.current_state.is_accepting and self.stack == []
 
+    def execute_sequence(self, origin_state, seq):
+        # the execution starts with the empty stack, whatever was executed before
+        self.reset_to_initial()
+        return super().execute_sequence(origin_state, seq)
+
     def to_state_setup(self):
         state_setup_dict = {}
 
-- 
2.43.0


From 92e42b21253bdb3ab28be3a36bb3a1e8a2974f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:08 +0000
Subject: [PATCH 61/87] fix: executing an input that a state does not define
 added that input to the model

---
 aalpy/automata/Mdp.py                          | 6 +++---
 aalpy/automata/NonDeterministicMooreMachine.py | 2 +-
 aalpy/automata/Onfsm.py                        | 6 +++---
 aalpy/automata/Sevpa.py                        | 2 +-
 aalpy/automata/StochasticMealyMachine.py       | 6 +++---
 aalpy/automata/Vpa.py                          | 2 +-
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 8f530ad..8f53708 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -40,8 +40,8 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         if letter is None:
             return self.current_state.output
 
-        probability_distributions = [i[1] for i in self.current_state.transitions[letter]]
-        states = [i[0] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[1] for i in self.current_state.transitions.get(letter, [])]
+        states = [i[0] for i in self.current_state.transitions.get(letter, [])]
 
         new_state = random.choices(states, probability_distributions, k=1)[0]
 
@@ -60,7 +60,7 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
 
             output of the reached state, None otherwise
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0].output == out:
                 self.current_state = new_state[0]
                 return out
diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 1f78813..6bfcfda 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -64,6 +64,6 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
-        options = self.current_state.transitions[letter]
+        options = self.current_state.transitions.get(letter, [])
         self.current_state = random.choice(options)
         return self.current_state.output
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..77f69a6 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -63,7 +63,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the probabilistically chosen transition
 
         """
-        transition = choice(self.current_state.transitions[letter])
+        transition = choice(self.current_state.transitions.get(letter, []))
         output = transition[0]
         self.current_state = transition[1]
         return output
@@ -80,7 +80,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             list of observable outputs
 
         """
-        return [trans[0] for trans in self.current_state.transitions[letter]]
+        return [trans[0] for trans in self.current_state.transitions.get(letter, [])]
 
     def step_to(self, inp, out):
         """Performs a step on the automaton based on the input `inp` and output `out`.
@@ -95,7 +95,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the reached state, None otherwise
 
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, []):
             if new_state[0] == out:
                 self.current_state = new_state[1]
                 return out
diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 596479f..1543361 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -132,7 +132,7 @@ class Sevpa(Automaton):
             return self.current_state.is_accepting and self.stack[-1] == self.empty
 
         # get possible transitions
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
         taken_transition = None
         for t in transitions:
             if t.letter in self.return_set:
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..353f520 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -36,7 +36,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
            output of the current state
         """
         prob = random.random()
-        probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[2] for i in self.current_state.transitions.get(letter, [])]
         index = 0
         for i, p in enumerate(probability_distributions):
             prob -= p
@@ -44,7 +44,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
                 index = i
                 break
 
-        transition = self.current_state.transitions[letter][index]
+        transition = self.current_state.transitions.get(letter, [])[index]
         self.current_state = transition[0]
         return transition[1]
 
@@ -61,7 +61,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
             output of the reached state, None otherwise
 
         """
-        for (new_state, output, prob) in self.current_state.transitions[inp]:
+        for (new_state, output, prob) in self.current_state.transitions.get(inp, []):
             if output == out:
                 self.current_state = new_state
                 return out
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 67384fc..ad94c02 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -121,7 +121,7 @@ class Vpa(Automaton):
         if letter is None:
             return self.current_state.is_accepting and self.stack == []
 
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, [])
 
         taken_transition = None
 
-- 
2.43.0


From 9696407e29456fc17b96ed606ed21ea0f3dcfc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 62/87] fix: get_transition of OnfsmState ignored outputs such
 as 0, False and the empty string

---
 aalpy/automata/Onfsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index 77f69a6..06d45d5 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -37,8 +37,8 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
         Returns:
 
         """
-        possible_transitions = self.transitions[input]
-        if output:
+        possible_transitions = self.transitions.get(input, [])
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From 5de33e0a72369a59055f3efd737bee3459ebc52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 63/87] fix: FunctionDecorator dropped arguments such as 0,
 False and the empty string

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From 13b05dd73f2d78b8b56287c6791830fd7bb35273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 64/87] fix: RegexSUL accepted words of which only a prefix
 matches an alternative, and words with a final newline

---
 aalpy/SULs/RegexSUL.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..1b9a610 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -5,11 +5,11 @@ import re
 class RegexSUL(SUL):
     """
     An example implementation of a system under learning that can be used to learn any regex expression.
-    Note that the $ is added to the expression as in this SUL only exact matches are learned.
+    Note that in this SUL only exact matches are learned, whether or not the expression ends with $.
     """
     def __init__(self, regex: str):
         super().__init__()
-        self.regex = regex if regex[-1] == '$' else regex + '$'
+        self.regex = regex
         self.string = ""
 
     def pre(self):
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return True if re.fullmatch(self.regex, self.string) else False
-- 
2.43.0


From f1370a2a5ccad911cdf4fa9f6c9927f19e6abc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 65/87] fix: TomitaSUL answered the empty word as if it were
 the word None

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From ab39ae2ebfe81596aa05dd6fa8a6dd95c24bbb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 66/87] fix: sink state that make_input_complete adds to
 NDMooreMachine has the output sink_state, as documented

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 591d7c2..7329a2c 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From 7d3166d3e3222e105be9c7105294e6b9a71bcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 67/87] fix: order of the words returned by
 get_accepting_words_bfs differed between processes

---
 aalpy/automata/Sevpa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 1543361..a87d3b8 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -414,7 +414,8 @@ class Sevpa(Automaton):
         for letter in shuffled_alphabet:
             queue.append([letter])
 
-        found_words = set()
+        # dict, as the order of the returned words of equal length should not depend on hashing
+        found_words = dict()
         while queue:
             word = queue.popleft()
             self.reset_to_initial()
@@ -423,7 +424,7 @@ class Sevpa(Automaton):
             if self.error_state_reached:
                 continue
             if self.current_state.is_accepting and self.stack[-1] == self.empty and len(word) >= min_word_length:
-                found_words.add(tuple(word))
+                found_words[tuple(word)] = None
             if len(found_words) >= num_words:
                 found_words = list(found_words)
                 found_words.sort(key=len)
-- 
2.43.0


From af43c9e07afe65254aa94ff1c7ad1f0d969d1fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 68/87] fix: generate_random_sevpa left out internal
 transitions and letters

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..3de5213 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -503,7 +503,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not _has_transition(state, internal_letter, None):
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From aefd2cb8c3692df88331421623884c628592c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 69/87] fix: IODelimiterTokenizer read an initial output 0 as
 '0', all other outputs as numbers

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..0895505 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
-- 
2.43.0


From 54751d14ae673845c5274cb05f7dc2d1c7591840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 70/87] fix: generate_random_deterministic_automata never
 returned if no minimal automaton of the requested size exists

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 3de5213..b89f77c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -124,6 +124,7 @@ def generate_random_deterministic_automata(automaton_type,
             if minimality_iterations == 100:
                 warnings.warn(f'Non-minimal automaton ({automaton_type}, num_states : {num_states}) returned.')
                 break
+            minimality_iterations += 1
 
             custom_args = {}
             if 'custom_input_alphabet' in kwargs:
-- 
2.43.0


From 5e6a830c629065a0605d4e3b5a65ba0bf8a2dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 71/87] fix: generate_random_smm used an output twice for the
 same state and input

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index b89f77c..6f044f6 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -351,6 +351,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
 
                     # ensure determinism
                     if new_output not in observed_outputs:
+                        observed_outputs.append(new_output)
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
                         break
-- 
2.43.0


From 8ba9349e96e3a9fbb87b581e61f2b32ad98d6ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 72/87] fix: get_complete_sample of a Mealy machine with a
 single state was empty

---
 aalpy/utils/Sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/Sampling.py b/aalpy/utils/Sampling.py
index 3e6d454..9ed2fc8 100644
--- a/aalpy/utils/Sampling.py
+++ b/aalpy/utils/Sampling.py
@@ -83,5 +83,8 @@ def get_complete_sample(automaton: DeterministicAutomaton):
     alphabet = automaton.get_input_alphabet()
     automaton.compute_prefixes()
     char_set = automaton.compute_characterization_set()
+    if char_set == []:
+        # a Mealy machine with a single state: nothing to distinguish, but its outputs belong to the sample
+        char_set = [(x,) for x in alphabet]
     infixes = [(x,) for x in alphabet] + [tuple()]
     return [state.prefix + infix + suffix for state in automaton.states for suffix in char_set for infix in infixes]
-- 
2.43.0


From d25f85c2f94a332d0a7f93c694f4bf660ba95a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 73/87] fix: compute_characterization_set extended the list of
 the caller

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index cbe5361..8f53ede 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -345,7 +345,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 141e9b3f046b33096d4008350202a9b3ade64e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 74/87] fix: characterization sets of a Dfa or Moore machine
 lacked the empty sequence if initial sequences were given

---
 aalpy/automata/Dfa.py          | 5 ++++-
 aalpy/automata/MooreMachine.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..d93cccb 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,7 +42,10 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(Dfa, self).compute_characterization_set(char_set_init,
                                                              online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..5554655 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,7 +39,10 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init,
                                                                       online_suffix_closure, split_all_blocks,
                                                                       return_same_states, raise_warning)
 
-- 
2.43.0


From 0180ec721289a21dff8736a87d58c6e0b99b1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 75/87] fix: minimize removed the initial state

---
 aalpy/base/Automaton.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 8f53ede..9b8dd9f 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -437,6 +437,9 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
 
         s1, s2 = self.compute_characterization_set(return_same_states=True)
         while s1 and s2:
+            # the initial state is never the one that is removed
+            if s2 is self.initial_state:
+                s1, s2 = s2, s1
             for s in self.states:
                 for i, new_state in s.transitions.items():
                     if new_state == s2:
-- 
2.43.0


From 4faae46954851cf87c472f7ab9fd792fec847142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 76/87] fix: compare_automata did not terminate if there are
 few counterexamples

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 36e93b0..e43b825 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -341,7 +341,7 @@ def compare_automata(aut_1: DeterministicAutomaton, aut_2: DeterministicAutomato
     # be reached
     failsafe_counter = 0
     failsafe_stopping = num_cex * 100
-    while len(found_cex) < num_cex or failsafe_counter == failsafe_stopping:
+    while len(found_cex) < num_cex and failsafe_counter < failsafe_stopping:
         cex = eq_oracle.find_cex(test_automaton)
         # if no counterexample can be found terminate the loop
         if cex is None:
-- 
2.43.0


From c137fb41d1035f81449d0741c19d6d540cc7bb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 77/87] fix: generate_test_cases dropped the last test case

---
 aalpy/utils/ModelChecking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index e43b825..16378a9 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -371,6 +371,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+        self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -404,6 +405,9 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # the oracle leaves the last test case open
+    if wrapped_sul.test_case_inputs:
+        wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From 180402cc4826dc58bab1ce5e884e7f514c665aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 78/87] fix: converting a StochasticMealyMachine to an Mdp
 added inputs to its states

---
 aalpy/automata/StochasticMealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 353f520..f6f176d 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -120,7 +120,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
         incoming_outputs = set()
         for pre_s in smm.states:
             for i in inputs:
-                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions[i])
+                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
@@ -133,7 +133,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     for s in smm.states:
         mdp_states_for_s = {mdp_state for (s_id, o), mdp_state in smm_state_to_mdp_state.items() if s_id == s.state_id}
         for i in inputs:
-            for outgoing_t in s.transitions[i]:
+            for outgoing_t in s.transitions.get(i, []):
                 target_smm_state = outgoing_t[0]
                 output = outgoing_t[1]
                 prob = outgoing_t[2]
-- 
2.43.0


From 695b0489d8d5c07e49ac03eb48c6d73c9b0d42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 79/87] fix: mc_from_mdp ignored the requested input if it is
 falsy

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 7329a2c..c454323 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -436,7 +436,7 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    input_symbol = input_symbol if input_symbol is not None else alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 89610a40343b3bba2ca806985e0b65a372ea291c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 80/87] fix: transform_score of a ScoreCalculation recursed
 without end

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..be55418 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        score_function = score.score_function
+        score.score_function = lambda *args: transform(score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From 43734f49047d9b09c794b63e5c44335a05e5ab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 81/87] fix: KWayTransitionCoverageEqOracle keeps
 max_number_of_steps

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index 53b5d3f..e38ab07 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -64,7 +64,12 @@ class KWayTransitionCoverageEqOracle(Oracle):
                     return counter_example
 
         elif self.method == 'prefix':
+            step_count = 0
             for steps in self.generate_prefix_steps(hypothesis):
+                step_count += len(steps)
+                if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
+                    break
+
                 counter_example = self.check_path(hypothesis, steps)
 
                 if counter_example is not None:
@@ -84,6 +89,10 @@ class KWayTransitionCoverageEqOracle(Oracle):
         while size_of_universe > len(covered):
             path = self.select_optimal_path(covered, paths)
 
+            if path is not None and self.max_number_of_steps != 0 and \
+                    step_count + len(path.steps) > self.max_number_of_steps:
+                break
+
             if path is not None:
                 covered = set.union(covered, path.kWayTransitions)
                 paths.remove(path)
@@ -93,10 +102,6 @@ class KWayTransitionCoverageEqOracle(Oracle):
             if path is None or not paths:
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
 
-            if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
-                print("stop")
-                break
-
         return result
 
     def select_optimal_path(self, covered: set, paths: list) -> Path:
-- 
2.43.0


From c705fe500fbc9b4b633d897ae1de0c8ea13bd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 82/87] fix: abstracted ONFSM learner removes duplicate rows
 only once

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py       | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..c482591 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -240,6 +240,7 @@ class AbstractedNonDetObservationTable:
         # just for testing without cleaning
         # return False
 
+        # S is the list used by the underlying observation table as well
         tmp_S = self.S.copy()
         tmp_both_S = self.S + self.S_dot_A
         hashed_rows_from_s = set()
@@ -251,14 +252,12 @@ class AbstractedNonDetObservationTable:
             if hashed_s_row in hashed_rows_from_s:
                 if s in self.S:
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-- 
2.43.0


From cf6c378c8088ff2335285d79a5d8152f656bc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:21 +0000
Subject: [PATCH 83/87] fix: abstracted ONFSM learner samples rows that appear
 while sampling

---
 .../AbstractedOnfsmObservationTable.py             | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index c482591..f937cd1 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -51,8 +51,22 @@ class AbstractedNonDetObservationTable:
 
         self.observation_table.query_missing_observations(s_set, e_set)
         self.abstract_obs_table()
+        # outputs that were observed for the first time add rows that have not been sampled yet
+        incomplete_rows = self.get_incomplete_rows()
+        while incomplete_rows:
+            self.observation_table.query_missing_observations(incomplete_rows)
+            self.abstract_obs_table()
+            incomplete_rows = self.get_incomplete_rows()
         self.clean_obs_table()
 
+    def get_incomplete_rows(self):
+        """
+        Returns:
+
+            rows with cells for which nothing has been observed yet
+        """
+        return [s for s in self.S + self.S_dot_A if any(e not in self.T[s] for e in self.E)]
+
     def abstract_obs_table(self):
         """
         Creation of abstracted observation table. The provided abstraction mapping is used to
-- 
2.43.0


From 47ebdf7852f35d6cf2b2c341a878e4024f65830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 84/87] fix: abstracted ONFSM learner finds inconsistent rows

---
 .../AbstractedOnfsmObservationTable.py           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index f937cd1..27c1494 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -206,17 +206,19 @@ class AbstractedNonDetObservationTable:
                 #                 outputs = self.observation_table.T[s_row[0]][a]
                 outputs = self.get_all_outputs(s_row[0], a)
                 for o in outputs:
-                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + tuple([o]))
+                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + o)
                     if extended_s_sequence in unified_S:
                         extended_s_sequence_row = self.row_to_hashable(extended_s_sequence)
                         for similar_s_dot_a_row in similar_s_dot_a_rows:
                             extended_s_dot_a_sequence = (
-                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o]))
+                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + o)
                             if extended_s_dot_a_sequence in unified_S:
                                 extended_s_dot_a_sequence_row = self.row_to_hashable(extended_s_dot_a_sequence)
-                                if extended_s_sequence_row is not extended_s_dot_a_sequence_row:
-                                    return self.get_distinctive_input_sequence(extended_s_sequence,
-                                                                               extended_s_dot_a_sequence, a)
+                                if extended_s_sequence_row != extended_s_dot_a_sequence_row:
+                                    e = self.get_distinctive_input_sequence(extended_s_sequence,
+                                                                            extended_s_dot_a_sequence, a)
+                                    if e is not None:
+                                        return e
 
         return None
 
@@ -236,8 +238,8 @@ class AbstractedNonDetObservationTable:
 
         """
         for e in self.E:
-            if len(self.T[first_row][e].difference(self.T[second_row][e])) > 0:
-                return tuple([inp]) + e
+            if self.T[first_row][e] != self.T[second_row][e] and inp + e not in self.E:
+                return inp + e
 
         return None
 
-- 
2.43.0


From 931fcdf10ad98c4aee8a4aeb54da5909f85af3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:15 +0000
Subject: [PATCH 85/87] fix: abstracted ONFSM learner does not depend on the
 order of sets

---
 .../AbstractedOnfsmObservationTable.py        | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 27c1494..77ca6be 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -74,7 +74,9 @@ class AbstractedNonDetObservationTable:
         """
 
         self.S = self.observation_table.S
-        self.S_dot_A = list(set(self.observation_table.get_extended_S()).union(set(self.S_dot_A) - set(self.S)))
+        # rows keep the order in which they were found, the order of a set differs from one process to the next
+        kept_rows = [row for row in self.S_dot_A if row not in self.S]
+        self.S_dot_A = list(dict.fromkeys(self.observation_table.get_extended_S() + kept_rows))
         self.E = self.observation_table.E
 
         update_S = self.S + self.S_dot_A
@@ -110,9 +112,7 @@ class AbstractedNonDetObservationTable:
     # CHANGED
     # helper function
     def get_all_outputs(self, s, e):
-        cell_outputs = set()
-        cell_outputs.update(self.sul.cache.get_all_traces(s, e))
-        return cell_outputs
+        return list(dict.fromkeys(self.sul.cache.get_all_traces(s, e)))
 
     def update_extended_S(self, row_prefix=None):
         """
@@ -157,9 +157,7 @@ class AbstractedNonDetObservationTable:
             row that will be added to S.A
         """
 
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
@@ -172,14 +170,14 @@ class AbstractedNonDetObservationTable:
                 complete_outputs = self.get_all_outputs(s_row[0], a)
                 for similar_s_dot_a_row in similar_s_dot_a_rows:
                     t_row_outputs = self.get_all_outputs(similar_s_dot_a_row, a)
-                    output_difference = t_row_outputs.difference(complete_outputs)
+                    output_difference = [o for o in t_row_outputs if o not in complete_outputs]
                     if len(output_difference) > 0:
                         for o in output_difference:
                             extension = (similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o[0]]))
                             if extension not in self.S and extension not in self.S_dot_A:
                                 return extension
                             else:
-                                complete_outputs = complete_outputs.union(output_difference)
+                                complete_outputs = complete_outputs + output_difference
 
         return None
 
@@ -188,9 +186,7 @@ class AbstractedNonDetObservationTable:
         Get row that violates consistency.
         """
         unified_S = self.S + self.S_dot_A
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
-- 
2.43.0


From f4b2f8559bb2e9f32c7bb794b150cba0f2a10463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 86/87] fix: stack symbols that are integers and letters
 containing push or pop are loaded

---
 aalpy/utils/FileHandler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index f35c45f..0b147c7 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -219,7 +219,7 @@ def save_automaton_to_file(automaton, path="LearnedModel", file_type="dot",
             print(f'Could not write to the file {path.as_posix()}.', file=sys.stderr)
 
 
-sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*'(\S+)'\s*\)"
+sevpa_transition_pattern = r"(\S+)\s*/\s*\(\s*'(\S+)'\s*,\s*(?:'(\S+)'|(\d+))\s*\)"
 vpa_push_pattern = r"(\S+)\s*/\s*push\(\s*(.*?)\s*\)"
 vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
@@ -257,8 +257,10 @@ def _process_label(label, source, destination, automaton_type):
     if automaton_type == 'sevpa':
         match = re.match(sevpa_transition_pattern, label)
         if match:
-            ret, stack_guard, top_of_stack = match.groups()
+            ret, stack_guard, top_of_stack, int_top_of_stack = match.groups()
             ret = int(ret) if ret.isdigit() else ret
+            # call letters that are integers are not quoted
+            top_of_stack = int(int_top_of_stack) if int_top_of_stack else top_of_stack
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
             source.transitions[ret].append(return_transition)
         else:
@@ -269,12 +271,13 @@ def _process_label(label, source, destination, automaton_type):
         pass
     if automaton_type == 'vpa':
         input_symbol, stack_symbol, action = None, None, None
-        if 'push' in label:
-            push_elements = re.match(vpa_push_pattern, label)
+        # letters may contain 'push' or 'pop' themselves
+        push_elements = re.match(vpa_push_pattern, label)
+        pop_elements = re.match(vpa_pop_pattern, label)
+        if push_elements:
             input_symbol, stack_symbol = push_elements.group(1), push_elements.group(2)
             action = 'push'
-        elif 'pop' in label:
-            pop_elements = re.match(vpa_pop_pattern, label)
+        elif pop_elements:
             input_symbol, stack_symbol = pop_elements.group(1), pop_elements.group(2)
             action = 'pop'
         else:
-- 
2.43.0


From e8a38920fca5d90ed14333e4ea791843e4eff071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:14 +0000
Subject: [PATCH 87/87] fix: symbols of loaded MDPs and SMMs may contain colons

---
 aalpy/utils/FileHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 0b147c7..a036227 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -244,13 +244,13 @@ def _process_label(label, source, destination, automaton_type):
         prob = label
         source.transitions.append((destination, float(prob)))
     if automaton_type == 'mdp':
-        inp, prob = label.split(':', maxsplit=1)
+        inp, prob = label.rsplit(':', maxsplit=1)
         inp = int(inp) if inp.isdigit() else inp
         prob = float(prob)
         source.transitions[inp].append((destination, prob))
     if automaton_type == 'smm':
         inp, out_prob = label.split('/', maxsplit=1)
-        out, prob = out_prob.split(':', maxsplit=1)
+        out, prob = out_prob.rsplit(':', maxsplit=1)
         inp = int(inp) if inp.isdigit() else inp
         out = int(out) if out.isdigit() else out
         source.transitions[inp].append((destination, out, float(prob)))
-- 
2.43.0

