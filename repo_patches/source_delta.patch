From 0f01568011d34f7bb2e5d3a3fc62b40a6e6b06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 01/97] fix: total state matching of Moore references (adaptive
 L#)

---
 aalpy/learning_algs/adaptive/StateMatching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index 0841ad3..f9e40e6 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -263,7 +263,7 @@ class TotalStateMatching(StateMatching):
 
         # need to test the empty word
         if defined_after_access == (): 
-            if reference_state.is_accepting != current_ob_state.output:
+            if reference_state.output != current_ob_state.output:
                 self.matchings[basis_state][orig_ref] = 0
                 return
 
-- 
2.43.0


From d16bd70ce788ac6d48bd12b77e88fa03eae1f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 02/97] fix: adaptive L# with references that share no inputs
 with the alphabet

---
 .../adaptive/AdaptiveObservationTree.py            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 3840a75..318e33a 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -488,16 +488,18 @@ class AdaptiveObservationTree(ObservationTree):
         """
         automaton_class = {'dfa': Dfa, 'mealy': MealyMachine, 'moore': MooreMachine}
         all_states = []
-        for reference_id in range(0, len(self.references)):
-            reference = self.references[reference_id]
+        usable_references = []
+        for index, reference in enumerate(self.references):
             overlap = [inp for inp in self.alphabet if inp in reference.get_input_alphabet()]
             if not overlap:
                 print(
-                    f"Warning: reference model {reference_id} has no common inputs and will not be used as a reference.")
-                self.references.remove(reference)
-                reference_id -= 1
-                continue
+                    f"Warning: reference model {index} has no common inputs and will not be used as a reference.")
+            else:
+                usable_references.append(reference)
 
+        # keep only usable references, without modifying the list provided by the user
+        self.references = usable_references
+        for reference_id, reference in enumerate(self.references):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-- 
2.43.0


From 9d8353732d8e38282c6b169b35cdb73856c1eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 03/97] fix: exponential re-exploration in the search for
 distinguishing sequences

---
 aalpy/base/Automaton.py                                 | 4 ++--
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 73878c6..8ed4404 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -275,11 +275,10 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         Returns: an input sequence distinguishing two states, or None if the states are equivalent
 
         """
-        visited = set()
+        visited = {(state1, state2)}
         to_explore = [(state1, state2, [])]
         while to_explore:
             (curr_s1, curr_s2, prefix) = to_explore.pop(0)
-            visited.add((curr_s1, curr_s2))
             for i in alphabet:
                 o1 = self.output_step(curr_s1, i)
                 o2 = self.output_step(curr_s2, i)
@@ -290,6 +289,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                     next_s1 = curr_s1.transitions[i]
                     next_s2 = curr_s2.transitions[i]
                     if (next_s1, next_s2) not in visited:
+                        visited.add((next_s1, next_s2))
                         to_explore.append((next_s1, next_s2, new_prefix))
 
         return None
diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index 318e33a..a599014 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -174,11 +174,10 @@ class AdaptiveObservationTree(ObservationTree):
         A BFS to determine an input sequence that distinguishes two states in the automaton
         Can handle partial models
         """
-        visited = set()
+        visited = {(state1, state2)}
         to_explore = [(state1, state2, [])]
         while to_explore:
             (curr_s1, curr_s2, prefix) = to_explore.pop(0)
-            visited.add((curr_s1, curr_s2))
             for i in alphabet:
                 if i in curr_s1.transitions and i in curr_s2.transitions:
                     o1 = model.output_step(curr_s1, i)
@@ -190,6 +189,7 @@ class AdaptiveObservationTree(ObservationTree):
                         next_s1 = curr_s1.transitions[i]
                         next_s2 = curr_s2.transitions[i]
                         if (next_s1, next_s2) not in visited:
+                            visited.add((next_s1, next_s2))
                             to_explore.append((next_s1, next_s2, new_prefix))
 
         return None
-- 
2.43.0


From 7501c85b93c49e75b430eacddfa7b129343a9a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 04/97] fix: error state detection of 1-SEVPAs accepted states
 that are not sinks

---
 aalpy/automata/Sevpa.py | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index f9b080d..8f80a34 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -314,39 +314,19 @@ class Sevpa(Automaton):
         """
 
         for state in self.states:
-
-            is_error_state = True
             if state.is_accepting or state == self.initial_state:
                 continue
 
-            state_target = None
-            # check internal and return transitions
-            ret_int_al = []
-            ret_int_al.extend(self.input_alphabet.internal_alphabet)
-            ret_int_al.extend(self.input_alphabet.return_alphabet)
-            for letter in ret_int_al:
-                for transition in state.transitions[letter]:
-                    if state_target is None:
-                        state_target = transition.target_state
-                    else:
-                        if state_target != transition.target_state:
-                            is_error_state = False
-                            break
-                if not is_error_state:
-                    break
+            # all internal and return transitions have to be self loops
+            is_error_state = all(transition.target_state == state
+                                 for transitions in state.transitions.values() for transition in transitions)
 
-            # check return transitions from the initial state
+            # popping what was pushed in the error state has to lead back to it, independent of the popping state
             if is_error_state:
-                for return_letter in self.input_alphabet.return_alphabet:
-                    for transition in self.initial_state.transitions[return_letter]:
-                        if transition.stack_guard[0] == state_target.state_id:
-                            if transition.target_state != state_target:
-                                is_error_state = False
-                                break
-                    if not is_error_state:
-                        break
-            else:
-                continue
+                is_error_state = all(transition.target_state == state
+                                     for other_state in self.states
+                                     for transitions in other_state.transitions.values() for transition in transitions
+                                     if transition.stack_guard and transition.stack_guard[0] == state.state_id)
 
             if is_error_state:
                 return state
-- 
2.43.0


From f4360bbdf31350f66ba20c7a90be755b477feff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:20 +0000
Subject: [PATCH 05/97] fix: KV for VPLs built hypotheses around a provisional
 error state

---
 .../deterministic/ClassificationTree.py             | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ClassificationTree.py b/aalpy/learning_algs/deterministic/ClassificationTree.py
index acfdaf4..c46809c 100644
--- a/aalpy/learning_algs/deterministic/ClassificationTree.py
+++ b/aalpy/learning_algs/deterministic/ClassificationTree.py
@@ -70,9 +70,6 @@ class ClassificationTree:
         self.initial_state = None
         self.hypothesis_states = {}
 
-        # prefix of identified error state in VPDA learning
-        self.error_state_prefix = None
-
         if self.automaton_type != 'mealy':
             initial_output = sul.query(())[-1]
             cex_output = sul.query(cex)[-1]
@@ -225,9 +222,6 @@ class ClassificationTree:
                             continue
 
                         for other_state in self.hypothesis_states.values():
-                            # ignore other state if other state is error state
-                            if other_state.prefix == self.error_state_prefix:
-                                continue
                             transition_target_node = self._sift(
                                 other_state.prefix + (input_element,) + state.prefix + (return_letter,))
                             transition_target_access_string = transition_target_node.access_string
@@ -238,12 +232,7 @@ class ClassificationTree:
                             state.transitions[return_letter].append(trans)
 
         if self.automaton_type == 'vpa':
-            hypothesis = Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
-            if not self.error_state_prefix:
-                error_state = hypothesis.get_error_state()
-                if error_state:
-                    self.error_state_prefix = error_state.prefix
-            return hypothesis
+            return Sevpa(initial_state=self.initial_state, states=list(self.hypothesis_states.values()))
 
         return automaton_class[self.automaton_type](initial_state=self.initial_state,
                                                     states=list(self.hypothesis_states.values()))
-- 
2.43.0


From 42ef2c05f02e1986096583dbb0e81457283c639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 06/97] fix: round limit of L# and adaptive L# (no hypothesis
 at all with max_learning_rounds=1)

---
 aalpy/learning_algs/adaptive/AdaptiveLSharp.py | 2 +-
 aalpy/learning_algs/deterministic/LSharp.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
index 4f7b430..020ab10 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveLSharp.py
@@ -88,9 +88,9 @@ def run_adaptive_Lsharp(alphabet: list, sul: SUL, references: list, eq_oracle: O
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
diff --git a/aalpy/learning_algs/deterministic/LSharp.py b/aalpy/learning_algs/deterministic/LSharp.py
index 541f419..c58bec6 100644
--- a/aalpy/learning_algs/deterministic/LSharp.py
+++ b/aalpy/learning_algs/deterministic/LSharp.py
@@ -67,9 +67,9 @@ def run_Lsharp(alphabet: list, sul: SUL, eq_oracle: Oracle, automaton_type,
     hypothesis = None
 
     while True:
-        learning_rounds += 1
         if max_learning_rounds and learning_rounds == max_learning_rounds:
             break
+        learning_rounds += 1
 
         # Building the hypothesis
         hypothesis = ob_tree.build_hypothesis()
-- 
2.43.0


From b0ed64fe493a14ef617c4bb5033b79b9c8c016fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 07/97] fix: minimize() removed the initial state from the
 state list but kept it as initial state

---
 aalpy/base/Automaton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 8ed4404..32125e0 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -442,6 +442,8 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                     if new_state == s2:
                         s.transitions[i] = s1
             self.states.remove(s2)
+            if self.initial_state == s2:
+                self.initial_state = self.current_state = s1
             s1, s2 = self.compute_characterization_set(return_same_states=True)
 
         self.compute_prefixes()
-- 
2.43.0


From 0a4365bd6c9d38964c5339b547be8c2c214a0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 08/97] fix: load_automaton_from_file(compute_prefixes=True)
 never computed prefixes

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 820019e..5a1d5e4 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -406,7 +406,7 @@ def load_automaton_from_file(path, automaton_type, compute_prefixes=False):
     automaton = aut_type(initial_state, list(node_label_dict.values()))
     if automaton_type not in {'mc', 'sevpa', 'vpa'} and not automaton.is_input_complete():
         print('Warning: Loaded automaton is not input complete.')
-    if compute_prefixes and not automaton_type not in {'mc', 'sevpa', 'vpa'}:
+    if compute_prefixes and automaton_type in {'dfa', 'moore', 'mealy'}:
         for state in automaton.states:
             state.prefix = automaton.get_shortest_path(automaton.initial_state, state)
     return automaton
-- 
2.43.0


From b657a103c72a153525a5e35ca43e47dc51679493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 09/97] fix: return transitions of 1-SEVPAs loaded from file
 were not executable

---
 aalpy/utils/FileHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 5a1d5e4..9d9169f 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -261,7 +261,7 @@ def _process_label(label, source, destination, automaton_type):
         if match:
             ret, stack_guard, top_of_stack = match.groups()
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
-            source.transitions[label].append(return_transition)
+            source.transitions[ret].append(return_transition)
         else:
             internal_transition = SevpaTransition(destination, label, None, None)
             source.transitions[label].append(internal_transition)
-- 
2.43.0


From 1005e0f9a3a812411ec2611d7c2abb45a4083ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 10/97] fix: execute_sequence of VPAs kept the stack of the
 previous execution

---
 aalpy/automata/Vpa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index ca64bb7..59457e5 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -150,6 +150,11 @@ class Vpa(Automaton):
 
         return self.current_state.is_accepting and self.stack == []
 
+    def execute_sequence(self, origin_state, seq):
+        self.reset_to_initial()
+        self.current_state = origin_state
+        return [self.step(s) for s in seq]
+
     def to_state_setup(self):
         state_setup_dict = {}
 
-- 
2.43.0


From 59dbfe77d0ce493f9d201bf49849b5c50c3ee6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 11/97] fix: to_state_setup of NDMooreMachine returned nothing
 (copy, pickle)

---
 aalpy/automata/NonDeterministicMooreMachine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 97d474d..5f76be8 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -32,6 +32,7 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             if state is self.initial_state:
                 continue
             set_dict_entry(state)
+        return state_setup
 
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs) -> 'NDMooreMachine':
-- 
2.43.0


From 0efece667a8dae937c922d7ba9538d498c688cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 12/97] fix: OnfsmState.get_transition ignored falsy outputs

---
 aalpy/automata/Onfsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index fb0bc9a..46eff06 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -38,7 +38,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
 
         """
         possible_transitions = self.transitions[input]
-        if output:
+        if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
             return possible_transitions
-- 
2.43.0


From ec9e3a04ec13ff510a0f58d3b76d82fa4d277339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 13/97] fix: copy, deepcopy and pickle of VPAs and 1-SEVPAs

---
 aalpy/automata/Sevpa.py | 5 +++--
 aalpy/automata/Vpa.py   | 9 +++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 8f80a34..4055fa6 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -180,7 +180,8 @@ class Sevpa(Automaton):
     def to_state_setup(self):
         state_setup_dict = {}
 
-        sorted_states = sorted(self.states, key=lambda x: x.state_id)
+        # the first state of the setup is the initial state
+        sorted_states = sorted(self.states, key=lambda x: (x is not self.initial_state, x.state_id))
         for state in sorted_states:
             transitions_for_symbol = {}
             for symbol, transition_list in state.transitions.items():
@@ -197,7 +198,7 @@ class Sevpa(Automaton):
     @staticmethod
     def from_state_setup(state_setup: dict, **kwargs):
 
-        init_state_id = kwargs['init_state_id']
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: SevpaState(key, val[0]) for key, val in state_setup.items()}
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 59457e5..6588b7b 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -161,10 +161,11 @@ class Vpa(Automaton):
         # ensure prefixes are computed
         # self.compute_prefixes()
 
-        sorted_states = sorted(self.states, key=lambda x: len(x.prefix) if x.prefix is not None else len(self.states))
-        for s in sorted_states:
+        # the first state of the setup is the initial state
+        for s in [self.initial_state] + [s for s in self.states if s is not self.initial_state]:
             state_setup_dict[s.state_id] = (
-                s.is_accepting, {k: (v.target_state.state_id, v.action) for k, v in s.transitions.items()})
+                s.is_accepting, {k: [(t.target_state.state_id, t.action, t.stack_guard) for t in v]
+                                 for k, v in s.transitions.items()})
 
         return state_setup_dict
 
@@ -231,7 +232,7 @@ class Vpa(Automaton):
             """
         # state_setup should map from state_id to tuple(is_accepting and transitions_dict)
 
-        init_state_id = kwargs['init_state_id']
+        init_state_id = kwargs.get('init_state_id', next(iter(state_setup)))
 
         # build states with state_id and output
         states = {key: VpaState(key, val[0]) for key, val in state_setup.items()}
-- 
2.43.0


From 45ab6c97241e76702cfb2dd40e461f5f97f3ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 14/97] fix: string representation of internal 1-SEVPA
 transitions was empty

---
 aalpy/automata/Sevpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 4055fa6..39544ec 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -80,7 +80,7 @@ class SevpaTransition:
             str: A string representation of the transition.
         """
         return f'{self.letter} --> {self.target_state.state_id}' + \
-               f' | {self.action}: {self.stack_guard}' if self.stack_guard else ''
+               (f' | {self.action}: {self.stack_guard}' if self.stack_guard else '')
 
 
 class Sevpa(Automaton):
-- 
2.43.0


From ade6d134c0ec95166f6e32b4389a094bbca16fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 15/97] fix: executing an undefined input changed the alphabet
 and completeness of the automaton

---
 aalpy/automata/Mdp.py                    | 2 +-
 aalpy/automata/Onfsm.py                  | 4 ++--
 aalpy/automata/Sevpa.py                  | 2 +-
 aalpy/automata/StochasticMealyMachine.py | 2 +-
 aalpy/automata/Vpa.py                    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 8f530ad..13a487a 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -60,7 +60,7 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
 
             output of the reached state, None otherwise
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, ()):
             if new_state[0].output == out:
                 self.current_state = new_state[0]
                 return out
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index 46eff06..b47b694 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -80,7 +80,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             list of observable outputs
 
         """
-        return [trans[0] for trans in self.current_state.transitions[letter]]
+        return [trans[0] for trans in self.current_state.transitions.get(letter, ())]
 
     def step_to(self, inp, out):
         """Performs a step on the automaton based on the input `inp` and output `out`.
@@ -95,7 +95,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the reached state, None otherwise
 
         """
-        for new_state in self.current_state.transitions[inp]:
+        for new_state in self.current_state.transitions.get(inp, ()):
             if new_state[0] == out:
                 self.current_state = new_state[1]
                 return out
diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 39544ec..74b82d7 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -132,7 +132,7 @@ class Sevpa(Automaton):
             return self.current_state.is_accepting and self.stack[-1] == self.empty
 
         # get possible transitions
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, ())
         taken_transition = None
         for t in transitions:
             if t.letter in self.return_set:
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ae033d9..629ab7c 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -61,7 +61,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
             output of the reached state, None otherwise
 
         """
-        for (new_state, output, prob) in self.current_state.transitions[inp]:
+        for (new_state, output, prob) in self.current_state.transitions.get(inp, ()):
             if output == out:
                 self.current_state = new_state
                 return out
diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index 6588b7b..f720ce0 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -121,7 +121,7 @@ class Vpa(Automaton):
         if letter is None:
             return self.current_state.is_accepting and self.stack == []
 
-        transitions = self.current_state.transitions[letter]
+        transitions = self.current_state.transitions.get(letter, ())
 
         taken_transition = None
 
-- 
2.43.0


From eca08d01706467138892e16f018624884ba63d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 16/97] fix: W and Wp oracles skipped test cases passed by an
 earlier hypothesis

---
 aalpy/oracles/WMethodEqOracle.py  | 14 +++++++++++---
 aalpy/oracles/WpMethodEqOracle.py | 16 +++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index bfc4bcb..f96b147 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -24,7 +24,8 @@ class WMethodEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
         self.shuffle = shuffle_test_set
-        self.cache = set()
+        # executed test cases and the outputs observed on the system under learning
+        self.cache = dict()
 
     def test_suite(self, cover, depth, char_set):
         """
@@ -60,7 +61,14 @@ class WMethodEqOracle(Oracle):
 
         depth = self.m + 1 - len(hypothesis.states)
         for seq in self.test_suite(transition_cover, depth, hypothesis.characterization_set):
-            if seq not in self.cache:
+            if seq in self.cache:
+                # the test case was passed by an earlier hypothesis
+                outputs_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if outputs_hyp[ind] != out_sul:
+                        self.sul.post()
+                        return seq[:ind + 1]
+            else:
                 self.reset_hyp_and_sul(hypothesis)
                 outputs = []
 
@@ -73,7 +81,7 @@ class WMethodEqOracle(Oracle):
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[:ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
 
         return None
 
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 86c2d7e..ebed1ed 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -71,7 +71,8 @@ class WpMethodEqOracle(Oracle):
     def __init__(self, alphabet: list, sul: SUL, max_number_of_states=4):
         super().__init__(alphabet, sul)
         self.m = max_number_of_states
-        self.cache = set()
+        # executed test cases and the outputs observed on the system under learning
+        self.cache = dict()
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
@@ -95,18 +96,27 @@ class WpMethodEqOracle(Oracle):
         test_suite = chain(first_phase, second_phase)
 
         for seq in test_suite:
-            if seq not in self.cache:
+            if seq in self.cache:
+                # the test case was passed by an earlier hypothesis
+                outputs_hyp = hypothesis.execute_sequence(hypothesis.initial_state, seq)
+                for ind, out_sul in enumerate(self.cache[seq]):
+                    if outputs_hyp[ind] != out_sul:
+                        self.sul.post()
+                        return seq[:ind + 1]
+            else:
                 self.reset_hyp_and_sul(hypothesis)
+                outputs = []
 
                 for ind, letter in enumerate(seq):
                     out_hyp = hypothesis.step(letter)
                     out_sul = self.sul.step(letter)
                     self.num_steps += 1
 
+                    outputs.append(out_sul)
                     if out_hyp != out_sul:
                         self.sul.post()
                         return seq[: ind + 1]
-                self.cache.add(seq)
+                self.cache[seq] = outputs
 
         return None
 
-- 
2.43.0


From 48284a56982082b88000b0caaae430171d0926e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:49 +0000
Subject: [PATCH 17/97] fix: second phase of the Wp method dropped tests of
 states without identifiers

---
 aalpy/oracles/WpMethodEqOracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index ebed1ed..f8621a4 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -59,7 +59,7 @@ def second_phase_it(hyp, alphabet, difference, depth):
                 if state not in state_mapping:
                     state_mapping[state] = state_characterization_set(hyp, alphabet, state)
 
-                for sm in state_mapping[state]:
+                for sm in state_mapping[state] or [()]:
                     yield t + mid + sm
 
 
-- 
2.43.0


From 1f93729332611bb84720e3d8708bf1ec230c6d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 18/97] fix: W and Wp oracles were incomplete for non-minimal
 hypotheses of KV

---
 aalpy/oracles/WMethodEqOracle.py  | 6 ++++++
 aalpy/oracles/WpMethodEqOracle.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/aalpy/oracles/WMethodEqOracle.py b/aalpy/oracles/WMethodEqOracle.py
index f96b147..806cbd6 100644
--- a/aalpy/oracles/WMethodEqOracle.py
+++ b/aalpy/oracles/WMethodEqOracle.py
@@ -50,6 +50,12 @@ class WMethodEqOracle(Oracle):
     def find_cex(self, hypothesis):
 
         if not hypothesis.characterization_set:
+            hypothesis.characterization_set = hypothesis.compute_characterization_set(raise_warning=False)
+
+        # fix for non-minimal intermediate hypothesis that can occur in KV
+        if hypothesis.characterization_set is None:
+            hypothesis = hypothesis.copy()
+            hypothesis.minimize()
             hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
         # covers every transition of the specification at least once.
diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index f8621a4..6ca4261 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -76,6 +76,12 @@ class WpMethodEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
         if not hypothesis.characterization_set:
+            hypothesis.characterization_set = hypothesis.compute_characterization_set(raise_warning=False)
+
+        # fix for non-minimal intermediate hypothesis that can occur in KV
+        if hypothesis.characterization_set is None:
+            hypothesis = hypothesis.copy()
+            hypothesis.minimize()
             hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
         transition_cover = set(
-- 
2.43.0


From ee2764a12c4b91be816ab18767adb9203f57fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 19/97] fix: breadth-first oracle lost test cases that had
 exposed or passed an earlier hypothesis

---
 aalpy/oracles/BreadthFirstExplorationEqOracle.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/BreadthFirstExplorationEqOracle.py b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
index dfa4537..15e9253 100644
--- a/aalpy/oracles/BreadthFirstExplorationEqOracle.py
+++ b/aalpy/oracles/BreadthFirstExplorationEqOracle.py
@@ -25,6 +25,8 @@ class BreadthFirstExplorationEqOracle(Oracle):
         super().__init__(alphabet, sul)
         self.depth = depth
         self.queue = []
+        # executed test cases and the outputs observed on the system under learning
+        self.executed = dict()
 
         # generate all test-cases
         for seq in product(self.alphabet, repeat=self.depth):
@@ -34,8 +36,16 @@ class BreadthFirstExplorationEqOracle(Oracle):
 
     def find_cex(self, hypothesis):
 
+        # test cases passed by earlier hypotheses
+        for test_case, outputs in self.executed.items():
+            for ind, out_hyp in enumerate(hypothesis.execute_sequence(hypothesis.initial_state, test_case)):
+                if out_hyp != outputs[ind]:
+                    self.sul.post()
+                    return test_case[:ind + 1]
+
         while self.queue:
-            test_case = self.queue.pop()
+            test_case = self.queue[-1]
+            outputs = []
             self.reset_hyp_and_sul(hypothesis)
 
             for ind, letter in enumerate(test_case):
@@ -43,8 +53,11 @@ class BreadthFirstExplorationEqOracle(Oracle):
                 out_sul = self.sul.step(letter)
                 self.num_steps += 1
 
+                outputs.append(out_sul)
                 if out_hyp != out_sul:
                     self.sul.post()
                     return test_case[:ind + 1]
 
+            self.executed[self.queue.pop()] = outputs
+
         return None
-- 
2.43.0


From 4f65af846f8d290a16dbb1b75d9a69de32fd9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 20/97] fix: k-way state coverage oracle skipped permutations,
 uncounted queries, reordered states of the hypothesis

---
 aalpy/oracles/kWayStateCoverageEqOracle.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/oracles/kWayStateCoverageEqOracle.py b/aalpy/oracles/kWayStateCoverageEqOracle.py
index d259e53..3e7c65b 100644
--- a/aalpy/oracles/kWayStateCoverageEqOracle.py
+++ b/aalpy/oracles/kWayStateCoverageEqOracle.py
@@ -37,9 +37,7 @@ class KWayStateCoverageEqOracle(Oracle):
         if len(hypothesis.states) == 1:
             for _ in range(self.random_walk_len):
                 path = choices(self.alphabet, k=self.random_walk_len)
-                hypothesis.reset_to_initial()
-                self.sul.post()
-                self.sul.pre()
+                self.reset_hyp_and_sul(hypothesis)
                 for i, p in enumerate(path):
                     out_sul = self.sul.step(p)
                     out_hyp = hypothesis.step(p)
@@ -49,11 +47,13 @@ class KWayStateCoverageEqOracle(Oracle):
                         self.sul.post()
                         return path[:i + 1]
 
-        states = hypothesis.states
+        states = list(hypothesis.states)
         shuffle(states)
 
-        for comb in self.fun(hypothesis.states, self.k):
-            prefixes = frozenset([c.prefix for c in comb])
+        for comb in self.fun(states, self.k):
+            prefixes = tuple(c.prefix for c in comb)
+            # the order of states is irrelevant for combinations
+            prefixes = frozenset(prefixes) if self.fun == combinations else prefixes
             if prefixes in self.cache:
                 continue
             else:
-- 
2.43.0


From d47aba1987ef5fac0a98cf283b75b0ea286658ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 21/97] fix: cache-based oracle extended paths that are not in
 the cache

---
 aalpy/oracles/CacheBasedEqOracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index 5d40c47..a777352 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -92,6 +92,5 @@ class CacheBasedEqOracle(Oracle):
             paths.append(current_path)
         else:
             for inp, child in t.children.items():
-                current_path.append(inp)
-                self.get_paths(child, paths, list(current_path))
+                self.get_paths(child, paths, current_path + [inp])
         return paths
-- 
2.43.0


From a3166229d4578df7a90c793d23622c972a8c454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 22/97] fix: RandomWordEqOracle.reset_counter exhausted the
 precomputed walk lengths

---
 aalpy/oracles/RandomWordEqOracle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/oracles/RandomWordEqOracle.py b/aalpy/oracles/RandomWordEqOracle.py
index 6a1a8d9..f943777 100644
--- a/aalpy/oracles/RandomWordEqOracle.py
+++ b/aalpy/oracles/RandomWordEqOracle.py
@@ -92,4 +92,5 @@ class RandomWordEqOracle(Oracle):
 
     def reset_counter(self):
         if self.reset_after_cex:
+            self.walk_lengths = [randint(self.min_walk_len, self.max_walk_len) for _ in range(self.num_walks)]
             self.num_walks_done = 0
-- 
2.43.0


From 37975c7fcfdd2b6bb96107a8733ad24069438f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 23/97] fix: k-way transition coverage counted transitions of
 previous hypotheses as covered

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index db253ea..3bd4fff 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -52,7 +52,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
     def find_cex(self, hypothesis: Automaton):
         if self.method == 'random':
-            paths = self.generate_random_paths(hypothesis) + self.cached_paths
+            # transitions covered by the paths of the previous round are those of the current hypothesis
+            cached_paths = [self.create_path(hypothesis, path.steps) for path in self.cached_paths]
+            paths = self.generate_random_paths(hypothesis) + cached_paths
             self.cached_paths = self.greedy_set_cover(hypothesis, paths)
 
             for path in self.cached_paths:
-- 
2.43.0


From 27b4167dfda6770d77153856c22e9e1b9c069990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 24/97] fix: max_tests of the state prefix oracle was exceeded
 in later rounds

---
 aalpy/oracles/StatePrefixEqOracle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index 2bb6d72..e96098e 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -55,13 +55,13 @@ class StatePrefixEqOracle(Oracle):
             random.shuffle(states_to_cover)
 
         for state in states_to_cover:
+            if self.max_tests and self.num_queries >= self.max_tests:
+                return None
+
             self.freq_dict[state.prefix] = self.freq_dict[state.prefix] + 1
 
             self.reset_hyp_and_sul(hypothesis)
 
-            if self.max_tests and self.num_queries == self.max_tests:
-                return None
-
             prefix = state.prefix
             for p in prefix:
                 hypothesis.step(p)
-- 
2.43.0


From 4daf501f04ce33c36d0f885492817ddbacbed264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 25/97] fix: statistics, cache and arguments of the provided
 sequences oracle wrapper

---
 aalpy/oracles/ProvidedSequencesOracleWrapper.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/ProvidedSequencesOracleWrapper.py b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
index a64122c..47bcda1 100644
--- a/aalpy/oracles/ProvidedSequencesOracleWrapper.py
+++ b/aalpy/oracles/ProvidedSequencesOracleWrapper.py
@@ -15,7 +15,7 @@ class ProvidedSequencesOracleWrapper(Oracle):
             of input alphabet
         """
         super().__init__(alphabet, sul)
-        self.provided_counterexamples = provided_counterexamples
+        self.provided_counterexamples = list(provided_counterexamples)
         self.oracle = oracle
 
     def find_cex(self, hypothesis):
@@ -33,14 +33,18 @@ class ProvidedSequencesOracleWrapper(Oracle):
                     self.sul.post()
                     return tuple(inputs)
 
+            self.sul.post()
             self.provided_counterexamples.remove(provided_cex)
 
+        # learning algorithms may have replaced the SUL with its cached version
+        self.oracle.sul = self.sul
+        queries, steps = self.oracle.num_queries, self.oracle.num_steps
+
         cex = self.oracle.find_cex(hypothesis)
 
         # to account for steps statistics from actual oracle
-        if cex is None:
-            self.num_queries += self.oracle.num_queries
-            self.num_steps += self.oracle.num_steps
+        self.num_queries += self.oracle.num_queries - queries
+        self.num_steps += self.oracle.num_steps - steps
 
         return cex
 
-- 
2.43.0


From 80387dac7fa9eef51f3e584fc39b7a8b11258afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:21 +0000
Subject: [PATCH 26/97] fix: dictionary cache crashed on the empty word and did
 not detect conflicting samples

---
 aalpy/base/CacheTree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aalpy/base/CacheTree.py b/aalpy/base/CacheTree.py
index c733318..96e9cf2 100644
--- a/aalpy/base/CacheTree.py
+++ b/aalpy/base/CacheTree.py
@@ -122,7 +122,8 @@ class CacheDict:
         """
 
         if inp is None:
-            return self.cache_dict[()]
+            self.cache_dict[()] = out
+            return
 
         self.inputs += (inp,)
 
@@ -162,8 +163,9 @@ class CacheDict:
         """
         Add input-output sequence to cache
         """
-        for i in range(1, len(input_sequence) + 1):
-            self.cache_dict[input_sequence[:i]] = output_sequence[i-1]
+        self.reset()
+        for i, o in zip(input_sequence, output_sequence):
+            self.step_in_cache(i, o)
 
     def get_output_sequence(self, input_seq):
         return tuple(self.cache_dict[input_seq[:i]] for i in range(1, len(input_seq) + 1))
-- 
2.43.0


From 803b523cf50ada6722b6df04442dd8c0d86320ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 27/97] fix: state prefix oracle ignored differences observed
 while executing access sequences

---
 aalpy/oracles/StatePrefixEqOracle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/StatePrefixEqOracle.py b/aalpy/oracles/StatePrefixEqOracle.py
index e96098e..8fbc2f7 100644
--- a/aalpy/oracles/StatePrefixEqOracle.py
+++ b/aalpy/oracles/StatePrefixEqOracle.py
@@ -63,11 +63,15 @@ class StatePrefixEqOracle(Oracle):
             self.reset_hyp_and_sul(hypothesis)
 
             prefix = state.prefix
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
+            for ind, p in enumerate(prefix):
+                out_hyp = hypothesis.step(p)
+                out_sul = self.sul.step(p)
                 self.num_steps += 1
 
+                if out_sul != out_hyp:
+                    self.sul.post()
+                    return prefix[:ind + 1]
+
             suffix = ()
             for _ in range(self.steps_per_walk):
                 suffix += (random.choice(self.alphabet),)
-- 
2.43.0


From a10b89bfa6e743ea8d7990ff777073756dd24521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 28/97] fix: cache-based oracle ignored differences observed
 while executing cached traces

---
 aalpy/oracles/CacheBasedEqOracle.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index a777352..ce3d229 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -50,15 +50,9 @@ class CacheBasedEqOracle(Oracle):
             prefix = choice(paths_to_leaves)
             walk_len = (max_tree_depth + self.depth_increase) - len(prefix)
             inputs = []
-            inputs.extend(prefix)
 
-            for p in prefix:
-                hypothesis.step(p)
-                self.sul.step(p)
-                self.num_steps += 1
-
-            for _ in range(walk_len):
-                inputs.append(choice(self.alphabet))
+            for inp in prefix + [choice(self.alphabet) for _ in range(walk_len)]:
+                inputs.append(inp)
 
                 out_sul = self.sul.step(inputs[-1])
                 out_hyp = hypothesis.step(inputs[-1])
-- 
2.43.0


From 50e66a3f7079bab5608ced25e6e322342392910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 29/97] fix: k-way transition coverage did not terminate if
 some states are not reached by their access sequences

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index 3bd4fff..a2f5c1e 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -89,6 +89,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
 
             if path is None or not paths:
                 paths = [self.create_path(hypothesis, steps) for steps in self.generate_prefix_steps(hypothesis)]
+                # not all transitions can be covered if access sequences do not reach all states (can occur in KV)
+                if all(path.kWayTransitions <= covered for path in paths):
+                    break
 
             if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
                 print("stop")
-- 
2.43.0


From dad81f0950bdeb9f61fb09a0da9f2b88e4c0521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 30/97] fix: transition focus oracle selected all inputs based
 on the initial state

---
 aalpy/oracles/TransitionFocusOracle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/oracles/TransitionFocusOracle.py b/aalpy/oracles/TransitionFocusOracle.py
index 779d0e7..a02d80a 100644
--- a/aalpy/oracles/TransitionFocusOracle.py
+++ b/aalpy/oracles/TransitionFocusOracle.py
@@ -31,9 +31,9 @@ class TransitionFocusOracle(Oracle):
         for _ in range(self.num_walks):
             self.reset_hyp_and_sul(hypothesis)
 
-            curr_state = hypothesis.initial_state
             inputs = []
             for _ in range(self.steps_per_walk):
+                curr_state = hypothesis.current_state
                 if random.random() <= self.same_state_prob:
                     possible_inputs = curr_state.get_same_state_transitions()
                 else:
-- 
2.43.0


From 0543253a44ef68394f239dd95c3d307787cd4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 31/97] fix: k-way transition coverage exceeded
 max_number_of_steps

---
 aalpy/oracles/kWayTransitionCoverageEqOracle.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aalpy/oracles/kWayTransitionCoverageEqOracle.py b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
index a2f5c1e..e8864db 100644
--- a/aalpy/oracles/kWayTransitionCoverageEqOracle.py
+++ b/aalpy/oracles/kWayTransitionCoverageEqOracle.py
@@ -82,6 +82,9 @@ class KWayTransitionCoverageEqOracle(Oracle):
             path = self.select_optimal_path(covered, paths)
 
             if path is not None:
+                if self.max_number_of_steps != 0 and step_count + len(path.steps) > self.max_number_of_steps:
+                    break
+
                 covered = set.union(covered, path.kWayTransitions)
                 paths.remove(path)
                 result.append(path)
@@ -93,10 +96,6 @@ class KWayTransitionCoverageEqOracle(Oracle):
                 if all(path.kWayTransitions <= covered for path in paths):
                     break
 
-            if self.max_number_of_steps != 0 and step_count > self.max_number_of_steps:
-                print("stop")
-                break
-
         return result
 
     def select_optimal_path(self, covered: set, paths: list) -> Path:
-- 
2.43.0


From 0ea711c946fa3b7223e2cbb06b4665bec082f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 32/97] fix: passive deterministic learning reordered the data
 of the caller

---
 .../deterministic_passive/rpni_helper_functions.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 4cf93e0..085e7d9 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -72,7 +72,8 @@ def check_sequence(root_node, seq, automaton_type):
 
 
 def createPTA(data, automaton_type):
-    data.sort(key=lambda x: len(x[0]))
+    # do not sort in place, the data belongs to the caller
+    data = sorted(data, key=lambda x: len(x[0]))
 
     root_node = RpniNode(automaton_type=automaton_type)
     for seq, label in data:
-- 
2.43.0


From 8f104c7f3f72363b1de23718b34d062036aef51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 33/97] fix: classic RPNI could not learn Mealy machines

---
 .../deterministic_passive/ClassicRPNI.py      | 37 +++----------------
 .../rpni_helper_functions.py                  | 14 ++++---
 2 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index d389a11..8b00ac5 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -66,16 +66,7 @@ class ClassicRPNI:
         """
         Only allow merging of states that have same output(s).
         """
-        if self.automaton_type != 'mealy':
-            # None is compatible with everything
-            return red_node.output == blue_node.output or red_node.output is None or blue_node.output is None
-        else:
-            red_io = {i: o for i, o in red_node.children.keys()}
-            blue_io = {i: o for i, o in blue_node.children.keys()}
-            for common_i in set(red_io.keys()).intersection(blue_io.keys()):
-                if red_io[common_i] != blue_io[common_i]:
-                    return False
-        return True
+        return red_node.compatible_outputs(blue_node)
 
     def _merge(self, red_node, lex_min_blue, copy_nodes=False):
         """
@@ -94,16 +85,16 @@ class ClassicRPNI:
 
         to_update.children[lex_min_blue.prefix[-1]] = red_node_in_tree
 
-        if self.automaton_type != 'mealy':
-            self._fold(red_node_in_tree, lex_min_blue)
-        else:
-            self._fold_mealy(red_node_in_tree, lex_min_blue)
+        self._fold(red_node_in_tree, lex_min_blue)
 
         return root_node
 
     def _fold(self, red_node, blue_node):
         # Change the output of red only to concrete output, ignore None
-        red_node.output = blue_node.output if blue_node.output is not None else red_node.output
+        if self.automaton_type == 'mealy':
+            red_node.output.update((i, o) for i, o in blue_node.output.items() if o is not None)
+        else:
+            red_node.output = blue_node.output if blue_node.output is not None else red_node.output
 
         for i in blue_node.children.keys():
             if i in red_node.children.keys():
@@ -111,19 +102,3 @@ class ClassicRPNI:
             else:
                 red_node.children[i] = blue_node.children[i]
 
-    def _fold_mealy(self, red_node, blue_node):
-        blue_io_map = {i: o for i, o in blue_node.children.keys()}
-
-        updated_keys = {}
-        for io, val in red_node.children.items():
-            o = blue_io_map[io[0]] if io[0] in blue_io_map.keys() else io[1]
-            updated_keys[(io[0], o)] = val
-
-        red_node.children = updated_keys
-
-        for io in blue_node.children.keys():
-            if io in red_node.children.keys():
-                self._fold_mealy(red_node.children[io], blue_node.children[io])
-            else:
-                red_node.children[io] = blue_node.children[io]
-
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index 085e7d9..a5ec2c6 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -59,10 +59,10 @@ def check_sequence(root_node, seq, automaton_type):
     curr_node = root_node
     for i, o in seq:
         if automaton_type == 'mealy':
-            input_outputs = {i: o for i, o in curr_node.children.keys()}
-            if i[0] not in input_outputs.keys() or o is not None and input_outputs[i[0]] != o:
+            # outputs of transitions are saved in the source node, they are checked iff output in test data is concrete
+            if o is not None and curr_node.output.get(i) != o:
                 return False
-            curr_node = curr_node.children[(i[0], input_outputs[i[0]])]
+            curr_node = curr_node.children[i]
         else:
             # For dfa and moore, check if outputs are the same, iff output in test data is concrete (not None)
             curr_node = curr_node.children[i]
@@ -119,8 +119,12 @@ def extract_unique_sequences(root_node):
         seq = []
         curr_node = root_node
         for i in node.prefix:
-            curr_node = curr_node.children[i]
-            seq.append((i, curr_node.output))
+            if curr_node.type == 'mealy':
+                seq.append((i, curr_node.output.get(i)))
+                curr_node = curr_node.children[i]
+            else:
+                curr_node = curr_node.children[i]
+                seq.append((i, curr_node.output))
         paths.append(seq)
 
     return paths
-- 
2.43.0


From a61e30d2171652688fc9dc880a6f83c77fc55e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 34/97] fix: EDSM and PAPNI return None for contradictory
 samples, as documented

---
 aalpy/learning_algs/deterministic_passive/RPNI.py    |  4 ++++
 aalpy/learning_algs/general_passive/GsmAlgorithms.py | 11 +++++++++--
 aalpy/learning_algs/general_passive/GsmNode.py       |  3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/RPNI.py b/aalpy/learning_algs/deterministic_passive/RPNI.py
index 04bbead..314f388 100644
--- a/aalpy/learning_algs/deterministic_passive/RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/RPNI.py
@@ -111,6 +111,10 @@ def run_PAPNI(data, vpa_alphabet, algorithm='edsm', print_info=True):
     else:
         learned_model = run_EDSM(papni_data, automaton_type='dfa', print_info=print_info)
 
+    # data is not deterministic
+    if learned_model is None:
+        return None
+
     # convert intermediate DFA representation to VPA
     learned_model = vpa_from_dfa_representation(learned_model, vpa_alphabet)
 
diff --git a/aalpy/learning_algs/general_passive/GsmAlgorithms.py b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
index 02d85d4..6fb996b 100644
--- a/aalpy/learning_algs/general_passive/GsmAlgorithms.py
+++ b/aalpy/learning_algs/general_passive/GsmAlgorithms.py
@@ -40,9 +40,16 @@ def run_EDSM(data, automaton_type, input_completeness=None, print_info=True) ->
 
     internal_automaton_type = 'moore' if automaton_type != 'mealy' else automaton_type
 
-    learned_model = run_GSM(data, output_behavior=internal_automaton_type,
+    try:
+        pta = GsmNode.createPTA(data, internal_automaton_type, data_format='labeled_sequences')
+    except ValueError:
+        print('Data provided to EDSM is not deterministic. Ensure that the data is deterministic, '
+              'or consider using Alergia.')
+        return None
+
+    learned_model = run_GSM(pta, output_behavior=internal_automaton_type,
                             transition_behavior="deterministic",
-                            score_calc=score, data_format='labeled_sequences', instrumentation=print_level)
+                            score_calc=score, data_format='tree', instrumentation=print_level)
 
     if automaton_type == 'dfa':
         learned_model = dfa_from_moore(learned_model)
diff --git a/aalpy/learning_algs/general_passive/GsmNode.py b/aalpy/learning_algs/general_passive/GsmNode.py
index 8d72e14..58c2177 100644
--- a/aalpy/learning_algs/general_passive/GsmNode.py
+++ b/aalpy/learning_algs/general_passive/GsmNode.py
@@ -437,6 +437,9 @@ class GsmNode:
         if data_format == "labeled_sequences":
             for example in data:
                 root_node.add_labeled_sequence(example)
+                inputs, output = example
+                if output_behavior == "moore" and len(inputs) == 0 and root_node.get_prefix_output() != output:
+                    raise ValueError("nondeterminism encountered for GSM with labeled_sequences. not supported")
         if data_format == "io_traces" or data_format == "traces":
             if output_behavior == "moore":
                 initial_output = data[0][0]
-- 
2.43.0


From 0740093b06b31a19fe60b426ae0e8dac554ac8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 35/97] fix: classic RPNI ignored the label of the empty
 sequence

---
 aalpy/learning_algs/deterministic_passive/ClassicRPNI.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index 8b00ac5..a82d9de 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -12,6 +12,8 @@ class ClassicRPNI:
 
         pta_construction_start = time.time()
         self.root_node = createPTA(data, automaton_type)
+        # output of the empty sequence is not part of test data
+        self.initial_output = self.root_node.output if self.root_node and automaton_type != 'mealy' else None
         self.test_data = extract_unique_sequences(self.root_node)
 
         if self.print_info:
@@ -57,6 +59,8 @@ class ClassicRPNI:
         """
         Check if current model is compatible with the data.
         """
+        if self.initial_output is not None and root_node.output != self.initial_output:
+            return False
         for sequence in self.test_data:
             if not check_sequence(root_node, sequence, automaton_type=self.automaton_type):
                 return False
-- 
2.43.0


From d11f6ac18e899c84c3582b2951ce819cdc092937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:20 +0000
Subject: [PATCH 36/97] fix: transform_score of a ScoreCalculation recursed
 infinitely

---
 aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
index 0f1cd97..be55418 100644
--- a/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
+++ b/aalpy/learning_algs/general_passive/ScoreFunctionsGSM.py
@@ -182,7 +182,8 @@ def transform_score(score, transform: Callable):
     if isinstance(score, Callable):
         return lambda *args: transform(score(*args))
     if isinstance(score, ScoreCalculation):
-        score.score_function = lambda *args: transform(score.score_function(*args))
+        score_function = score.score_function
+        score.score_function = lambda *args: transform(score_function(*args))
         return score
     return transform(score)
 
-- 
2.43.0


From 7651913f1f65a4f87aa8cee2ccfe107a7ea19d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 37/97] fix: samples of active Alergia shifted outputs by one
 step

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 5abdfcd..1381409 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from random import randint, choice
 
+from aalpy.automata import StochasticMealyMachine
 from aalpy.learning_algs import run_Alergia
 
 
@@ -43,9 +44,10 @@ class RandomWordSampler(Sampler):
 
             outputs = sul.query(random_walk)
 
-            sample = [outputs.pop(0)]
-            for i in range(len(outputs)):
-                sample.append((random_walk[i], outputs[i]))
+            # i-th output is the response to the i-th input, MDPs also have an initial output
+            sample = list(zip(random_walk, outputs))
+            if not isinstance(model, StochasticMealyMachine):
+                sample.insert(0, model.initial_state.output)
 
             samples.append(sample)
 
-- 
2.43.0


From 4142f6fb220e1649085ee140e8bba30884fe2f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 38/97] fix: active Alergia ignored the automaton type

---
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index 1381409..bec5883 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -81,7 +81,7 @@ def run_active_Alergia(data, sul, sampler, n_iter, eps=0.05, compatibility_check
     for i in range(n_iter):
         if print_info:
             print(f'Active Alergia Iteration: {i}')
-        model = run_Alergia(data, automaton_type='mdp', eps=eps, compatibility_checker=compatibility_checker)
+        model = run_Alergia(data, automaton_type=automaton_type, eps=eps, compatibility_checker=compatibility_checker)
 
         new_samples = sampler.sample(sul, model)
         data.extend(new_samples)
-- 
2.43.0


From defdcb7353951edcd2be86ba444339b33e01d3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:41 +0000
Subject: [PATCH 39/97] fix: automatic epsilon of Alergia (invalid for few
 samples, steps of SMM data)

---
 aalpy/learning_algs/stochastic_passive/Alergia.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 6534504..570c3ab 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -18,7 +18,9 @@ class Alergia:
         self.print_info = print_info
 
         if eps == 'auto':
-            eps = 10 / sum(len(d) - 1 for d in data)  # len - 1 to ignore initial output
+            # only MDPs and Markov chains have an initial output, which is not a step. Largest admissible value is 2
+            steps = sum(len(d) - (automaton_type != 'smm') for d in data)
+            eps = min(10 / max(steps, 1), 2)
 
         self.diff_checker = HoeffdingCompatibility(eps) if not compatibility_checker else compatibility_checker
 
-- 
2.43.0


From 351b917ac9d9b2b47e85d6c80e07f889a69713c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:25 +0000
Subject: [PATCH 40/97] fix: round limit of the ONFSM learner was exceeded by
 one round

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 223cb36..7b7224b 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -67,9 +67,6 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
     hypothesis = None
 
     while True:
-        if max_learning_rounds and learning_rounds - 1 == max_learning_rounds:
-            break
-
         ot.S = list()
         ot.S.append((tuple(), tuple()))
         ot.query_missing_observations()
@@ -102,7 +99,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         else:
             cex = last_cex
 
-        if cex is None:
+        if cex is None or max_learning_rounds and learning_rounds == max_learning_rounds:
             break
         else:
             cex_suffixes = all_suffixes(cex[0])
-- 
2.43.0


From 4e2a13b15e1cded76ad3770181ba4b95624c9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 41/97] fix: adding probabilities to a learned ONFSM crashed if
 rows changed since its construction

---
 .../non_deterministic/OnfsmLstar.py           |  2 +-
 .../OnfsmObservationTable.py                  | 49 +++++++++++++------
 2 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 7b7224b..74c5a3c 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -109,7 +109,7 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
                     break
 
     if stochastic:
-        hypothesis = ot.gen_hypothesis(stochastic=True)
+        hypothesis = ot.add_probabilities(hypothesis)
 
     total_time = round(time.time() - start_time, 2)
     eq_query_time = round(eq_query_time, 2)
diff --git a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
index 68c9d14..7bb008a 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmObservationTable.py
@@ -151,10 +151,9 @@ class NonDetObservationTable:
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-    def gen_hypothesis(self, stochastic=False):
+    def gen_hypothesis(self):
         """
         Generate automaton based on the values found in the observation table.
-        If stochastic is set to True, returns a Stochastic Mealy Machine.
 
         Returns:
 
@@ -167,12 +166,9 @@ class NonDetObservationTable:
 
         stateCounter = 0
 
-        state_class = OnfsmState if not stochastic else StochasticMealyState
-        model_class = Onfsm if not stochastic else StochasticMealyMachine
-
         for prefix in self.S:
             state_id = f's{stateCounter}'
-            states_dict[prefix] = state_class(state_id)
+            states_dict[prefix] = OnfsmState(state_id)
 
             states_dict[prefix].prefix = prefix
             state_distinguish[self.row_to_hashable(prefix)] = states_dict[prefix]
@@ -184,21 +180,44 @@ class NonDetObservationTable:
         for prefix in self.S:
             for a in self.A:
                 observations_in_cell = self.sul.cache.get_all_traces(prefix, a)
-                probability_distribution = None
-                if stochastic:
-                    probability_distribution = self.sul.cache.get_sampling_distributions(prefix, a[0])
                 for obs in observations_in_cell:
                     reached_row = (prefix[0] + a, prefix[1] + (obs[-1],))
                     destination = state_distinguish[self.row_to_hashable(reached_row)]
                     assert destination
-                    if not stochastic:
-                        states_dict[prefix].transitions[a[0]].append((obs[-1], destination))
-                    else:
-                        states_dict[prefix].transitions[a[0]].append((destination, obs[-1],
-                                                                      probability_distribution[obs[-1]]))
+                    states_dict[prefix].transitions[a[0]].append((obs[-1], destination))
 
         assert initial
-        automaton = model_class(initial, [s for s in states_dict.values()])
+        automaton = Onfsm(initial, [s for s in states_dict.values()])
+        automaton.characterization_set = self.E
+
+        return automaton
+
+    def add_probabilities(self, hypothesis):
+        """
+        Stochastic Mealy machine with the states and transitions of the hypothesis. The table is not used for its
+        construction, as observations made since the hypothesis was generated might have changed its rows.
+
+        Args:
+
+            hypothesis: ONFSM generated from the observation table
+
+        Returns:
+
+            Stochastic Mealy machine
+        """
+        states_dict = {state: StochasticMealyState(state.state_id) for state in hypothesis.states}
+
+        for state, stochastic_state in states_dict.items():
+            stochastic_state.prefix = state.prefix
+            for i, transitions in state.transitions.items():
+                if not transitions:
+                    continue
+                distribution = self.sul.cache.get_sampling_distributions(state.prefix, i)
+                total = sum(distribution[o] for o, _ in transitions)
+                for o, destination in transitions:
+                    stochastic_state.transitions[i].append((states_dict[destination], o, distribution[o] / total))
+
+        automaton = StochasticMealyMachine(states_dict[hypothesis.initial_state], list(states_dict.values()))
         automaton.characterization_set = self.E
 
         return automaton
-- 
2.43.0


From 67df44a5bfd23597058eb800c6aeb8c7e9b11fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:12 +0000
Subject: [PATCH 42/97] fix: ONFSM observation table was no longer closed after
 it was cleaned

---
 aalpy/learning_algs/non_deterministic/OnfsmLstar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
index 74c5a3c..0e77a00 100644
--- a/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/OnfsmLstar.py
@@ -74,8 +74,9 @@ def run_non_det_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, n_sampling=5,
         row_to_close = ot.get_row_to_close()
         while row_to_close is not None:
             ot.query_missing_observations()
-            row_to_close = ot.get_row_to_close()
+            # cleaning the table after the check could remove the row that closes it
             ot.clean_obs_table()
+            row_to_close = ot.get_row_to_close()
 
         hypothesis = ot.gen_hypothesis()
 
-- 
2.43.0


From 54d4cc7e47bfa647bfbb947f28fb8939e8b59808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 43/97] fix: abstracted ONFSM learning crashed for inputs or
 outputs of mixed types

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index e01ad1a..c477aa0 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -420,7 +420,8 @@ class AbstractedNonDetObservationTable:
         update_S = self.S.copy()
         whole_S = self.S + self.S_dot_A
 
-        update_S.sort()
+        # inputs and outputs of different types have no natural order
+        update_S.sort(key=repr)
         update_S.sort(key=lambda t: len(t[0]))
 
         s_rows = set()
-- 
2.43.0


From c2cb8c08f45097140b9cc4961b653cf3110bda14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 44/97] fix: abstracted ONFSM table removed rows twice from the
 same list (ValueError)

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py        | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index c477aa0..4cae4da 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -251,14 +251,12 @@ class AbstractedNonDetObservationTable:
             if hashed_s_row in hashed_rows_from_s:
                 if s in self.S:
                     self.S.remove(s)
-                    self.observation_table.S.remove(s)
                 size = len(s[0])
                 for row_prefix in tmp_both_S:
                     s_both_row = (row_prefix[0][:size], row_prefix[1][:size])
                     if s != row_prefix and s == s_both_row:
                         if row_prefix in self.S:
                             self.S.remove(row_prefix)
-                            self.observation_table.S.remove(s)
             else:
                 hashed_rows_from_s.add(hashed_s_row)
 
-- 
2.43.0


From beba9f20582274388b4b61954b4bb2be5e6e5d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 45/97] fix: rows of the abstracted ONFSM table that were not
 sampled for new suffixes (KeyError)

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 4cae4da..d559dbc 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -66,6 +66,9 @@ class AbstractedNonDetObservationTable:
         update_S = self.S + self.S_dot_A
         update_E = self.E
 
+        # rows of S.A that stem from counterexamples or new observations might not be sampled yet
+        self.observation_table.query_missing_observations(update_S, update_E)
+
         for s in update_S:
             for e in update_E:
                 for o_tup in self.get_all_outputs(s, e):
-- 
2.43.0


From d89bde51b91700dcf5a7aaea189c5648ee20c74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 46/97] fix: consistency of abstracted ONFSM tables was never
 found violated (nested letters)

---
 .../AbstractedOnfsmObservationTable.py           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index d559dbc..1f8f423 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -195,17 +195,19 @@ class AbstractedNonDetObservationTable:
                 #                 outputs = self.observation_table.T[s_row[0]][a]
                 outputs = self.get_all_outputs(s_row[0], a)
                 for o in outputs:
-                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + tuple([o]))
+                    extended_s_sequence = (s_row[0][0] + a, s_row[0][1] + o)
                     if extended_s_sequence in unified_S:
                         extended_s_sequence_row = self.row_to_hashable(extended_s_sequence)
                         for similar_s_dot_a_row in similar_s_dot_a_rows:
                             extended_s_dot_a_sequence = (
-                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o]))
+                                similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + o)
                             if extended_s_dot_a_sequence in unified_S:
                                 extended_s_dot_a_sequence_row = self.row_to_hashable(extended_s_dot_a_sequence)
-                                if extended_s_sequence_row is not extended_s_dot_a_sequence_row:
-                                    return self.get_distinctive_input_sequence(extended_s_sequence,
-                                                                               extended_s_dot_a_sequence, a)
+                                if extended_s_sequence_row != extended_s_dot_a_sequence_row:
+                                    column = self.get_distinctive_input_sequence(extended_s_sequence,
+                                                                                 extended_s_dot_a_sequence, a)
+                                    if column not in self.E:
+                                        return column
 
         return None
 
@@ -225,8 +227,8 @@ class AbstractedNonDetObservationTable:
 
         """
         for e in self.E:
-            if len(self.T[first_row][e].difference(self.T[second_row][e])) > 0:
-                return tuple([inp]) + e
+            if self.T[first_row][e] != self.T[second_row][e]:
+                return inp + e
 
         return None
 
-- 
2.43.0


From 065d4a3b3aa8a966b53886631cd02620b33b3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 47/97] fix: abstracted ONFSM learner repeated the same
 counterexample forever

---
 .../non_deterministic/AbstractedOnfsmObservationTable.py   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 1f8f423..4fbbe5d 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -397,7 +397,10 @@ class AbstractedNonDetObservationTable:
                 equivalent_output = True
                 break
 
-        if equivalent_output:
+        cex_suffixes = all_suffixes(cex[0])
+
+        # suffixes that are in E already do not distinguish anything new
+        if equivalent_output or all(suffix in self.E for suffix in cex_suffixes):
             # add prefixes of cex to S_dot_A
             cex_prefixes = [(tuple(cex[0][0:i + 1]), tuple(cex[1][0:i + 1])) for i in range(0, len(cex[0]))]
             prefixes_to_extend = self.extend_S_dot_A(cex_prefixes)
@@ -410,8 +413,6 @@ class AbstractedNonDetObservationTable:
             # CHANGED CEX PROX
             # TODO: this will now not work as cex processing was changed
             # cex_suffixes = non_det_longest_prefix_cex_processing(self.observation_table, cex)
-            cex_suffixes = all_suffixes(cex[0])
-
             added_suffixes = extend_set(self.observation_table.E, cex_suffixes)
             self.update_obs_table(e_set=added_suffixes)
 
-- 
2.43.0


From bf5e544e9f0a96054bf1f0d3bd54df1f78844ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:28 +0000
Subject: [PATCH 48/97] fix: stochastic L* reported wrong number of learning
 steps

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 7d7623b..ef340e5 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -202,7 +202,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
         'learning_rounds': learning_rounds,
         'automaton_size': len(hypothesis.states),
         'queries_learning': stochastic_teacher.sul.num_queries - eq_oracle.num_queries,
-        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_queries,
+        'steps_learning': stochastic_teacher.sul.num_steps - eq_oracle.num_steps,
         'queries_eq_oracle': eq_oracle.num_queries,
         'steps_eq_oracle': eq_oracle.num_steps,
         'learning_time': learning_time,
-- 
2.43.0


From ab61b061e7bae8f93360abdbad55b0826c5e3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 49/97] fix: longest prefix processing of stochastic L* crashed
 if the whole counterexample is a prefix in the table

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index ef340e5..0d21ab8 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -165,7 +165,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
                 suffixes = None
                 if cex_processing == 'longest_prefix':
                     prefixes = observation_table.S + list(observation_table.get_extended_s())
-                    suffixes = [stochastic_longest_prefix(cex, prefixes)[-1]]
+                    suffixes = stochastic_longest_prefix(cex, prefixes)[-1:]
                 elif cex_processing == 'rs':
                     suffixes = stochastic_rs(sul, cex, hypothesis)
                 for suf in suffixes:
-- 
2.43.0


From 70e9a30963dc7ff4510d646102eb784dcb5e4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 50/97] fix: rows of newly observed outputs were missing in the
 table of stochastic L* (KeyError)

---
 .../SamplingBasedObservationTable.py          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
index 5513278..6f835de 100644
--- a/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
+++ b/aalpy/learning_algs/stochastic/SamplingBasedObservationTable.py
@@ -122,16 +122,24 @@ class SamplingBasedObservationTable:
         Returns:
 
         """
-        if element_of_s:
-            s_set = element_of_s + list(self.get_extended_s(element_of_s=element_of_s))
-        else:
-            s_set = self.S + list(self.get_extended_s())
-        # s_set = element_of_s if  else self.S + list(self.get_extended_s())
+        s_set = element_of_s if element_of_s else self.S
 
         for s in s_set:
-            for e in self.E:
-                self.T[s][e] = self.teacher.frequency_query(s, e)
-                self.freq_query_cache[s + e] = self.T[s][e]
+            self.update_row(s)
+        # outputs that were observed for the first time extend S.A, so it is computed once S is up to date
+        for s in list(self.get_extended_s(element_of_s=element_of_s)):
+            self.update_row(s)
+
+    def update_row(self, s):
+        """Updates all cells of a row with frequency data.
+
+        Args:
+          s: prefix of the row
+
+        """
+        for e in self.E:
+            self.T[s][e] = self.teacher.frequency_query(s, e)
+            self.freq_query_cache[s + e] = self.T[s][e]
 
     def get_extended_s(self, element_of_s=None):
         """Generator returning all elements of the extended S set.
-- 
2.43.0


From a4854fe542f9c9d3da08303a09f82e4e0fda8eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 51/97] fix: states of the MDP converted from a SMM shared ids
 (or conversion crashed for ids that are not strings)

---
 aalpy/automata/StochasticMealyMachine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 629ab7c..ffe8cda 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -124,7 +124,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
-            new_state_id = s.state_id + str(state_id)
+            new_state_id = f'{s.state_id}_{state_id}'
             state_id += 1
             new_state = MdpState(new_state_id, o)
             mdp_states.append(new_state)
-- 
2.43.0


From 5ef83d6ed90ad26c3c2bb21f34cd14c0c7a3803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 52/97] fix: conversion of a SMM to MDP added undefined inputs
 to states of the SMM

---
 aalpy/automata/StochasticMealyMachine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index ffe8cda..e024146 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -120,7 +120,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
         incoming_outputs = set()
         for pre_s in smm.states:
             for i in inputs:
-                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions[i])
+                incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
                 incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
         state_id = 0
         for o in incoming_outputs:
@@ -133,7 +133,7 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     for s in smm.states:
         mdp_states_for_s = {mdp_state for (s_id, o), mdp_state in smm_state_to_mdp_state.items() if s_id == s.state_id}
         for i in inputs:
-            for outgoing_t in s.transitions[i]:
+            for outgoing_t in s.transitions.get(i, []):
                 target_smm_state = outgoing_t[0]
                 output = outgoing_t[1]
                 prob = outgoing_t[2]
-- 
2.43.0


From 40cb619981b2328ca677b5959b5547db02d066e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 53/97] fix: mc_from_mdp ignored the given input if it is falsy

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index fb52c0b..e703f96 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -435,7 +435,7 @@ def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
     if len(alphabet) != 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol or alphabet[0]
+    input_symbol = input_symbol if input_symbol is not None else alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From e29abc7ae46c6da7d40e9c5476ce4f464e7b6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:12 +0000
Subject: [PATCH 54/97] fix: sink state of a completed non-deterministic Moore
 machine had no output

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index e703f96..faaf535 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -251,7 +251,7 @@ def make_input_complete(automaton, missing_transition_go_to='self_loop'):
                             MooreMachine: MooreState(state_id='sink', output='sink_state'),
                             MealyMachine: MealyState(state_id='sink'),
                             Onfsm: OnfsmState(state_id='sink'),
-                            NDMooreMachine: NDMooreState(state_id='sink'),
+                            NDMooreMachine: NDMooreState(state_id='sink', output='sink_state'),
                             Mdp: MdpState(state_id='sink', output='sink_state'),
                             StochasticMealyMachine: StochasticMealyState(state_id='sink')}
 
-- 
2.43.0


From b4b392b2287c42d759eb11ac13695ef76852f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 55/97] fix: random generation of automata that cannot be
 minimal never returned

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index 2d975b6..a833751 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -124,6 +124,7 @@ def generate_random_deterministic_automata(automaton_type,
             if minimality_iterations == 100:
                 warnings.warn(f'Non-minimal automaton ({automaton_type}, num_states : {num_states}) returned.')
                 break
+            minimality_iterations += 1
 
             custom_args = {}
             if 'custom_input_alphabet' in kwargs:
-- 
2.43.0


From 1c9c0e9e3b5f39386a9232e5640deb69912e0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:48 +0000
Subject: [PATCH 56/97] fix: random SEVPAs missed internal transitions
 (completion was dead code)

---
 aalpy/utils/AutomatonGenerators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index a833751..b89f77c 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -504,7 +504,7 @@ def generate_random_sevpa(num_states, internal_alphabet_size, call_alphabet_size
 
     for state in states:
         for internal_letter in internal_alphabet:
-            if state.transitions[internal_letter] is None:
+            if not _has_transition(state, internal_letter, None):
                 target_state = random.choice(states)
                 state.transitions[internal_letter].append(
                     SevpaTransition(target_state, internal_letter, None, None))
-- 
2.43.0


From cfd24d1a5aff7865f55f097bc39e69e8e8275d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 57/97] fix: random SMMs had several transitions with the same
 input and output

---
 aalpy/utils/AutomatonGenerators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aalpy/utils/AutomatonGenerators.py b/aalpy/utils/AutomatonGenerators.py
index b89f77c..4615872 100644
--- a/aalpy/utils/AutomatonGenerators.py
+++ b/aalpy/utils/AutomatonGenerators.py
@@ -353,6 +353,7 @@ def generate_random_smm(num_states, input_size, output_size, possible_probabilit
                     if new_output not in observed_outputs:
                         state_id_state_map[deterministic_state.state_id].transitions[i].append(
                             (new_state, new_output, prob[prob_index]))
+                        observed_outputs.append(new_output)
                         break
 
     return StochasticMealyMachine(smm_states[0], smm_states)
-- 
2.43.0


From 4c7204bfc4791abf3981b25dcc1a1e39d9e0c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 58/97] fix: TomitaSUL appended None to the word when the empty
 word was asked

---
 aalpy/SULs/TomitaSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/TomitaSUL.py b/aalpy/SULs/TomitaSUL.py
index 89a7fbe..218fb62 100644
--- a/aalpy/SULs/TomitaSUL.py
+++ b/aalpy/SULs/TomitaSUL.py
@@ -26,7 +26,7 @@ class TomitaSUL(SUL):
         pass
 
     def step(self, letter):
-        if input:
+        if letter is not None:
             self.string += str(letter)
         return self.tomita_level(self.string)
 
-- 
2.43.0


From 02b28ba15bde71c1a09d8c2cfec66097b4d57adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 59/97] fix: FunctionDecorator dropped falsy arguments

---
 aalpy/SULs/PyMethodSUL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/SULs/PyMethodSUL.py b/aalpy/SULs/PyMethodSUL.py
index d45d7b4..cc1e42a 100644
--- a/aalpy/SULs/PyMethodSUL.py
+++ b/aalpy/SULs/PyMethodSUL.py
@@ -18,7 +18,7 @@ class FunctionDecorator:
 
         self.function = function
         self.args = None
-        if args:
+        if args is not None:
             self.args = [args] if not isinstance(args, (list, tuple)) else args
 
     def __repr__(self):
-- 
2.43.0


From d1cc812572b310e85fdc3f4ebe3cb3e63e44f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 60/97] fix: RegexSUL accepted words that only begin with an
 alternative of the expression

---
 aalpy/SULs/RegexSUL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/SULs/RegexSUL.py b/aalpy/SULs/RegexSUL.py
index 1499bdc..3cd6f00 100644
--- a/aalpy/SULs/RegexSUL.py
+++ b/aalpy/SULs/RegexSUL.py
@@ -9,7 +9,7 @@ class RegexSUL(SUL):
     """
     def __init__(self, regex: str):
         super().__init__()
-        self.regex = regex if regex[-1] == '$' else regex + '$'
+        self.regex = regex if regex.endswith('$') else regex + '$'
         self.string = ""
 
     def pre(self):
@@ -34,4 +34,4 @@ class RegexSUL(SUL):
         """
         if letter is not None:
             self.string += str(letter)
-        return True if re.match(self.regex, self.string) else False
+        return True if re.fullmatch(self.regex, self.string) else False
-- 
2.43.0


From be4db8d895ac1684b9b8e20c2dfd2890f0a489da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:00 +0000
Subject: [PATCH 61/97] fix: empty query of a non-deterministic Moore machine
 crashed instead of returning the initial output

---
 aalpy/automata/NonDeterministicMooreMachine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 5f76be8..9be9810 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -63,6 +63,7 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
             the output of the reached state
 
         """
-        options = self.current_state.transitions[letter]
-        self.current_state = random.choice(options)
+        if letter is not None:
+            options = self.current_state.transitions[letter]
+            self.current_state = random.choice(options)
         return self.current_state.output
-- 
2.43.0


From b96d32335e3fb7747fc7dabee735af4809886fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 62/97] fix: computing a characterization set extended the
 caller's list of initial sequences

---
 aalpy/base/Automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 32125e0..7d9241e 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -346,7 +346,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
         """
         blocks = list()
         blocks.append(copy.copy(self.states))
-        char_set = [] if not char_set_init else char_set_init
+        char_set = [] if not char_set_init else list(char_set_init)
         if char_set_init:
             for seq in char_set_init:
                 blocks = self._split_blocks(blocks, seq)
-- 
2.43.0


From 5c8ed8b90993460859138fcfc429550c2315084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 63/97] fix: no characterization set was found for minimal DFAs
 and Moore machines if initial sequences are given (empty sequence was not
 added)

---
 aalpy/automata/Dfa.py          | 6 +++++-
 aalpy/automata/MooreMachine.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Dfa.py b/aalpy/automata/Dfa.py
index 0362dd7..5b5b749 100644
--- a/aalpy/automata/Dfa.py
+++ b/aalpy/automata/Dfa.py
@@ -42,7 +42,11 @@ class Dfa(DeterministicAutomaton[DfaState[InputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(Dfa, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        # states can differ in their label only
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(Dfa, self).compute_characterization_set(char_set_init,
                                                              online_suffix_closure, split_all_blocks,
                                                              return_same_states, raise_warning)
 
diff --git a/aalpy/automata/MooreMachine.py b/aalpy/automata/MooreMachine.py
index 57e40f6..2f865e8 100644
--- a/aalpy/automata/MooreMachine.py
+++ b/aalpy/automata/MooreMachine.py
@@ -39,7 +39,11 @@ class MooreMachine(DeterministicAutomaton[MooreState[InputType, OutputType]]):
 
     def compute_characterization_set(self, char_set_init=None, online_suffix_closure=True, split_all_blocks=True,
                                      return_same_states=False, raise_warning=True):
-        return super(MooreMachine, self).compute_characterization_set(char_set_init if char_set_init else [()],
+        # states can differ in their label only
+        char_set_init = list(char_set_init) if char_set_init else []
+        if () not in char_set_init:
+            char_set_init.append(())
+        return super(MooreMachine, self).compute_characterization_set(char_set_init,
                                                                       online_suffix_closure, split_all_blocks,
                                                                       return_same_states, raise_warning)
 
-- 
2.43.0


From 94b052eb8baea4e909fa90d426870185c34a523e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 64/97] fix: initial output was kept as string while all other
 outputs are converted to integers

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 71a94e8..0895505 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -55,7 +55,7 @@ class IODelimiterTokenizer(DataHandler):
         lines = open(path).read().splitlines()
         for l in lines:
             words = l.split(word_delimiter)
-            seq = [words[0]]
+            seq = [try_int(words[0])]
             for w in words[1:]:
                 i_o = w.split(io_delimiter)
                 if len(i_o) != 2:
-- 
2.43.0


From e5ec2a74bfa55f222424bf32dcfed39c3324d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 65/97] fix: generate_test_cases lost the last test case

---
 aalpy/utils/ModelChecking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3199250..3c66c53 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -363,6 +363,7 @@ class TestCaseWrapperSUL(SUL):
     def post(self):
         if self.test_case_inputs and self.test_case_outputs:
             self.test_cases.append((tuple(self.test_case_inputs), tuple(self.test_case_outputs)))
+            self.test_case_inputs, self.test_case_outputs = [], []
         return self.sul.post()
 
     def step(self, letter):
@@ -396,6 +397,8 @@ def generate_test_cases(automaton: DeterministicAutomaton, oracle):
     # no counterexamples can be found
     cex = oracle.find_cex(automaton)
     assert cex is None
+    # not all oracles end the last test case
+    wrapped_sul.post()
     return wrapped_sul.test_cases
 
 
-- 
2.43.0


From fa33d4b1f49853f81a70a29abe5d37fb83386d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:36 +0000
Subject: [PATCH 66/97] fix: small probabilities reported by PRISM (scientific
 notation) were read without exponent

---
 aalpy/utils/ModelChecking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/ModelChecking.py b/aalpy/utils/ModelChecking.py
index 3c66c53..c71f0c8 100644
--- a/aalpy/utils/ModelChecking.py
+++ b/aalpy/utils/ModelChecking.py
@@ -12,7 +12,7 @@ from aalpy.automata import Mdp, StochasticMealyMachine, MealyMachine, Dfa, Moore
     DfaState
 from aalpy.base import DeterministicAutomaton, SUL, AutomatonState
 
-prism_prob_output_regex = re.compile("Result: (\d+\.\d+)")
+prism_prob_output_regex = re.compile(r"Result: (\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)")
 
 
 def get_properties_file(exp_name):
-- 
2.43.0


From e8026326aef101e99a3bcd4cc5cea5df311df4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 67/97] fix: order of characterization sets and self loops does
 not depend on hash values

---
 aalpy/base/Automaton.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aalpy/base/Automaton.py b/aalpy/base/Automaton.py
index 7d9241e..9433f59 100644
--- a/aalpy/base/Automaton.py
+++ b/aalpy/base/Automaton.py
@@ -37,8 +37,7 @@ class AutomatonState(ABC):
         Get all transitions that lead to the same state (self loops).
         """
         dst = self.get_diff_state_transitions()
-        all_trans = set(self.transitions.keys())
-        return [t for t in all_trans if t not in dst]
+        return [t for t in self.transitions if t not in dst]
 
 
 AutomatonStateType = TypeVar("AutomatonStateType", bound=AutomatonState)
@@ -400,7 +399,7 @@ class DeterministicAutomaton(Automaton[AutomatonStateType]):
                 for new_block in new_blocks:
                     blocks.append(new_block)
 
-        char_set = list(set(char_set))
+        char_set = list(dict.fromkeys(char_set))
         if return_same_states:
             return None, None
         return char_set
-- 
2.43.0


From 8c7d9790f89e087120191a4c2911ab40d8d6eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 68/97] fix: order of Wp-method test cases does not depend on
 hash values

---
 aalpy/oracles/WpMethodEqOracle.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aalpy/oracles/WpMethodEqOracle.py b/aalpy/oracles/WpMethodEqOracle.py
index 6ca4261..4d48efb 100644
--- a/aalpy/oracles/WpMethodEqOracle.py
+++ b/aalpy/oracles/WpMethodEqOracle.py
@@ -84,14 +84,15 @@ class WpMethodEqOracle(Oracle):
             hypothesis.minimize()
             hypothesis.characterization_set = hypothesis.compute_characterization_set()
 
-        transition_cover = set(
+        # dictionaries are used as ordered sets, so that the order of test cases does not depend on hash values
+        transition_cover = dict.fromkeys(
             state.prefix + (letter,)
             for state in hypothesis.states
             for letter in self.alphabet
         )
 
-        state_cover = set(state.prefix for state in hypothesis.states)
-        difference = transition_cover.difference(state_cover)
+        state_cover = dict.fromkeys(state.prefix for state in hypothesis.states)
+        difference = [prefix for prefix in transition_cover if prefix not in state_cover]
         depth = self.m + 1 - len(hypothesis.states)
         # first phase State Cover * Middle * Characterization Set
         first_phase = first_phase_it(self.alphabet, state_cover, depth, hypothesis.characterization_set)
-- 
2.43.0


From 5bae5abf08b4e5f0b4ac58d5cad19e1d0c4b4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 69/97] fix: state ids of MDPs converted from SMMs do not
 depend on hash values

---
 aalpy/automata/StochasticMealyMachine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index e024146..706cdeb 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -117,11 +117,12 @@ def smm_to_mdp_conversion(smm: StochasticMealyMachine):
     mdp_states.append(init_state)
     for s in smm.states:
         incoming_edges = defaultdict(list)
-        incoming_outputs = set()
+        # used as an ordered set
+        incoming_outputs = dict()
         for pre_s in smm.states:
             for i in inputs:
                 incoming_edges[i] += filter(lambda t: t[0] == s, pre_s.transitions.get(i, []))
-                incoming_outputs.update(map(lambda t: t[1], incoming_edges[i]))
+                incoming_outputs.update(dict.fromkeys(map(lambda t: t[1], incoming_edges[i])))
         state_id = 0
         for o in incoming_outputs:
             new_state_id = f'{s.state_id}_{state_id}'
-- 
2.43.0


From 797c416b09364b97c599950b593620f4628d20f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 70/97] fix: samples of active passive-learning do not depend
 on hash values

---
 aalpy/learning_algs/deterministic_passive/active_RPNI.py | 2 +-
 aalpy/learning_algs/stochastic_passive/ActiveAleriga.py  | 2 +-
 aalpy/utils/HelperFunctions.py                           | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/active_RPNI.py b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
index e3e95dd..9a7466c 100644
--- a/aalpy/learning_algs/deterministic_passive/active_RPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/active_RPNI.py
@@ -35,7 +35,7 @@ class RandomWordSampler(RpniActiveSampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
         for _ in range(self.num_walks):
diff --git a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
index bec5883..fab6c16 100644
--- a/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
+++ b/aalpy/learning_algs/stochastic_passive/ActiveAleriga.py
@@ -35,7 +35,7 @@ class RandomWordSampler(Sampler):
         self.max_walk_len = max_walk_len
 
     def sample(self, sul, model):
-        input_al = list({el for s in model.states for el in s.transitions.keys()})
+        input_al = list(dict.fromkeys(el for s in model.states for el in s.transitions.keys()))
         samples = []
 
         for _ in range(self.num_walks):
diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index faaf535..8008a80 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -285,18 +285,19 @@ def convert_i_o_traces_for_RPNI(sequences, automaton_type="mealy"):
     Eg. [[(1,'a'), (2,'b'), (3,'c')], [(6,'7'), (4,'e'), (3,'c')]] to
     [((1,), 'a'), ((1, 2), 'b'), ((1, 2, 3), 'c'), ((6,), '7'), ((6, 4), 'e'), ((6, 4, 3), 'c')]
     """
-    rpni_sequences = set()
+    # used as an ordered set
+    rpni_sequences = dict()
 
     if automaton_type not in ["mealy", "moore", "dfa"]:
         raise ValueError()
 
     for s in sequences:
         if automaton_type in ["moore", "dfa"]:
-            rpni_sequences.add((tuple(), s[0]))
+            rpni_sequences[(tuple(), s[0])] = None
             s = s[1:]
         for i in range(len(s)):
             inputs = tuple([io[0] for io in s[:i + 1]])
-            rpni_sequences.add((inputs, s[i][1]))
+            rpni_sequences[(inputs, s[i][1])] = None
 
     return list(rpni_sequences)
 
-- 
2.43.0


From 112522aa4abc6738d01529c4611648ce9dc88a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 71/97] fix: order of equally long accepting words does not
 depend on hash values

---
 aalpy/automata/Sevpa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 74b82d7..d5901d8 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -412,7 +412,8 @@ class Sevpa(Automaton):
         for letter in shuffled_alphabet:
             queue.append([letter])
 
-        found_words = set()
+        # used as an ordered set
+        found_words = dict()
         while queue:
             word = queue.popleft()
             self.reset_to_initial()
@@ -421,7 +422,7 @@ class Sevpa(Automaton):
             if self.error_state_reached:
                 continue
             if self.current_state.is_accepting and self.stack[-1] == self.empty and len(word) >= min_word_length:
-                found_words.add(tuple(word))
+                found_words[tuple(word)] = None
             if len(found_words) >= num_words:
                 found_words = list(found_words)
                 found_words.sort(key=len)
-- 
2.43.0


From b0f74d9aa0b68b03ff855e34a016c4a6579ed260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 72/97] fix: abstracted ONFSM learning asked queries in an
 order that depends on hash values

---
 .../AbstractedOnfsmObservationTable.py        | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 4fbbe5d..915a959 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -60,7 +60,8 @@ class AbstractedNonDetObservationTable:
         """
 
         self.S = self.observation_table.S
-        self.S_dot_A = list(set(self.observation_table.get_extended_S()).union(set(self.S_dot_A) - set(self.S)))
+        self.S_dot_A = list(dict.fromkeys(self.observation_table.get_extended_S() +
+                                          [s for s in self.S_dot_A if s not in self.S]))
         self.E = self.observation_table.E
 
         update_S = self.S + self.S_dot_A
@@ -99,9 +100,7 @@ class AbstractedNonDetObservationTable:
     # CHANGED
     # helper function
     def get_all_outputs(self, s, e):
-        cell_outputs = set()
-        cell_outputs.update(self.sul.cache.get_all_traces(s, e))
-        return cell_outputs
+        return list(dict.fromkeys(self.sul.cache.get_all_traces(s, e)))
 
     def update_extended_S(self, row_prefix=None):
         """
@@ -146,9 +145,7 @@ class AbstractedNonDetObservationTable:
             row that will be added to S.A
         """
 
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
@@ -161,14 +158,14 @@ class AbstractedNonDetObservationTable:
                 complete_outputs = self.get_all_outputs(s_row[0], a)
                 for similar_s_dot_a_row in similar_s_dot_a_rows:
                     t_row_outputs = self.get_all_outputs(similar_s_dot_a_row, a)
-                    output_difference = t_row_outputs.difference(complete_outputs)
+                    output_difference = [o for o in t_row_outputs if o not in complete_outputs]
                     if len(output_difference) > 0:
                         for o in output_difference:
                             extension = (similar_s_dot_a_row[0] + a, similar_s_dot_a_row[1] + tuple([o[0]]))
                             if extension not in self.S and extension not in self.S_dot_A:
                                 return extension
                             else:
-                                complete_outputs = complete_outputs.union(output_difference)
+                                complete_outputs = complete_outputs + output_difference
 
         return None
 
@@ -177,9 +174,7 @@ class AbstractedNonDetObservationTable:
         Get row that violates consistency.
         """
         unified_S = self.S + self.S_dot_A
-        s_rows = set()
-        for s in self.S:
-            s_rows.add(tuple((s, self.row_to_hashable(s))))
+        s_rows = [(s, self.row_to_hashable(s)) for s in self.S]
 
         for s_row in s_rows:
             similar_s_dot_a_rows = []
-- 
2.43.0


From 880525e5adb633b7ba9c4bc0f382fb3122140dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 73/97] fix: L# ordered basis candidates by hash values that
 depend on earlier experiments

---
 aalpy/learning_algs/deterministic/ObservationTree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index 55fbe10..d260927 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -299,10 +299,10 @@ class ObservationTree:
                     self.frontier_to_basis_dict[new_frontier] = basis_candidates
 
     def find_basis_candidates(self, new_frontier):
-        return {
+        return [
             new_basis_state for new_basis_state in self.basis
             if not Apartness.states_are_apart(new_basis_state, new_frontier, self)
-        }
+        ]
 
     def explore_frontier(self, basis_state, inp):
         # Explores a specific frontier state (basis state + input) by passing a query to the SUL
-- 
2.43.0


From 77bf6dfa9cd3dab208f08c460dbf95351d4d429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 74/97] fix: SEVPA word generation finds words that pop in
 states reached by return transitions

---
 aalpy/automata/Sevpa.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index d5901d8..3e588f5 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -362,8 +362,8 @@ class Sevpa(Automaton):
         """
         Returns a dict of states that are allowed to push a call letters on the stack.
 
-        For all states that are connected via internal transitions from the initial state on, the state_id and
-        call_letter of the stack_guard from every return transition is used.
+        For all states that are connected via internal and return transitions from the initial state on, the state_id
+        and call_letter of the stack_guard from every return transition is used.
 
         States are not allowed to push something somthing on the stack if there is no possibility to pop the
         stack guard, where their state_id is used, from the stack, which would lead into a dead-end otherwise.
@@ -372,16 +372,16 @@ class Sevpa(Automaton):
         - dict: A dictionary where keys are the call_letters and values are sets of the allowed states.
         """
 
-        # get all states that are connected via internal transitions by using BFS
+        # get all states that are connected via internal or return transitions by using BFS
         connected_states = set()
         queue = deque([self.initial_state])
         while queue:
             current_state = queue.popleft()
             connected_states.add(current_state)
 
-            for internal_letter in self.input_alphabet.internal_alphabet:
-                for internal_trans in current_state.transitions[internal_letter]:
-                    target_state = internal_trans.target_state
+            for letter in self.input_alphabet.internal_alphabet + self.input_alphabet.return_alphabet:
+                for trans in current_state.transitions[letter]:
+                    target_state = trans.target_state
                     if target_state not in connected_states:
                         queue.append(target_state)
 
-- 
2.43.0


From 213e8ece4e38d14324a60954da8d0dfc5e873f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 75/97] fix: random accepting word of a SEVPA ends in accepting
 states without return transitions

---
 aalpy/automata/Sevpa.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aalpy/automata/Sevpa.py b/aalpy/automata/Sevpa.py
index 3e588f5..7649672 100644
--- a/aalpy/automata/Sevpa.py
+++ b/aalpy/automata/Sevpa.py
@@ -486,11 +486,12 @@ class Sevpa(Automaton):
 
             # find the sub-word for the needed stack guard beginning from the initial state
             # the new word will be: letter_prefix + word + letter
-            if is_return_letter:
+            if is_return_letter and len(self.current_state.transitions[letter_for_word]) == 0:
+                # no return transition to take, but the word found so far might already be accepted
+                pass
+            elif is_return_letter:
                 # randomly select one of the return transitions with the respective return symbol
-                if len(self.current_state.transitions[letter_for_word]) == 0:
-                    continue
-                elif len(self.current_state.transitions[letter_for_word]) == 1:
+                if len(self.current_state.transitions[letter_for_word]) == 1:
                     random_stack_guard = self.current_state.transitions[letter_for_word][0].stack_guard
                 else:
                     random_stack_guard_index = random.randint(0,
-- 
2.43.0


From e1f0c2faeb18f911d3c5b2326566f49dfbb6308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 76/97] fix: adaptive L# computes prefixes of references from
 their initial state

---
 aalpy/learning_algs/adaptive/AdaptiveObservationTree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index a599014..cea109b 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -503,7 +503,8 @@ class AdaptiveObservationTree(ObservationTree):
             states = self.add_ref_transitions_to_states(reference, reference_id)
             all_states += states
 
-            self.compute_prefix_map(automaton_class[self.automaton_type](states[0], states), reference_id)
+            initial_state = states[reference.states.index(reference.initial_state)]
+            self.compute_prefix_map(automaton_class[self.automaton_type](initial_state, states), reference_id)
             self.compute_characterization_map(reference, states)
 
         if all_states == []:
-- 
2.43.0


From 0d4ef60d229780465a18560c6a212fa36cbf9b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 77/97] fix: adaptive L# promotes all isolated states while
 rebuilding

---
 .../adaptive/AdaptiveObservationTree.py       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
index cea109b..21d6bff 100644
--- a/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
+++ b/aalpy/learning_algs/adaptive/AdaptiveObservationTree.py
@@ -355,17 +355,22 @@ class AdaptiveObservationTree(ObservationTree):
 
     def prioritized_promotion(self):
         """
-        Promotes an isolated frontier state with an access sequence in the prefix set of one of the references
+        Promotes isolated frontier states with an access sequence in the prefix set of one of the references
+        until there are none left
         """
-        for reference_id in range(0, len(self.references)):
-            for reference_prefix in self.prefixes_map[reference_id]:
-                ob_tree_state = self.get_successor(reference_prefix)
-                if not ob_tree_state:
-                    continue
-                basis_parent = ob_tree_state.parent
-                if (basis_parent in self.new_basis) and (ob_tree_state not in self.new_basis) and self.apart_from_all(ob_tree_state):
-                    self.new_basis.append(ob_tree_state)
-                    self.rebuild_states += 1
+        promoted = True
+        while promoted:
+            promoted = False
+            for reference_id in range(0, len(self.references)):
+                for reference_prefix in self.prefixes_map[reference_id]:
+                    ob_tree_state = self.get_successor(reference_prefix)
+                    if not ob_tree_state:
+                        continue
+                    basis_parent = ob_tree_state.parent
+                    if (basis_parent in self.new_basis) and (ob_tree_state not in self.new_basis) and self.apart_from_all(ob_tree_state):
+                        self.new_basis.append(ob_tree_state)
+                        self.rebuild_states += 1
+                        promoted = True
 
     def find_frontier_new_basis(self):
         """ 
-- 
2.43.0


From 8e27624e6ca2f6e86d53750498be24ab3fae94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 78/97] fix: probabilities of the bundled gridworld add up to
 one

---
 aalpy/utils/BenchmarkSULs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 6a812b8..974d635 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -259,7 +259,7 @@ def get_small_gridworld():
     s2.transitions['east'].append((s3, 'grass', p_g))
     s2.transitions['east'].append((s1, 'mud', 1 - p_g))
     s2.transitions['north'].append((s0, 'grass', p_g))
-    s2.transitions['south'].append((s1, 'mud', 1 - p_g))
+    s2.transitions['north'].append((s1, 'mud', 1 - p_g))
 
     s3.transitions['south'].append((s3, 'wall', 1.))
     s3.transitions['east'].append((s3, 'wall', 1.))
-- 
2.43.0


From fcc6acc48b89428eb5d1e4167a3338006054767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 79/97] fix: DateValidator rejects months other than 1 to 12
 and the 31st of months with 30 days

---
 aalpy/utils/BenchmarkSULs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aalpy/utils/BenchmarkSULs.py b/aalpy/utils/BenchmarkSULs.py
index 974d635..36c4e14 100644
--- a/aalpy/utils/BenchmarkSULs.py
+++ b/aalpy/utils/BenchmarkSULs.py
@@ -346,13 +346,16 @@ class DateValidator:
         if not (0 <= year <= 9999):
             return False
 
+        if not (1 <= month <= 12):
+            return False
+
         if month == 2 and not (1 <= day <= 28):
             return False
 
         if month in [1, 3, 5, 7, 8, 10, 12] and not (1 <= day <= 31):
             return False
 
-        elif not (1 <= day <= 31):
+        elif month in [4, 6, 9, 11] and not (1 <= day <= 30):
             return False
 
         return True
-- 
2.43.0


From 5fb6261c51ba8ff3b73aef3787d3b0ccfdf14063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 80/97] fix: stepping an undefined input changed the alphabet
 of non-deterministic and stochastic automata

---
 aalpy/automata/Mdp.py                          | 4 ++--
 aalpy/automata/NonDeterministicMooreMachine.py | 2 +-
 aalpy/automata/Onfsm.py                        | 4 ++--
 aalpy/automata/StochasticMealyMachine.py       | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aalpy/automata/Mdp.py b/aalpy/automata/Mdp.py
index 13a487a..9ae25d7 100644
--- a/aalpy/automata/Mdp.py
+++ b/aalpy/automata/Mdp.py
@@ -40,8 +40,8 @@ class Mdp(Automaton[MdpState[InputType, OutputType]]):
         if letter is None:
             return self.current_state.output
 
-        probability_distributions = [i[1] for i in self.current_state.transitions[letter]]
-        states = [i[0] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[1] for i in self.current_state.transitions.get(letter, ())]
+        states = [i[0] for i in self.current_state.transitions.get(letter, ())]
 
         new_state = random.choices(states, probability_distributions, k=1)[0]
 
diff --git a/aalpy/automata/NonDeterministicMooreMachine.py b/aalpy/automata/NonDeterministicMooreMachine.py
index 9be9810..7add37c 100644
--- a/aalpy/automata/NonDeterministicMooreMachine.py
+++ b/aalpy/automata/NonDeterministicMooreMachine.py
@@ -64,6 +64,6 @@ class NDMooreMachine(Automaton[NDMooreState[InputType, OutputType]]):
 
         """
         if letter is not None:
-            options = self.current_state.transitions[letter]
+            options = self.current_state.transitions.get(letter, ())
             self.current_state = random.choice(options)
         return self.current_state.output
diff --git a/aalpy/automata/Onfsm.py b/aalpy/automata/Onfsm.py
index b47b694..14f8805 100644
--- a/aalpy/automata/Onfsm.py
+++ b/aalpy/automata/Onfsm.py
@@ -37,7 +37,7 @@ class OnfsmState(AutomatonState, Generic[InputType, OutputType]):
         Returns:
 
         """
-        possible_transitions = self.transitions[input]
+        possible_transitions = self.transitions.get(input, [])
         if output is not None:
             return next((t for t in possible_transitions if t[0] == output), None)
         else:
@@ -63,7 +63,7 @@ class Onfsm(Automaton[OnfsmState[InputType, OutputType]]):
             output of the probabilistically chosen transition
 
         """
-        transition = choice(self.current_state.transitions[letter])
+        transition = choice(self.current_state.transitions.get(letter, ()))
         output = transition[0]
         self.current_state = transition[1]
         return output
diff --git a/aalpy/automata/StochasticMealyMachine.py b/aalpy/automata/StochasticMealyMachine.py
index 706cdeb..482018e 100644
--- a/aalpy/automata/StochasticMealyMachine.py
+++ b/aalpy/automata/StochasticMealyMachine.py
@@ -36,7 +36,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
            output of the current state
         """
         prob = random.random()
-        probability_distributions = [i[2] for i in self.current_state.transitions[letter]]
+        probability_distributions = [i[2] for i in self.current_state.transitions.get(letter, ())]
         index = 0
         for i, p in enumerate(probability_distributions):
             prob -= p
@@ -44,7 +44,7 @@ class StochasticMealyMachine(Automaton[StochasticMealyState[InputType, OutputTyp
                 index = i
                 break
 
-        transition = self.current_state.transitions[letter][index]
+        transition = self.current_state.transitions.get(letter, ())[index]
         self.current_state = transition[0]
         return transition[1]
 
-- 
2.43.0


From c8ee6732f6b0cd826e7a17359e2106e00264f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 81/97] fix: stochastic L* reset the system while the last
 interaction of the oracle was open

---
 aalpy/learning_algs/stochastic/StochasticTeacher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticTeacher.py b/aalpy/learning_algs/stochastic/StochasticTeacher.py
index 3070dcf..33bd752 100644
--- a/aalpy/learning_algs/stochastic/StochasticTeacher.py
+++ b/aalpy/learning_algs/stochastic/StochasticTeacher.py
@@ -377,6 +377,9 @@ class StochasticTeacher:
         cex = self.eq_oracle.find_cex(hypothesis)
         if cex:  # remove last output
             cex = cex[:-1]
+        else:
+            # oracles leave their last interaction open if they do not find a counterexample
+            self.sul.post()
         self.last_cex = cex
         return cex
 
-- 
2.43.0


From 186ba266de950059008305ee18aae9d8abc571d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 82/97] fix: counterexample processing of stochastic L* left
 interactions open and its steps were not counted

---
 aalpy/learning_algs/stochastic/StochasticCexProcessing.py | 3 ++-
 aalpy/learning_algs/stochastic/StochasticLStar.py         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
index d115a49..9e43e70 100644
--- a/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
+++ b/aalpy/learning_algs/stochastic/StochasticCexProcessing.py
@@ -89,7 +89,6 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
         prefix_reached = False
         while not prefix_reached:
             hypothesis.reset_to_initial()
-            sul.post()
             sul.pre()
 
             repeat = False
@@ -99,6 +98,7 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
 
                 if o_hyp is None:
                     repeat = True
+                    sul.post()
                     break
 
             prefix_reached = not repeat
@@ -111,6 +111,7 @@ def stochastic_rs(sul: SUL, cex: tuple, hypothesis):
             if o_hyp is None:
                 not_same = True
                 break
+        sul.post()
 
         if not not_same:
             lower = mid + 1
diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 0d21ab8..6653b1d 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -167,7 +167,7 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
                     prefixes = observation_table.S + list(observation_table.get_extended_s())
                     suffixes = stochastic_longest_prefix(cex, prefixes)[-1:]
                 elif cex_processing == 'rs':
-                    suffixes = stochastic_rs(sul, cex, hypothesis)
+                    suffixes = stochastic_rs(stochastic_teacher.sul, cex, hypothesis)
                 for suf in suffixes:
                     if suf not in observation_table.E:
                         observation_table.E.append(suf)
-- 
2.43.0


From c368bc15e8a3aa34323cdfde5e0e27767b6aef98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:50 +0000
Subject: [PATCH 83/97] fix: linear counterexample processing failed on systems
 with the output None

---
 aalpy/learning_algs/deterministic/CounterExampleProcessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
index 5503946..5658a79 100644
--- a/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
+++ b/aalpy/learning_algs/deterministic/CounterExampleProcessing.py
@@ -135,7 +135,7 @@ def linear_cex_processing(sul: SUL, cex: tuple, hypothesis, suffix_closedness=Tr
 
         sul_out = sul.query(s_bracket + suffix)[-1]
 
-        if previous_output is None:
+        if i == 0:
             previous_output = sul_out
             continue
 
-- 
2.43.0


From 04ac7a4ff762ca65979e34d071ae91fbf3893429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:05 +0000
Subject: [PATCH 84/97] fix: L# failed on systems with the output None

---
 aalpy/learning_algs/deterministic/ADS.py       | 18 ++++++++++--------
 aalpy/learning_algs/deterministic/Apartness.py |  4 ++--
 .../deterministic/ObservationTree.py           |  6 +++---
 3 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ADS.py b/aalpy/learning_algs/deterministic/ADS.py
index 20eada3..cfa1282 100644
--- a/aalpy/learning_algs/deterministic/ADS.py
+++ b/aalpy/learning_algs/deterministic/ADS.py
@@ -29,6 +29,7 @@ class Ads:
     def __init__(self, ob_tree, current_block):
         self.initial_node = self.construct_ads(ob_tree, current_block)
         self.current_node = self.initial_node
+        self.started = False
 
     def get_score(self):
         return self.initial_node.get_score()
@@ -129,25 +130,25 @@ class Ads:
         for node in block:
             if automaton_type == 'mealy':
                 output = node.get_output(input_val)
-                if output is not None:
-                    successor = node.get_successor(input_val)
-                    if successor is not None:
-                        partition[output].append(successor)
+                successor = node.get_successor(input_val)
+                if successor is not None:
+                    partition[output].append(successor)
             else:
                 successor = node.get_successor(input_val)
                 if successor is not None:
-                    output = successor.output 
-                    if output is not None:
-                        partition[output].append(successor)
+                    output = successor.output
+                    partition[output].append(successor)
         return partition
 
     def next_input(self, prev_output):
         # Returns the next input based on the previous output and updates the current node
-        if prev_output is not None:
+        # the first call returns the input of the root
+        if self.started:
             child = self.current_node.get_child_node(prev_output)
             if child is None:
                 return None
             self.current_node = child
+        self.started = True
         return self.current_node.get_input()
 
     def maximal_base_input(self, alphabet, block, automaton_type):
@@ -174,4 +175,5 @@ class Ads:
 
     def reset_to_root(self):
         # Resets the current ADS node to the initial root node
+        self.started = False
         self.current_node = self.initial_node
\ No newline at end of file
diff --git a/aalpy/learning_algs/deterministic/Apartness.py b/aalpy/learning_algs/deterministic/Apartness.py
index 7d5adf0..1df31ea 100644
--- a/aalpy/learning_algs/deterministic/Apartness.py
+++ b/aalpy/learning_algs/deterministic/Apartness.py
@@ -34,7 +34,7 @@ class Apartness:
                 first_output = first_node.get_output(input_val)
                 second_output = second_node.get_output(input_val)
 
-                if first_output is not None and second_output is not None:
+                if input_val in first_node.successors and input_val in second_node.successors:
                     if first_output != second_output:
                         return first_node.get_successor(input_val)
 
@@ -85,7 +85,7 @@ class Apartness:
             for input_val in ob_tree.alphabet:
                 tree_output = tree_state.get_output(input_val)
 
-                if tree_output is not None and input_val in hyp_state.output_fun:
+                if input_val in tree_state.successors and input_val in hyp_state.output_fun:
                     hyp_output = hyp_state.output_fun[input_val]
                     if tree_output != hyp_output:
                         tree_dest = tree_state.get_successor(input_val)
diff --git a/aalpy/learning_algs/deterministic/ObservationTree.py b/aalpy/learning_algs/deterministic/ObservationTree.py
index d260927..2c26965 100644
--- a/aalpy/learning_algs/deterministic/ObservationTree.py
+++ b/aalpy/learning_algs/deterministic/ObservationTree.py
@@ -141,8 +141,8 @@ class ObservationTree:
                 current_node = current_node.get_successor(input_val)
             else:
                 current_node = current_node.get_successor(input_val)
-                output = current_node.output
-            if output is None:
+                output = current_node.output if current_node else None
+            if current_node is None:
                 return None
             observation.append(output)
         return observation
@@ -280,7 +280,7 @@ class ObservationTree:
         for basis_state in self.basis:
             for inp in self.alphabet:
                 if self.automaton_type == 'mealy':
-                    if basis_state.get_output(inp) is None:
+                    if basis_state.get_successor(inp) is None:
                         return False
                 else:
                     if basis_state.get_successor(inp) is None:
-- 
2.43.0


From abb4525a92163ab04fd86158957600f70034ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 85/97] fix: abstracted ONFSM table was no longer closed after
 it was cleaned (KeyError)

---
 .../non_deterministic/AbstractedOnfsmLstar.py            | 6 +++++-
 .../non_deterministic/AbstractedOnfsmObservationTable.py | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
index af54aa5..50ab8cc 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmLstar.py
@@ -93,7 +93,11 @@ def run_abstracted_ONFSM_Lstar(alphabet: list, sul: SUL, eq_oracle: Oracle, abst
                 abstracted_observation_table.update_obs_table(e_set=extended_col)
                 e_column_for_consistency = abstracted_observation_table.get_row_to_make_consistent()
 
-        abstracted_observation_table.clean_tables()
+            if closed_complete_consistent:
+                # cleaning samples new rows and removes others, the table might no longer be closed
+                abstracted_observation_table.clean_tables()
+                closed_complete_consistent = abstracted_observation_table.is_closed()
+
         hypothesis = abstracted_observation_table.gen_hypothesis()
 
         if print_level == 3:
diff --git a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
index 915a959..caf704b 100644
--- a/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
+++ b/aalpy/learning_algs/non_deterministic/AbstractedOnfsmObservationTable.py
@@ -136,6 +136,15 @@ class AbstractedNonDetObservationTable:
 
         return None
 
+    def is_closed(self):
+        """
+        Returns:
+
+            True if every row of S.A equals a row of S
+        """
+        s_rows = {self.row_to_hashable(s) for s in self.S}
+        return all(self.row_to_hashable(t) in s_rows for t in self.S_dot_A)
+
     def get_row_to_complete(self):
         """
         Get row for that needs to be completed.
-- 
2.43.0


From fd5d988aaff5947d06bbca76258c9608ff631077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 86/97] fix: PAPNI took call and internal letters that are
 tuples for pairs of return letter and stack top

---
 aalpy/automata/Vpa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aalpy/automata/Vpa.py b/aalpy/automata/Vpa.py
index f720ce0..b7addbe 100644
--- a/aalpy/automata/Vpa.py
+++ b/aalpy/automata/Vpa.py
@@ -320,7 +320,9 @@ def vpa_from_dfa_representation(dfa_repr, vpa_alphabet):
             reached_state = vpa_states[reached_dfa_state.state_id]
 
             top_of_stack = None
-            if isinstance(input_symbol, tuple):
+            # return letters are paired with the top of the stack, call and internal letters might be tuples themselves
+            if isinstance(input_symbol, tuple) and input_symbol not in vpa_alphabet.call_alphabet \
+                    and input_symbol not in vpa_alphabet.internal_alphabet:
                 input_symbol, top_of_stack = input_symbol[0], input_symbol[1]
 
             if input_symbol in vpa_alphabet.return_alphabet:
-- 
2.43.0


From df8c9d41897962104196267797abe6b32b3b2d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 87/97] fix: stochastic L* with property based stopping ignored
 max_rounds and could run forever

---
 aalpy/learning_algs/stochastic/StochasticLStar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aalpy/learning_algs/stochastic/StochasticLStar.py b/aalpy/learning_algs/stochastic/StochasticLStar.py
index 6653b1d..acdc622 100644
--- a/aalpy/learning_algs/stochastic/StochasticLStar.py
+++ b/aalpy/learning_algs/stochastic/StochasticLStar.py
@@ -181,6 +181,8 @@ def run_stochastic_Lstar(input_alphabet, sul: SUL, eq_oracle: Oracle, target_una
             # stop based on maximum allowed error
             if stop_based_on_confidence(hypothesis, property_based_stopping, print_level):
                 break
+            if max_rounds and learning_rounds >= max_rounds:
+                break
         else:
             # stop based on number of unambiguous rows
             stop_based_on_unambiguity = observation_table.stop(learning_rounds, chaos_cex_present, cex,
-- 
2.43.0


From f96ea70b93ec0ca2a8e7f8d786cdccbcdddc9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 88/97] fix: MergeViolationDebugger crashed on promoted states
 that do not exist in the ground truth

---
 aalpy/learning_algs/general_passive/Instrumentation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aalpy/learning_algs/general_passive/Instrumentation.py b/aalpy/learning_algs/general_passive/Instrumentation.py
index f39b72d..947f710 100644
--- a/aalpy/learning_algs/general_passive/Instrumentation.py
+++ b/aalpy/learning_algs/general_passive/Instrumentation.py
@@ -83,6 +83,10 @@ class MergeViolationDebugger(Instrumentation):
     def log_promote(self, new_red: GsmNode):
         new_red_prefix = new_red.get_prefix()
         node = self.root.get_by_prefix(new_red_prefix)
+        if node is None:
+            # after an erroneous merge, the prefix need not exist in the ground truth
+            self.log.append(("broken promote", new_red_prefix))
+            return
         old_red = self.map.get(node)
         if old_red is None:
             self.map[node] = new_red
-- 
2.43.0


From 2c6c7b97c29eace2ad1c619a57e964d907d22db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 89/97] fix: KV with print level 3 crashed on outputs whose
 text is no DOT identifier

---
 aalpy/utils/HelperFunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 8008a80..3e462ea 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -323,7 +323,7 @@ def visualize_classification_tree(root_node):
                                        label=f'Distinguishing String:\n{child.distinguishing_string}')
                 queue.append((child, destination_dot))
             graph.add_node(destination_dot)
-            graph.add_edge(Edge(origin_node_dot, destination_dot, label=key))
+            graph.add_edge(Edge(origin_node_dot, destination_dot, label=str(key)))
 
     # print(graph.to_string())
     graph.write(path='classification_tree.pdf', format='pdf')
-- 
2.43.0


From 713e34a4ddb832b8e7d0c83fd7fd8f47e76eb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 90/97] fix: an MDP without transitions can be converted to a
 Markov chain

---
 aalpy/utils/HelperFunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aalpy/utils/HelperFunctions.py b/aalpy/utils/HelperFunctions.py
index 3e462ea..b3d96c1 100644
--- a/aalpy/utils/HelperFunctions.py
+++ b/aalpy/utils/HelperFunctions.py
@@ -434,9 +434,11 @@ def dfa_from_moore(moore_model: MooreMachine) -> Dfa:
 
 def mc_from_mdp(mdp: Mdp, input_symbol=None) -> MarkovChain:
     alphabet = mdp.get_input_alphabet()
-    if len(alphabet) != 1 and input_symbol is None:
+    if len(alphabet) > 1 and input_symbol is None:
         raise ValueError('Cannot convert MDP with several inputs to Markov chain.')
-    input_symbol = input_symbol if input_symbol is not None else alphabet[0]
+    # an MDP without transitions has no inputs
+    if input_symbol is None and alphabet:
+        input_symbol = alphabet[0]
 
     state_map = {state.state_id: McState(state.state_id, state.output) for state in mdp.states}
     for state in mdp.states:
-- 
2.43.0


From 1fe89192259a7830b8ced443ea047dedebef9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 91/97] =?UTF-8?q?fix:=20models=20with=20a=20letter=20or=20?=
 =?UTF-8?q?output=20like=20'=C2=B2'=20(a=20digit,=20but=20no=20number)=20c?=
 =?UTF-8?q?ould=20not=20be=20loaded?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aalpy/utils/FileHandler.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/aalpy/utils/FileHandler.py b/aalpy/utils/FileHandler.py
index 9d9169f..631afd0 100644
--- a/aalpy/utils/FileHandler.py
+++ b/aalpy/utils/FileHandler.py
@@ -226,38 +226,38 @@ vpa_pop_pattern = r"(\S+)\s*/\s*pop\(\s*(.*?)\s*\)"
 
 def _process_label(label, source, destination, automaton_type):
     if automaton_type == 'dfa' or automaton_type == 'moore':
-        source.transitions[int(label) if label.isdigit() else label] = destination
+        source.transitions[int(label) if label.isdecimal() else label] = destination
     if automaton_type == 'mealy':
         inp, out = label.split('/', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = int(inp) if inp.isdecimal() else inp
+        out = int(out) if out.isdecimal() else out
         source.transitions[inp] = destination
         source.output_fun[inp] = out
     if automaton_type == 'onfsm':
         inp, out = label.split('/', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = int(inp) if inp.isdecimal() else inp
+        out = int(out) if out.isdecimal() else out
         source.transitions[inp].append((out, destination))
     if automaton_type == 'ndmoore':
-        source.transitions[int(label) if label.isdigit() else label].append(destination)
+        source.transitions[int(label) if label.isdecimal() else label].append(destination)
     if automaton_type == 'mc':
         prob = label
         source.transitions.append((destination, float(prob)))
     if automaton_type == 'mdp':
         inp, prob = label.split(':', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
+        inp = int(inp) if inp.isdecimal() else inp
         prob = float(prob)
         source.transitions[inp].append((destination, prob))
     if automaton_type == 'smm':
         inp, out_prob = label.split('/', maxsplit=1)
         out, prob = out_prob.split(':', maxsplit=1)
-        inp = int(inp) if inp.isdigit() else inp
-        out = int(out) if out.isdigit() else out
+        inp = int(inp) if inp.isdecimal() else inp
+        out = int(out) if out.isdecimal() else out
         source.transitions[inp].append((destination, out, float(prob)))
     if automaton_type == 'sevpa':
         match = re.match(sevpa_transition_pattern, label)
         # cast to integer
-        label = int(label) if label.isdigit() else label
+        label = int(label) if label.isdecimal() else label
         if match:
             ret, stack_guard, top_of_stack = match.groups()
             return_transition = SevpaTransition(destination, ret, 'pop', (stack_guard, top_of_stack))
@@ -279,9 +279,9 @@ def _process_label(label, source, destination, automaton_type):
         else:
             input_symbol = label
 
-        input_symbol = int(input_symbol) if input_symbol.isdigit() else input_symbol
+        input_symbol = int(input_symbol) if input_symbol.isdecimal() else input_symbol
         if stack_symbol:
-            stack_symbol = int(stack_symbol) if stack_symbol.isdigit() else stack_symbol
+            stack_symbol = int(stack_symbol) if stack_symbol.isdecimal() else stack_symbol
 
         transition = VpaTransition(source, destination, input_symbol, action, stack_symbol)
 
@@ -296,7 +296,7 @@ def _process_node_label(node, label, node_label_dict, node_type, automaton_type)
         if automaton_type == 'moore' and label != "":
             label_output = _strip_label(label)
             label, output = label_output.split("|", maxsplit=1)
-            output = output.strip() if not output.isdigit() else int(output)
+            output = output.strip() if not output.isdecimal() else int(output)
             node_label_dict[node_name] = node_type(label, output)
         else:
             node_label_dict[node_name] = node_type(label)
@@ -326,7 +326,7 @@ def _process_node_label_prime(node_name, label, line, node_label_dict, node_type
             else:
                 label = node_name
                 output = label_output
-            output = output.strip() if not output.isdigit() else int(output)
+            output = output.strip() if not output.isdecimal() else int(output)
             node_label_dict[node_name] = node_type(label, output)
         else:
             node_label_dict[node_name] = node_type(label)
-- 
2.43.0


From 40e444d23cbc415cb43668af3064beeefd40a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 92/97] =?UTF-8?q?fix:=20data=20files=20with=20an=20element?=
 =?UTF-8?q?=20like=20'=C2=B2'=20(a=20digit,=20but=20no=20number)=20could?=
 =?UTF-8?q?=20not=20be=20read?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 aalpy/utils/DataHandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aalpy/utils/DataHandler.py b/aalpy/utils/DataHandler.py
index 0895505..88f420b 100644
--- a/aalpy/utils/DataHandler.py
+++ b/aalpy/utils/DataHandler.py
@@ -68,6 +68,6 @@ class IODelimiterTokenizer(DataHandler):
 
 
 def try_int(x):
-    if str.isdigit(x):
+    if str.isdecimal(x):
         return int(x)
     return x
-- 
2.43.0


From e789ad0eebc0c72f736a3ec6963b83cbc4d0f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:18 +0000
Subject: [PATCH 93/97] fix: Alergia failed on traces longer than the recursion
 limit

---
 .../stochastic_passive/Alergia.py             | 47 ++++++++++++-------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/aalpy/learning_algs/stochastic_passive/Alergia.py b/aalpy/learning_algs/stochastic_passive/Alergia.py
index 570c3ab..72a0e39 100644
--- a/aalpy/learning_algs/stochastic_passive/Alergia.py
+++ b/aalpy/learning_algs/stochastic_passive/Alergia.py
@@ -34,23 +34,27 @@ class Alergia:
 
     def compatibility_test(self, a, b):
 
-        # for MDPs and MC output of the state needs to be the same
-        if self.automaton_type != 'smm' and a.output != b.output:
-            return False
+        # pairs of states still to be compared, a stack as traces can be longer than the recursion limit
+        to_compare = [(a, b)]
+        while to_compare:
+            a, b = to_compare.pop()
 
-        # leaf nodes are merged
-        if not a.original_children.keys() or not b.original_children.keys():
-            return True
+            # for MDPs and MC output of the state needs to be the same
+            if self.automaton_type != 'smm' and a.output != b.output:
+                return False
 
-        # if states are statistically different, do not merge
-        if self.diff_checker.are_states_different(a, b):
-            return False
+            # leaf nodes are merged
+            if not a.original_children.keys() or not b.original_children.keys():
+                continue
 
-        # check future for compatibility
-        for el in set(a.original_children.keys()).intersection(b.original_children.keys()):
-            if not self.compatibility_test(a.original_children[el], b.original_children[el]):
+            # if states are statistically different, do not merge
+            if self.diff_checker.are_states_different(a, b):
                 return False
 
+            # check future for compatibility
+            for el in set(a.original_children.keys()).intersection(b.original_children.keys()):
+                to_compare.append((a.original_children[el], b.original_children[el]))
+
         return True
 
     def merge(self, red_state, blue_state):
@@ -64,13 +68,20 @@ class Alergia:
         self.fold(red_state, blue_state)
 
     def fold(self, red, blue):
-        for i, blue_child in blue.children.items():
-            if i in red.children:
-                red.input_frequency[i] += blue.input_frequency[i]
-                self.fold(red.children[i], blue_child)
+        # depth first with an explicit stack, as traces can be longer than the recursion limit
+        stack = [(red, blue, iter(blue.children.items()))]
+        while stack:
+            red, blue, children = stack[-1]
+            for i, blue_child in children:
+                if i in red.children:
+                    red.input_frequency[i] += blue.input_frequency[i]
+                    stack.append((red.children[i], blue_child, iter(blue_child.children.items())))
+                    break
+                else:
+                    red.children[i] = blue_child
+                    red.input_frequency[i] = blue.input_frequency[i]
             else:
-                red.children[i] = blue.children[i]
-                red.input_frequency[i] = blue.input_frequency[i]
+                stack.pop()
 
     def run(self):
         start_time = time.time()
-- 
2.43.0


From ce52be5ad4b30b5de4234a7e56ab64d7a74c5fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 94/97] fix: classic RPNI failed on sequences longer than the
 recursion limit

---
 .../deterministic_passive/ClassicRPNI.py      | 24 ++++++++++++++-----
 .../rpni_helper_functions.py                  | 23 +++++++++++++-----
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
index a82d9de..9c280e1 100644
--- a/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
+++ b/aalpy/learning_algs/deterministic_passive/ClassicRPNI.py
@@ -94,15 +94,27 @@ class ClassicRPNI:
         return root_node
 
     def _fold(self, red_node, blue_node):
+        self._fold_output(red_node, blue_node)
+
+        # depth first with an explicit stack, as sequences can be longer than the recursion limit
+        stack = [(red_node, blue_node, iter(blue_node.children.keys()))]
+        while stack:
+            red_node, blue_node, symbols = stack[-1]
+            for i in symbols:
+                if i in red_node.children.keys():
+                    red_child, blue_child = red_node.children[i], blue_node.children[i]
+                    self._fold_output(red_child, blue_child)
+                    stack.append((red_child, blue_child, iter(blue_child.children.keys())))
+                    break
+                else:
+                    red_node.children[i] = blue_node.children[i]
+            else:
+                stack.pop()
+
+    def _fold_output(self, red_node, blue_node):
         # Change the output of red only to concrete output, ignore None
         if self.automaton_type == 'mealy':
             red_node.output.update((i, o) for i, o in blue_node.output.items() if o is not None)
         else:
             red_node.output = blue_node.output if blue_node.output is not None else red_node.output
 
-        for i in blue_node.children.keys():
-            if i in red_node.children.keys():
-                self._fold(red_node.children[i], blue_node.children[i])
-            else:
-                red_node.children[i] = blue_node.children[i]
-
diff --git a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
index a5ec2c6..f14cf75 100644
--- a/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
+++ b/aalpy/learning_algs/deterministic_passive/rpni_helper_functions.py
@@ -1,4 +1,3 @@
-import pickle
 from functools import total_ordering
 
 
@@ -21,7 +20,19 @@ class RpniNode:
         return RpniNode(output, dict(self.children), self.type)
 
     def copy(self):
-        return pickle.loads(pickle.dumps(self, -1))
+        # not recursive, as sequences can be longer than the recursion limit
+        copies = {id(self): self.shallow_copy()}
+        to_copy = [self]
+        while to_copy:
+            node = to_copy.pop()
+            node_copy = copies[id(node)]
+            node_copy.prefix = node.prefix
+            for symbol, child in node.children.items():
+                if id(child) not in copies:
+                    copies[id(child)] = child.shallow_copy()
+                    to_copy.append(child)
+                node_copy.children[symbol] = copies[id(child)]
+        return copies[id(self)]
 
     def __lt__(self, other):
         return len(self.prefix) < len(other.prefix)
@@ -103,14 +114,14 @@ def extract_unique_sequences(root_node):
     def get_leaf_nodes(root):
         leaves = []
 
-        def _get_leaf_nodes(node):
+        to_visit = [root]
+        while to_visit:
+            node = to_visit.pop()
             if node is not None:
                 if len(node.children.keys()) == 0:
                     leaves.append(node)
-                for n in node.children.values():
-                    _get_leaf_nodes(n)
+                to_visit.extend(reversed(list(node.children.values())))
 
-        _get_leaf_nodes(root)
         return leaves
 
     leaf_nodes = get_leaf_nodes(root_node)
-- 
2.43.0


From 34c9b8e64a78b6ca73b737a11aac37410db25858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:37 +0000
Subject: [PATCH 95/97] fix: adaptive L# failed on counterexamples longer than
 the recursion limit

---
 aalpy/learning_algs/adaptive/StateMatching.py | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/aalpy/learning_algs/adaptive/StateMatching.py b/aalpy/learning_algs/adaptive/StateMatching.py
index f9e40e6..7362ea0 100644
--- a/aalpy/learning_algs/adaptive/StateMatching.py
+++ b/aalpy/learning_algs/adaptive/StateMatching.py
@@ -97,19 +97,15 @@ class StateMatching:
     def find_longest_words(self, current_state, ob_tree, all_seqs):
         """ 
         Finds prefix closed words in the observation tree starting from the current state
-        DFS-like procedure
+        DFS-like procedure, not recursive as the tree can be deeper than the recursion limit
         """
-        leaf = True
-        for inp in self.alphabet:
-            if inp in current_state.successors:
-                new_seqs = self.find_longest_words(
-                    current_state.get_successor(inp), ob_tree, all_seqs)
-                for new_seq in new_seqs:
-                    if new_seq not in all_seqs:
-                        all_seqs.add(new_seq)
-                leaf = False
-        if leaf:
-            all_seqs.append(ob_tree.get_access_sequence(current_state))
+        to_visit = [current_state]
+        while to_visit:
+            state = to_visit.pop()
+            successors = [state.get_successor(inp) for inp in self.alphabet if inp in state.successors]
+            if not successors:
+                all_seqs.append(ob_tree.get_access_sequence(state))
+            to_visit.extend(reversed(successors))
         return all_seqs
 
     def validate_reference_input(self, inputs, reference_state):
-- 
2.43.0


From 07ae715694265a3741d860d3c64ff0e2409f2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 96/97] fix: CacheBasedEqOracle failed after words longer than
 the recursion limit

---
 aalpy/oracles/CacheBasedEqOracle.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/aalpy/oracles/CacheBasedEqOracle.py b/aalpy/oracles/CacheBasedEqOracle.py
index ce3d229..8ddaf36 100644
--- a/aalpy/oracles/CacheBasedEqOracle.py
+++ b/aalpy/oracles/CacheBasedEqOracle.py
@@ -79,12 +79,12 @@ class CacheBasedEqOracle(Oracle):
         """
         if paths is None:
             paths = []
-        if current_path is None:
-            current_path = []
-
-        if len(t.children) == 0:
-            paths.append(current_path)
-        else:
-            for inp, child in t.children.items():
-                self.get_paths(child, paths, current_path + [inp])
+
+        # not recursive as the tree can be deeper than the recursion limit
+        to_visit = [(t, current_path or [])]
+        while to_visit:
+            node, path = to_visit.pop()
+            if len(node.children) == 0:
+                paths.append(path)
+            to_visit.extend(reversed([(child, path + [inp]) for inp, child in node.children.items()]))
         return paths
-- 
2.43.0


From e361019eae1e0f0ff430e45a9b7706835bdee187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 97/97] fix: L# failed on counterexamples longer than the
 recursion limit

---
 aalpy/learning_algs/deterministic/ADS.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/aalpy/learning_algs/deterministic/ADS.py b/aalpy/learning_algs/deterministic/ADS.py
index cfa1282..5ef2290 100644
--- a/aalpy/learning_algs/deterministic/ADS.py
+++ b/aalpy/learning_algs/deterministic/ADS.py
@@ -61,7 +61,23 @@ class Ads:
             return AdsNode(input, children, score)
 
     def construct_ads_rec(self, ob_tree, current_block):
-        # Builds the ADS tree recursively by selecting optimal inputs for splitting states
+        # Builds the ADS tree depth first. The open constructions are kept on an explicit stack, as the states of a block
+        # can agree on sequences longer than the recursion limit
+        pending = [self.construct_ads_steps(ob_tree, current_block)]
+        subtree = None
+        while pending:
+            try:
+                partition = pending[-1].send(subtree)
+                pending.append(self.construct_ads_steps(ob_tree, partition))
+                subtree = None
+            except StopIteration as finished:
+                pending.pop()
+                subtree = finished.value
+        return subtree
+
+    def construct_ads_steps(self, ob_tree, current_block):
+        # Selects the optimal input for splitting the states of a block
+        # Yields the partitions whose subtrees are needed, is sent the subtrees and returns the resulting node
         if len(current_block) == 1:
             return AdsNode.create_leaf()
 
@@ -83,7 +99,8 @@ class Ads:
             children = {}
 
             for output, partition in input_partitions.items():
-                output_score, subtree = self.compute_output_subtree(ob_tree, partition, u_i) 
+                subtree = yield partition
+                output_score = self.compute_score(len(partition), u_i, subtree.get_score())
                 input_score += output_score
                 children[output] = subtree
 
-- 
2.43.0

