From 4a3e0ae3aa245c47719eaaf9638cd91eeeaeb5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 01/19] fix: VecTokenStream::next yields tokens instead of
 panicking on any non-empty stream

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From ae24cf0a6089f943c12eb051f39f4a9e0dc4d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 02/19] fix: compare dotted productions by position as well as
 production

Two dots in one production were the same map key, so the Earley parser
panicked or lost items on left-recursive and nullable-prefix rules.
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From 4548fd87126ea8f63e5c9e051ae7022cd621b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 03/19] fix: return None from the Earley parser when no item
 accepts a token

It panicked in close_state instead.
---
 src/parsers/earley.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..7b1e6c7 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -77,6 +77,10 @@ where
 
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
+    if new_state.is_empty() {
+      // No item accepts this token, so the input is not in the language.
+      return None;
+    }
 
     close_state(grammar, tree_handle, &states, &mut new_state);
 
-- 
2.43.0


From 1baeda4141fb00b1cd5c070712b245a38ff6d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 04/19] fix: report a failed pass again instead of a bogus
 recursive loop

The in-process marker stayed in the map when run_pass returned an error.
---
 src/grammar/passes/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..40b6100 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -109,9 +109,12 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
         let mut guard = self.passes.borrow_mut();
         guard.insert(pass_type, Rc::new(NoCurrentValue));
       }
-      let value = P::run_pass(self)?;
+      let result = P::run_pass(self);
       let mut guard = self.passes.borrow_mut();
-      guard.insert(pass_type, Rc::new(value));
+      // Drop the in-process marker, so that a failed pass isn't mistaken for a
+      // recursive one the next time it is requested.
+      guard.remove(&pass_type);
+      guard.insert(pass_type, Rc::new(result?));
     };
 
     let any_pass_ref = {
-- 
2.43.0


From 6cf3c14976a8242323b7850e5169f4ccb6f50617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 05/19] fix: advance the work list in apply_fixed_point

It looped forever on every non-empty map.
---
 src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..75c0291 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -372,7 +372,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
   let mut nexts = BTreeSet::new();
 
   while !currs.is_empty() {
@@ -395,5 +395,7 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+
+    currs = std::mem::take(&mut nexts);
   }
 }
-- 
2.43.0


From 332a9a92806e19f375e894187212904ad7eed034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 06/19] fix: include the initial items in breadth_first_search

A grammar whose start symbol occurs in no reachable production could be
rejected because its start symbol was "unreachable".
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 75c0291..0eda5c0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -160,7 +160,7 @@ where
 {
   let mut next_set = BTreeSet::new();
   let mut curr_set: BTreeSet<_> = initial.into_iter().collect();
-  let mut seen_set = next_set.clone();
+  let mut seen_set = curr_set.clone();
 
   while !curr_set.is_empty() {
     for next_item in &curr_set {
-- 
2.43.0


From 83572c3567b22639302c978d85b01341eef59c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 07/19] fix: report nonterminals without rules instead of
 panicking

Building a grammar that mentions an undefined nonterminal panicked in the
reachability check, and an undefined start symbol was never reported.
---
 src/grammar/base.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..ee19dea 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -422,8 +422,8 @@ where
   }
 
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
-    self
-      .get_nonterminals()
+    std::iter::once(&self.start_symbol)
+      .chain(self.get_nonterminals())
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +440,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From 77c360fc4bea2132404a324f82e3a046052f8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 08/19] fix: report unreachable rules whose head occurs in no
 production

Only nonterminals used in some production were checked, so a dead rule was
rejected if it mentioned its own head and accepted otherwise.
---
 src/grammar/base.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index ee19dea..562ade7 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -452,7 +452,9 @@ where
   fn unreachable_nonterms(&self) -> BTreeSet<&NT> {
     let reachable_nonterms = self.reachable_nonterms();
     self
-      .get_nonterminals()
+      .rule_set
+      .keys()
+      .chain(self.get_nonterminals())
       .filter(|nt| !reachable_nonterms.contains(nt))
       .collect()
   }
-- 
2.43.0


From 4a7fc7b2a6babde9f89b06296ff18df0dd5d32a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 09/19] fix: look through nullable elements in the follows pass

Terminals behind a nullable element were missing, as was propagation over a
nullable tail, and an element with no firsts made the pass panic.
---
 src/grammar/passes/follows.rs | 45 ++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..006a583 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -4,6 +4,7 @@ use crate::utils::{change_iter, change_loop, WasChanged};
 use crate::{grammar::Elem, utils::CollectMap};
 
 use super::firsts::{Firsts, FirstsError};
+use super::nullable::Nullable;
 use super::Pass;
 
 #[derive(thiserror::Error, Debug)]
@@ -28,6 +29,9 @@ where
     let gram = pass_map.grammar();
 
     let firsts = pass_map.get_pass::<Firsts<T, NT>>()?;
+    let nullables = pass_map
+      .get_pass::<Nullable<NT, AK>>()
+      .map_err(FirstsError::from)?;
 
     let mut follows = CollectMap::new();
 
@@ -35,20 +39,39 @@ where
       change_iter(gram.prods(), |prod| {
         let mut changed = WasChanged::Unchanged;
         let elems = prod.elements().collect::<Vec<_>>();
-        for elem_pair in elems.windows(2) {
-          if let Elem::NonTerm(first_nt) = elem_pair[0] {
-            match elem_pair[1] {
-              Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+        for (i, elem) in elems.iter().enumerate() {
+          let first_nt = match elem {
+            Elem::NonTerm(nt) => nt,
+            Elem::Term(_) => continue,
+          };
+
+          // Look through nullable elements to everything that can be next.
+          let mut rest_nullable = true;
+          for next_elem in &elems[i + 1..] {
+            match next_elem {
+              Elem::Term(t) => {
+                changed.merge(follows.insert(first_nt, t));
+                rest_nullable = false;
+              }
+              Elem::NonTerm(second_nt) => {
+                // A nonterminal that only derives the empty sequence may have
+                // no firsts.
+                changed.merge(follows.insert_iter(
+                  first_nt,
+                  firsts.get(second_nt).into_iter().flatten(),
+                ));
+                rest_nullable = nullables.is_nullable(second_nt);
+              }
+            }
+
+            if !rest_nullable {
+              break;
             }
           }
-        }
 
-        if let Some(Elem::NonTerm(last_nt)) = elems.last() {
-          changed.merge(follows.insert_from_key_set(last_nt, prod.head()));
+          if rest_nullable {
+            changed.merge(follows.insert_from_key_set(first_nt, prod.head()));
+          }
         }
 
         changed
-- 
2.43.0


From a6421601cd357dbe8ea1424394ffbab6a54778c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 10/19] fix: show the root node and its alternatives in to_dot

The rendered node itself was left out, with the edges to its alternatives.
---
 src/parsers/tree.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..5eb6e51 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -595,6 +595,7 @@ where
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
+  seen.insert(DotNode::Node(node.index));
   curr.insert(DotNode::Node(node.index));
 
   while !curr.is_empty() {
-- 
2.43.0


From 0af12403334bc5407f5ed01cb39ba7ce83eed9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 11/19] fix: never take the tree lock while holding it

Checking owners took the same read lock twice, which deadlocks if another
thread starts a write in between, and make_branch_alt ran the caller's
iterator under the lock, which deadlocks if that iterator creates nodes.
---
 src/parsers/tree.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 5eb6e51..2ceacbe 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,15 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The lock must not be held here: the iterator may use this tree itself.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +340,9 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    // Locking both handles here could deadlock with a waiting writer, as they
+    // are normally the same lock.
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From c5f68df5c216448861efcdb72d8a268706812231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 12/19] fix: keep the non-null variants of nullable productions

transform_to_nonnull dropped nullable productions altogether instead of only
their empty variant, contrary to the example in its own documentation, so it
lost parts of the language or failed.
---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..e468b28 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    // The production with nothing left is the null case, which is excluded.
+    if curr_build_state.elems.is_empty() {
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


From 34da3ad241050733a071f77ef95de497160055f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 13/19] fix: leave out nonterminals that only derive the empty
 sequence

transform_to_nonnull kept references to them although they have no non-null
production, so it failed on every grammar that has one.
---
 src/grammar/transform/nonnull.rs | 37 ++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index e468b28..f8de010 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -55,9 +55,11 @@ use {
       },
       Elem, Grammar, Prod, ProdElement, ProdKey, RuleBuilder,
     },
-    utils::{Name, ToDoc, TreeNode, Void},
+    utils::{
+      change_iter, change_loop, Name, ToDoc, TreeNode, Void, WasChanged,
+    },
   },
-  std::collections::BTreeMap,
+  std::collections::{BTreeMap, BTreeSet},
 };
 
 #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
@@ -119,11 +121,32 @@ where
   let pass_map = PassContext::new(g);
   let nullable = pass_map.get_pass::<Nullable<NT, AK>>()?;
 
+  // Nonterminals that derive nothing but the empty sequence have no non-null
+  // productions at all, so they are always left out.
+  let mut vanishing = BTreeSet::new();
+  change_loop(|| {
+    change_iter(g.rules(), |rule| {
+      let vanishes = rule.prods().flat_map(|p| p.elements()).all(|e| {
+        e.as_nonterm().map_or(false, |nt| vanishing.contains(nt))
+      });
+      WasChanged::from_changed(vanishes && vanishing.insert(rule.head()))
+    })
+  });
+
   build(g.start_nt().clone(), |g_builder| {
     for (nt, rule) in g.rule_set() {
+      if vanishing.contains(nt) {
+        continue;
+      }
+
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
+          build_nonnull_prods(
+            nullable.get_nullable_info(),
+            &vanishing,
+            &prod,
+            r_builder,
+          );
         }
       });
     }
@@ -140,6 +163,7 @@ struct ProdBuildState<T, NT, AK> {
 
 fn build_nonnull_prods<T, NT, AK, AV>(
   nullable_info: &GrammarNullableInfo<NT, AK>,
+  vanishing: &BTreeSet<&NT>,
   prod: &Prod<T, NT, AK, AV>,
   r_builder: &mut NonNullRuleBuilder<T, NT, AK, AV>,
 ) where
@@ -178,7 +202,12 @@ fn build_nonnull_prods<T, NT, AK, AV>(
               new_build_states.push(new_build_state);
             }
 
-            curr_build_states.append(&mut new_build_states);
+            if vanishing.contains(nt) {
+              // There is no non-null version.
+              curr_build_states = new_build_states;
+            } else {
+              curr_build_states.append(&mut new_build_states);
+            }
           }
           None => {
             for curr_build_state in &mut curr_build_states {
-- 
2.43.0


From f7426e01ed987c6c460f9d3df1742f66291f25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 14/19] fix: keep different splits of the input apart in Earley
 parse forests

Items that agree in production, dot and origin but differ in how the input is
split between their children were merged child by child. The forest then
mixed the splits (S => S S | a on "aaa" had trees for "aa" and "aaaa"), and
nodes of other ranges were modified through the shared children. Items now
keep their child lists apart, and all derivations of a nonterminal over one
range are alternatives of one node.
---
 src/parsers/earley.rs       | 10 ++++--
 src/parsers/earley/state.rs | 63 ++++++++++++++++++-------------------
 2 files changed, 38 insertions(+), 35 deletions(-)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index 7b1e6c7..4f01924 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -28,7 +28,7 @@ use {
     start_grammar::StartGrammar,
     utils::{change_iter, change_loop},
   },
-  state::EarleyStateSet,
+  state::{CompletedNodes, EarleyStateSet},
 };
 
 pub fn close_state<'a, T, NT, AK, AV, V>(
@@ -43,13 +43,19 @@ pub fn close_state<'a, T, NT, AK, AV, V>(
   V: Ord + Clone,
 {
   assert!(!new_state.is_empty());
+  let mut completed = CompletedNodes::new();
   change_loop(|| {
     let closure = new_state
       .states()
       .flat_map(|state| {
         std::iter::empty()
           .chain(state.predict(grammar, prev_states).into_iter())
-          .chain(state.complete(tree_handle, prev_states, new_state))
+          .chain(state.complete(
+            tree_handle,
+            prev_states,
+            new_state,
+            &mut completed,
+          ))
       })
       .collect::<Vec<_>>();
 
diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..761664d 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -15,10 +15,10 @@ use {
     },
     start_grammar::{StartGrammar, StreamTerminal},
     state::ProdState,
-    utils::{change_iter, WasChanged},
+    utils::WasChanged,
   },
   im::Vector,
-  std::collections::{btree_map, BTreeMap},
+  std::collections::{BTreeMap, BTreeSet},
 };
 
 #[derive(Derivative)]
@@ -54,6 +54,15 @@ where
   }
 }
 
+/// The nodes of the nonterminals that are completed in one state set, by
+/// nonterminal and origin index.
+///
+/// All derivations of a nonterminal over one range of the input are
+/// alternatives of a single node. This way, nodes of different ranges never
+/// share alternatives, and the same range is never represented twice.
+pub type CompletedNodes<'a, T, NT, AK, V> =
+  BTreeMap<(&'a StartNonTerminal<NT>, usize), Node<'a, T, AK, V>>;
+
 #[derive(Derivative)]
 #[derivative(
   Clone(bound = ""),
@@ -173,6 +182,7 @@ where
     tree_handle: &TreeHandle<'a, T, AK, V>,
     prev_states: &[EarleyStateSet<'a, T, NT, AK, AV, V>],
     curr_state: &EarleyStateSet<'a, T, NT, AK, AV, V>,
+    completed: &mut CompletedNodes<'a, T, NT, AK, V>,
   ) -> Vec<EarleyState<'a, T, NT, AK, AV, V>> {
     if self.prod_state().is_complete() {
       log::trace!("Completing prod state {:?}.", self.prod_state());
@@ -182,6 +192,14 @@ where
         &prev_states[self.key.origin_index]
       };
 
+      let node = completed
+        .entry((self.prod_state().prod().head(), self.key.origin_index))
+        .or_insert_with(|| tree_handle.make_node());
+      node.add_alt(&tree_handle.make_branch_alt(
+        self.prod_state().action_key().as_base().unwrap().clone(),
+        self.value.iter().cloned(),
+      ));
+
       origin_state
         .states()
         .into_iter()
@@ -198,10 +216,7 @@ where
             prod_state: ps,
             origin_index: st.key.origin_index,
           },
-          value: st.create_next_value(tree_handle.make_branch_node(
-            self.prod_state().action_key().as_base().unwrap().clone(),
-            self.value.iter().cloned(),
-          )),
+          value: st.create_next_value(node.clone()),
         })
         .collect()
     } else {
@@ -225,21 +240,20 @@ where
 }
 
 pub struct EarleyStateSet<'a, T, NT, AK, AV, V> {
-  states:
-    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>,
+  states: BTreeSet<EarleyState<'a, T, NT, AK, AV, V>>,
 }
 
 impl<T, NT, AK, AV, V> Default for EarleyStateSet<'_, T, NT, AK, AV, V> {
   fn default() -> Self {
     EarleyStateSet {
-      states: BTreeMap::new(),
+      states: BTreeSet::new(),
     }
   }
 }
 impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn new() -> Self {
     EarleyStateSet {
-      states: BTreeMap::new(),
+      states: BTreeSet::new(),
     }
   }
 
@@ -250,10 +264,7 @@ impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn states<'b>(
     &'b self,
   ) -> impl Iterator<Item = EarleyState<'a, T, NT, AK, AV, V>> + 'b {
-    self.states.iter().map(|(key, value)| EarleyState {
-      key: key.clone(),
-      value: value.clone(),
-    })
+    self.states.iter().cloned()
   }
 }
 
@@ -289,21 +300,7 @@ where
     &mut self,
     state: &EarleyState<'a, T, NT, AK, AV, V>,
   ) -> WasChanged {
-    match self.states.entry(state.key.clone()) {
-      btree_map::Entry::Vacant(vac) => {
-        vac.insert(state.value.clone());
-        WasChanged::Changed
-      }
-      btree_map::Entry::Occupied(mut occ) => {
-        let existing_nodes = occ.get_mut();
-        let new_nodes = &state.value;
-        assert_eq!(existing_nodes.len(), new_nodes.len());
-        change_iter(
-          existing_nodes.iter_mut().zip(new_nodes),
-          |(existing_node, new_node)| existing_node.add_all(new_node),
-        )
-      }
-    }
+    WasChanged::from_changed(self.states.insert(state.clone()))
   }
 
   pub fn shift(
@@ -320,10 +317,10 @@ where
   }
 
   pub fn get_final(&self) -> Option<&Node<'a, T, AK, V>> {
-    for (k, v) in &self.states {
-      if k.is_final_key() {
-        assert_eq!(v.len(), 1);
-        return Some(v.get(0).unwrap());
+    for state in &self.states {
+      if state.key.is_final_key() {
+        assert_eq!(state.value.len(), 1);
+        return Some(state.value.get(0).unwrap());
       }
     }
 
-- 
2.43.0


From 0465f347ce8258e7dbcb869242d833fb3f52a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 15/19] fix: look through nullable elements for LR(1)
 lookaheads

Lookaheads behind a nullable element were missing, and an element with no
firsts made the closure panic.
---
 src/parsers/lalr.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 47cc181..7b1d249 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -2,7 +2,7 @@ use std::collections::{btree_map, BTreeMap, BTreeSet};
 
 use crate::{
   grammar::{
-    passes::{firsts::Firsts, PassContext},
+    passes::{firsts::Firsts, nullable::Nullable, PassContext},
     Elem,
   },
   state::ProdState,
@@ -84,17 +84,33 @@ where
     items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
   ) -> anyhow::Result<Self> {
     let firsts = passes.get_pass::<Firsts<T, NT>>()?;
+    let nullables = passes.get_pass::<Nullable<NT, AK>>()?;
     let mut prods = CollectMap::from_seed(items.into_iter().collect());
 
     change_loop(|| {
       let mut new_expansions = Vec::new();
       for (prod, la) in prods.iter() {
         if let Some(Elem::NonTerm(nt)) = prod.next_elem() {
-          let new_la = match prod.offset_elem(1) {
-            Some(Elem::NonTerm(nt)) => firsts.get(nt).unwrap().clone(),
-            Some(Elem::Term(t)) => std::iter::once(t.clone()).collect(),
-            None => la.clone(),
-          };
+          // Look through nullable elements, up to the end of the production.
+          let mut new_la = BTreeSet::new();
+          for i in 1.. {
+            match prod.offset_elem(i) {
+              Some(Elem::NonTerm(nt)) => {
+                new_la.extend(firsts.get(nt).into_iter().flatten().cloned());
+                if !nullables.is_nullable(nt) {
+                  break;
+                }
+              }
+              Some(Elem::Term(t)) => {
+                new_la.insert(t.clone());
+                break;
+              }
+              None => {
+                new_la.extend(la.iter().cloned());
+                break;
+              }
+            }
+          }
 
           new_expansions.push((nt, new_la));
         }
-- 
2.43.0


From 2dc50cf4e85623dc94c51af7023021f1cf5e7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 16/19] Add accessors for external checks, compiled only with
 --cfg bongo_verif

---
 src/grammar/base.rs              | 15 +++++++++
 src/grammar/passes/follows.rs    | 10 ++++++
 src/grammar/transform/nonnull.rs | 24 ++++++++++++++
 src/parsers/lalr.rs              | 55 ++++++++++++++++++++++++++++++++
 src/utils/buffer.rs              | 15 +++++++++
 src/utils/mergeables.rs          |  7 ++++
 6 files changed, 126 insertions(+)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index 562ade7..b9cb82a 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -767,3 +767,18 @@ where
     dbg_struct.finish()
   }
 }
+
+#[cfg(bongo_verif)]
+impl<NT> GrammarErrors<NT> {
+  pub fn verif_unreachable_nonterms(&self) -> &BTreeSet<NT> {
+    &self.unreachable_nonterms
+  }
+
+  pub fn verif_nonterms_without_rules(&self) -> &BTreeSet<NT> {
+    &self.nonterms_without_rules
+  }
+
+  pub fn verif_rules_without_prods(&self) -> &BTreeSet<NT> {
+    &self.rules_without_prods
+  }
+}
diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index 006a583..5cd0ccc 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -87,3 +87,13 @@ where
     ))
   }
 }
+
+#[cfg(bongo_verif)]
+impl<T, NT> Follows<T, NT>
+where
+  NT: Ord,
+{
+  pub fn verif_get(&self, nt: &NT) -> Option<&BTreeSet<T>> {
+    self.0.get(nt)
+  }
+}
diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index f8de010..f263b20 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -251,3 +251,27 @@ fn build_nonnull_prods<T, NT, AK, AV>(
     );
   }
 }
+
+#[cfg(bongo_verif)]
+impl<AK> ActionKey<AK> {
+  pub fn verif_action(&self) -> &AK {
+    &self.action
+  }
+
+  pub fn verif_null_states(&self) -> &[bool] {
+    &self.nt_nullable_states
+  }
+}
+
+#[cfg(bongo_verif)]
+impl<NT, AK, AV> ActionValue<NT, AK, AV> {
+  pub fn verif_parent_value(&self) -> &AV {
+    &self.parent_value
+  }
+
+  pub fn verif_null_arguments(
+    &self,
+  ) -> &BTreeMap<Name, TreeNode<ProdKey<NT, AK>, Void>> {
+    &self.nullable_arguments
+  }
+}
diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 7b1d249..56eb409 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -162,3 +162,58 @@ where
     })
   }
 }
+
+#[cfg(bongo_verif)]
+pub mod verif {
+  //! Access to LR(1) item sets for external checks.
+
+  use super::*;
+
+  #[derive(Clone)]
+  pub struct ItemSet<'a, T, NT, AK, AV>(ParseState<'a, T, NT, AK, AV>);
+
+  impl<'a, T, NT, AK, AV> ItemSet<'a, T, NT, AK, AV>
+  where
+    T: Ord + Clone + 'static,
+    NT: Ord + Clone + 'static,
+    AK: Ord + Clone + 'static,
+  {
+    pub fn from_kernel(
+      passes: &PassContext<'a, T, NT, AK, AV>,
+      items: impl IntoIterator<Item = (ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)>,
+    ) -> anyhow::Result<Self> {
+      ParseState::from_prod_lookahead(passes, items).map(ItemSet)
+    }
+
+    pub fn items(&self) -> Vec<(ProdState<'a, T, NT, AK, AV>, BTreeSet<T>)> {
+      self
+        .0
+        .prods
+        .iter()
+        .map(|(p, la)| (p.clone(), la.clone()))
+        .collect()
+    }
+
+    pub fn shifts(
+      &self,
+      passes: &PassContext<'a, T, NT, AK, AV>,
+    ) -> anyhow::Result<Vec<(T, Self)>> {
+      Ok(
+        self
+          .0
+          .shift_actions(passes)?
+          .into_iter()
+          .map(|(t, s)| (t, ItemSet(s)))
+          .collect(),
+      )
+    }
+
+    pub fn reducible(&self) -> Vec<AK> {
+      self.0.reducable_actions().cloned().collect()
+    }
+
+    pub fn same_as(&self, other: &Self) -> bool {
+      self.0 == other.0
+    }
+  }
+}
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 1a64d82..34077f6 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -278,6 +278,21 @@ impl TextPos {
   }
 }
 
+#[cfg(bongo_verif)]
+impl TextPos {
+  /// Line, column and byte offset.
+  pub fn verif_parts(&self) -> (usize, usize, usize) {
+    (self.line(), self.column(), self.byte_offset())
+  }
+}
+
+#[cfg(bongo_verif)]
+impl BufferRangeKey {
+  pub fn verif_new(range: BufferRange) -> Self {
+    BufferRangeKey(range)
+  }
+}
+
 #[cfg(test)]
 mod test {
   use super::*;
diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index 182ad05..c8d5827 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -210,3 +210,10 @@ where
     }
   }
 }
+
+#[cfg(bongo_verif)]
+impl<K, V> Value<K, V> {
+  pub fn verif_new(key: K, value: V) -> Self {
+    Value { key, value }
+  }
+}
-- 
2.43.0


From 101cc59d8ab63bb40746c2792001847ad0a8e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 17/19] fix: looking any distance past the end of a production
 finds nothing

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 9f495cb..e00d939 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -90,7 +90,7 @@ impl<'a, T, NT, AK, AV> ProdState<'a, T, NT, AK, AV> {
   }
 
   pub fn offset_prod_elem(&self, i: usize) -> Option<&'a ProdElement<T, NT>> {
-    self.prod.prod_elements().get(self.index + i)
+    self.prod.prod_elements().get(self.index.checked_add(i)?)
   }
 
   pub fn offset_elem(&self, i: usize) -> Option<&'a Elem<T, NT>> {
-- 
2.43.0


From cb725b8b62aa8d16862048129bfbe81f398ccf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:37 +0000
Subject: [PATCH 18/19] hooks: one more cfg flag for each file's accessors

---
 src/grammar/base.rs              | 2 +-
 src/grammar/passes/follows.rs    | 2 +-
 src/grammar/transform/nonnull.rs | 4 ++--
 src/parsers/lalr.rs              | 2 +-
 src/utils/buffer.rs              | 4 ++--
 src/utils/mergeables.rs          | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index b9cb82a..a1d615b 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -768,7 +768,7 @@ where
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_errors))]
 impl<NT> GrammarErrors<NT> {
   pub fn verif_unreachable_nonterms(&self) -> &BTreeSet<NT> {
     &self.unreachable_nonterms
diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index 5cd0ccc..5ce3ac5 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -88,7 +88,7 @@ where
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_follows))]
 impl<T, NT> Follows<T, NT>
 where
   NT: Ord,
diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index f263b20..909960d 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -252,7 +252,7 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_nonnull))]
 impl<AK> ActionKey<AK> {
   pub fn verif_action(&self) -> &AK {
     &self.action
@@ -263,7 +263,7 @@ impl<AK> ActionKey<AK> {
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_nonnull))]
 impl<NT, AK, AV> ActionValue<NT, AK, AV> {
   pub fn verif_parent_value(&self) -> &AV {
     &self.parent_value
diff --git a/src/parsers/lalr.rs b/src/parsers/lalr.rs
index 56eb409..12a72fe 100644
--- a/src/parsers/lalr.rs
+++ b/src/parsers/lalr.rs
@@ -163,7 +163,7 @@ where
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_lalr))]
 pub mod verif {
   //! Access to LR(1) item sets for external checks.
 
diff --git a/src/utils/buffer.rs b/src/utils/buffer.rs
index 34077f6..4f7d306 100644
--- a/src/utils/buffer.rs
+++ b/src/utils/buffer.rs
@@ -278,7 +278,7 @@ impl TextPos {
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_buffer))]
 impl TextPos {
   /// Line, column and byte offset.
   pub fn verif_parts(&self) -> (usize, usize, usize) {
@@ -286,7 +286,7 @@ impl TextPos {
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_buffer))]
 impl BufferRangeKey {
   pub fn verif_new(range: BufferRange) -> Self {
     BufferRangeKey(range)
diff --git a/src/utils/mergeables.rs b/src/utils/mergeables.rs
index c8d5827..ab02cf6 100644
--- a/src/utils/mergeables.rs
+++ b/src/utils/mergeables.rs
@@ -211,7 +211,7 @@ where
   }
 }
 
-#[cfg(bongo_verif)]
+#[cfg(any(bongo_verif, bongo_verif_mergeables))]
 impl<K, V> Value<K, V> {
   pub fn verif_new(key: K, value: V) -> Self {
     Value { key, value }
-- 
2.43.0


From 0ca366c68afce33515fe894ceb7f0c773b7b0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:42 +0000
Subject: [PATCH 19/19] hooks: a lock in the forest store that can be scheduled
 from outside

---
 src/parsers/tree.rs | 93 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 1 deletion(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 2ceacbe..c55af11 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -12,7 +12,12 @@
 // See the License for the specific language governing permissions and
 // limitations under the License.
 
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+
+#[cfg(not(any(bongo_verif, bongo_verif_sync)))]
+use std::sync::RwLock;
+#[cfg(any(bongo_verif, bongo_verif_sync))]
+use verif_sync::RwLock;
 
 use crate::utils::{change_iter, WasChanged};
 use im::Vector;
@@ -756,3 +761,89 @@ where
     }
   }
 }
+
+#[cfg(any(bongo_verif, bongo_verif_sync))]
+pub mod verif_sync {
+  //! A lock that tells an external scheduler, where there is one, before it is
+  //! taken. Otherwise it is the standard one.
+
+  use std::cell::Cell;
+  use std::sync::{
+    LockResult, RwLockReadGuard, RwLockWriteGuard, TryLockError, TryLockResult,
+  };
+
+  thread_local! {
+    /// Called by this thread before each attempt to take a lock. If it returns
+    /// false, the thread waits in the lock itself.
+    pub static POINT: Cell<Option<fn(Attempt) -> bool>> = Cell::new(None);
+  }
+
+  #[derive(Clone, Copy, Debug)]
+  pub struct Attempt {
+    /// Which lock.
+    pub lock: usize,
+    pub write: bool,
+    /// An attempt has just failed.
+    pub failed: bool,
+  }
+
+  fn take<G>(
+    lock: usize,
+    write: bool,
+    mut attempt: impl FnMut() -> TryLockResult<G>,
+    wait: impl FnOnce() -> LockResult<G>,
+  ) -> LockResult<G> {
+    let point = match POINT.with(|p| p.get()) {
+      None => return wait(),
+      Some(point) => point,
+    };
+    let mut failed = false;
+    while point(Attempt { lock, write, failed }) {
+      match attempt() {
+        Ok(guard) => return Ok(guard),
+        Err(TryLockError::Poisoned(e)) => return Err(e),
+        Err(TryLockError::WouldBlock) => failed = true,
+      }
+    }
+    wait()
+  }
+
+  #[derive(Debug, Default)]
+  pub struct RwLock<T>(std::sync::RwLock<T>);
+
+  impl<T> RwLock<T> {
+    pub fn new(value: T) -> Self {
+      RwLock(std::sync::RwLock::new(value))
+    }
+
+    pub fn read(&self) -> LockResult<RwLockReadGuard<T>> {
+      let id = self as *const _ as usize;
+      take(id, false, || self.0.try_read(), || self.0.read())
+    }
+
+    pub fn write(&self) -> LockResult<RwLockWriteGuard<T>> {
+      let id = self as *const _ as usize;
+      take(id, true, || self.0.try_write(), || self.0.write())
+    }
+
+    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<T>> {
+      self.0.try_read()
+    }
+
+    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<T>> {
+      self.0.try_write()
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+      self.0.is_poisoned()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+      self.0.into_inner()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+      self.0.get_mut()
+    }
+  }
+}
-- 
2.43.0

