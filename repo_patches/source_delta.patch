From 831a69569c5b55d099b2933bd6a5b74ebef286df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 1/4] fix: building a sequence from a stack that ends in an
 archive point

RazTree::memo_from over AtTail/AtHead turned an empty active vector into an
empty leaf, which every fold then panics on, plus a spurious boundary.
---
 src/raz.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raz.rs b/src/raz.rs
index 5fc57d3..3ec2dff 100644
--- a/src/raz.rs
+++ b/src/raz.rs
@@ -761,6 +761,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut tailstack = tailstack.0.clone();
+		// nothing was pushed since the last archive, so that archive is the edge of the sequence
+		if tailstack.active_len() == 0 { tailstack.next_archive(); }
 		let name = tailstack.name();
 		let (level, first_tree) = match tailstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
@@ -837,6 +839,8 @@ for RazTree<E,M> {
 			}
 		}
 		let mut headstack = headstack.0.clone();
+		// nothing was pushed since the last archive, so that archive is the edge of the sequence
+		if headstack.active_len() == 0 { headstack.next_archive(); }
 		let name = headstack.name();
 		let (level, first_tree) = match headstack.next_archive() {
 			None => return RazTree{meta: treetop_meta(None), tree: None},
-- 
2.43.0


From 7978d44de42747158e89408ea0b1e04209429aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:36 +0000
Subject: [PATCH 2/4] fix: good_levels checks the order the library itself
 builds

Equal levels go to the right branch (tree cursor join, raz memo_from, the
LevelTree interface docs), but good_levels rejected exactly those trees and
accepted their mirror image.
---
 src/level_tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/level_tree.rs b/src/level_tree.rs
index f4547f5..05e07db 100644
--- a/src/level_tree.rs
+++ b/src/level_tree.rs
@@ -212,21 +212,21 @@ Tree<E> {
 /// ```
 ///
 /// checks that the levels of the tree follow the convention
-/// of non-increasing to the left branch and decreasing to the
-/// right branch
+/// of decreasing to the left branch and non-increasing to the
+/// right branch, as built by the tree cursor and the raz
 ///
 /// also prints the levels of the failing trees and branches
 pub fn good_levels<E: Debug+Clone+Eq+Hash+'static>(tree: &Tree<E>) -> bool {
 	let mut good = true;
 	if let Some(ref t) = force(&tree.link).l_branch {
-		if t.level > tree.level {
+		if t.level >= tree.level {
 			println!("Tree with level {:?} has left branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
 		if !good_levels(t) { good = false }
 	}
 	if let Some(ref t) = force(&tree.link).r_branch {
-		if t.level >= tree.level {
+		if t.level > tree.level {
 			println!("Tree with level {:?} has right branch with level {:?}", tree.level, t.level);
 			good = false;
 		}
-- 
2.43.0


From e00be48e6efb11db32f89ab437e3b7f86abc31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 3/4] fix: skip list lookups inside an incremental computation
 miss changes

A memoized computation that looks up several keys reads the same path
cell through several mapped observations.  The engine (adapton 0.3.19)
re-checks only the first of them when the cell changes, so a change that
only affects a later lookup went unnoticed and the rerun kept a stale
result.  Observe the path itself instead.
---
 src/skiplist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skiplist.rs b/src/skiplist.rs
index a25c94d..944e9d3 100644
--- a/src/skiplist.rs
+++ b/src/skiplist.rs
@@ -9,7 +9,7 @@ use std::fmt;
 use std::fmt::Debug;
 use std::hash::{Hash,Hasher};
 use std::collections::hash_map::{DefaultHasher};
-use adapton::engine::{cell,force_map,Art,Name,name_pair,name_of_usize};
+use adapton::engine::{cell,force,Art,Name,name_pair,name_of_usize};
 
 fn my_hash<T>(obj: T) -> u64
   where T: Hash
@@ -165,9 +165,11 @@ fn build_path_rec
 {    
     let key_bits : usize = key_hash.0;
     let key_biti : usize = cursor.paths.len();
+    // Observe the whole path (`force`), not just its mapping
+    // (`force_map`): one computation looks up several keys in the same
+    // path, and the engine checks only the first of its mappings.
     let mut res =
-        force_map(&cur_art, move |art,path|
-                  build_path_step (art, path, ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti})) ;
+        build_path_step (cur_art, force(cur_art), ObsParam{ path_len:path_len, key_bits:key_bits, key_biti:key_biti}) ;
     cursor.paths.append(&mut res.paths);
     match res.kvs {
         Some(kvs) => {
-- 
2.43.0


From ade749d72f791c24d23e65bfeb8924b4b96a61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 4/4] fix: edits by name depend on the given generator only

The place of an edit was picked by position in a hash map's iteration
order, which differs between runs, so a measurement with a given seed was
not reproducible.
---
 eval/src/eval_raz_name_index.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/src/eval_raz_name_index.rs b/eval/src/eval_raz_name_index.rs
index 36d148b..9ea38b2 100644
--- a/eval/src/eval_raz_name_index.rs
+++ b/eval/src/eval_raz_name_index.rs
@@ -152,9 +152,10 @@ EditInsert for EvalRazNameIndex<E,G> {
 	fn insert(mut self, batch_size: usize, rng: &mut StdRng) -> (Duration,Self) {
 		let tree = self.raztree.take().unwrap_or_else(||panic!("raz uninitialized"));
 		let loc = {
-			let mut names = tree.meta().0.keys();
-			let name_count = names.len();
-			names.nth(self.coord.gen::<usize>() % name_count).unwrap().clone()
+			// the map has a random order: sort, so that `coord` alone decides
+			let mut names = tree.meta().0.keys().cloned().collect::<Vec<_>>();
+			names.sort_by_key(|n|format!("{:?}",n));
+			names[self.coord.gen::<usize>() % names.len()].clone()
 		};
 		let mut focus = None;
 		let focus_time = Duration::span(||{
-- 
2.43.0

