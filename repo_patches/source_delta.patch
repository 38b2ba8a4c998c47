From 83dde97d1bbf641c7293d85a8b7bdd0f4e0d454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 1/9] fix: union_with and xor_with of VecSet panic or compute
 the wrong operation

They used a converter that must never be called, and xor_with used the
operation for intersection.
---
 src/vec_set.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
@@ -770,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From 4f4489689a05c50abf1163df476738d2f1f63ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 2/9] fix: radix tree validation reads children before they
 have been checked

The prefixes of the children were inspected before CheckBytes ran on them, so
that an invalid archive could make validation read outside of the buffer. For
the tree with shared children, reject cycles, which would do the same.
---
 src/radix_tree/arc_radix_tree.rs  | 12 ++++++++----
 src/radix_tree/flat_radix_tree.rs |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..e2bcb62 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -297,6 +297,14 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children. This has to happen before they are looked at
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // shared children are checked only once. Make sure that they are not an ancestor, the
+            // check of which is still going on: children are always archived before their parent
+            if children.get() as *const _ as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children("cyclic children".into()));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -311,10 +319,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
-
             Ok(&*this)
         }
     }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..d60cfbe 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children. This has to happen before they are looked at
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From 21df43a26d4071fc6fc301e5a281be1074c02200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 3/9] fix: TotalVecSet::is_superset is not the opposite of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From d775061e3044f5a6cea4a451fcef37ebbf960135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:38 +0000
Subject: [PATCH 4/9] fix: equality of TotalVecMap ignores the default value

---
 src/total_vec_map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..663a25a 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -66,7 +66,7 @@ impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From 2f1c832fbdeb51aebfaaf150e7e5ea6a45933d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 5/9] fix: in-place right join of BTreeMap keeps keys that are
 not in the right map

---
 src/btree_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..c423ce9 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -195,6 +195,8 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
                 self.remove(k);
             }
         }
+        // k not in that
+        self.retain(|k, _| that.get(k).is_some());
     }
 
     fn outer_join_with<W, L, R>(&mut self, that: &impl AbstractBTreeMap<K, W>, l: L, r: R)
-- 
2.43.0


From 3306556c548a77147043046aa88372c00b0d54e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 6/9] fix: deserialization trusts the size hint of its input

A hint that is too large made it panic or abort for lack of memory.
---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..9eb13cb 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -815,7 +815,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the hint is not to be trusted
+        let len = map.size_hint().unwrap_or(0).min(4096);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9f97102..5ab6cd1 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -611,7 +611,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the hint is not to be trusted
+        let len = seq.size_hint().unwrap_or(0).min(4096);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From 7879caec45efc6f4fcda79f99f901a850a1f5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 7/9] fix: left_combine calls the function for some of the keys
 that are only in the left tree

Whether a key that is only in the left tree was passed to the function or just
kept depended on the shape of the two trees.
---
 src/radix_tree/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..1972c43 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1155,8 +1155,9 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     if n == a.prefix().len() && n == b.prefix().len() {
         // prefixes are identical
         value = match (a.value(), b.value()) {
-            (Some(a), b) => f(a, b),
-            _ => None,
+            (Some(a), Some(b)) => f(a, Some(b)),
+            // like everywhere else in the tree, and like left_combine_with: just keep it
+            (a, _) => a.cloned(),
         };
         children = VecMergeState::merge(
             a.children(),
-- 
2.43.0


From 79ec9625e1f239e2806839dfac9bc733a5242589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 8/9] hook: export Keep with cfg(vec_collections_verif)

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e14de51..76a23cd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -100,6 +100,9 @@ mod iterators;
 mod macros;
 
 pub use dedup::{sort_dedup, sort_dedup_by_key};
+// hook for verification: lets a caller name the argument of the two functions above
+#[cfg(vec_collections_verif)]
+pub use dedup::Keep;
 pub use smallvec::Array;
 pub use vec_map::*;
 pub use vec_set::*;
-- 
2.43.0


From a1a7b1be52d2bbf0d4a316ec42835093b8f8ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 9/9] fix: retain of VecSet and VecMap keeps its order when the
 predicate panics

---
 src/vec_map.rs | 8 +++++++-
 src/vec_set.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 9eb13cb..b6f038a 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -5,6 +5,7 @@ use std::collections::BTreeMap;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -641,7 +642,12 @@ impl<A: Array> VecMap<A> {
 
     /// retain all pairs matching a predicate
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // SmallVec::retain leaves the entries out of order if f panics
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     #[cfg(feature = "total")]
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 5ab6cd1..d8ffd82 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -10,6 +10,7 @@ use std::collections::BTreeSet;
 use binary_merge::MergeOperation;
 #[cfg(feature = "rkyv_validated")]
 use bytecheck::CheckBytes;
+use inplace_vec_builder::InPlaceSmallVecBuilder;
 #[cfg(feature = "rkyv")]
 use rkyv::{validation::ArchiveContext, Archive};
 use smallvec::{Array, SmallVec};
@@ -331,7 +332,12 @@ where
 
     /// Retain all elements matching a predicate.
     pub fn retain<F: FnMut(&A::Item) -> bool>(&mut self, mut f: F) {
-        self.0.retain(|entry| f(entry))
+        // SmallVec::retain leaves the entries out of order if f panics
+        let mut builder = InPlaceSmallVecBuilder::from(&mut self.0);
+        while let Some(entry) = builder.source_slice().first() {
+            let keep = f(entry);
+            builder.consume(1, keep);
+        }
     }
 
     /// creates a set from a vec.
-- 
2.43.0

