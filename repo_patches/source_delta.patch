From 3185476d46aa20145ad6dd245086065932f43c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 01/15] fix: VecSet::union_with and xor_with compute the union
 and symmetric difference

union_with and xor_with used NoConverter, so they panicked as soon as an
element had to be taken from the right side, and xor_with used the
intersection operation.
---
 src/vec_set.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/vec_set.rs b/src/vec_set.rs
index 7dc66e0..9f97102 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -754,7 +754,12 @@ where
     }
 
     pub fn union_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
-        InPlaceSmallVecMergeStateRef::merge(&mut self.0, &that.as_slice(), SetUnionOp, NoConverter);
+        InPlaceSmallVecMergeStateRef::merge(
+            &mut self.0,
+            &that.as_slice(),
+            SetUnionOp,
+            CloneConverter,
+        );
     }
 
     pub fn intersection_with(&mut self, that: &impl AbstractVecSet<A::Item>) {
@@ -770,8 +775,8 @@ where
         InPlaceSmallVecMergeStateRef::merge(
             &mut self.0,
             &that.as_slice(),
-            SetIntersectionOp,
-            NoConverter,
+            SetXorOp,
+            CloneConverter,
         );
     }
 
-- 
2.43.0


From 7a450f2ab166ed90a0c42d4f27802648c88b1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 02/15] Hook (cfg vcmon): export Keep so that both keep
 policies of sort_dedup can be observed

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e14de51..7d97c1c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,6 +59,7 @@
 //! [HashSet]: https://doc.rust-lang.org/std/collections/struct.HashSet.html
 //! [HashMap]: https://doc.rust-lang.org/std/collections/struct.HashMap.html
 #![cfg_attr(vec_collections_docsrs, feature(doc_cfg))]
+#![allow(unexpected_cfgs)]
 
 #[cfg(test)]
 extern crate quickcheck;
@@ -100,6 +101,9 @@ mod iterators;
 mod macros;
 
 pub use dedup::{sort_dedup, sort_dedup_by_key};
+#[cfg(vcmon)]
+#[doc(hidden)]
+pub use dedup::Keep;
 pub use smallvec::Array;
 pub use vec_map::*;
 pub use vec_set::*;
-- 
2.43.0


From 95fb5987f6c0f122d7916cfd40d88d821488eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 03/15] fix: TotalVecSet::is_superset answered the negation of
 is_subset

---
 src/total_vec_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/total_vec_set.rs b/src/total_vec_set.rs
index d88680b..7352348 100644
--- a/src/total_vec_set.rs
+++ b/src/total_vec_set.rs
@@ -138,7 +138,7 @@ impl<T: Ord, A: Array<Item = T>> TotalVecSet<A> {
     }
 
     pub fn is_superset(&self, that: &Self) -> bool {
-        !self.is_subset(that)
+        that.is_subset(self)
     }
 
     pub fn is_subset(&self, that: &Self) -> bool {
-- 
2.43.0


From 6b18bd02a4c76784ed3ab2fdefe1b04a08158fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 04/15] fix: TotalVecMap equality and hash ignored the default
 value

---
 src/total_vec_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/total_vec_map.rs b/src/total_vec_map.rs
index c628a79..634d198 100644
--- a/src/total_vec_map.rs
+++ b/src/total_vec_map.rs
@@ -60,13 +60,13 @@ impl<K: Clone, V: Clone, A: Array<Item = (K, V)>> Clone for TotalVecMap<V, A> {
 
 impl<K: Hash, V: Hash, A: Array<Item = (K, V)>> Hash for TotalVecMap<V, A> {
     fn hash<H: hash::Hasher>(&self, state: &mut H) {
-        self.0.hash(state)
+        (&self.0, &self.1).hash(state)
     }
 }
 
 impl<K: PartialEq, V: PartialEq, A: Array<Item = (K, V)>> PartialEq for TotalVecMap<V, A> {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.1 == other.1
     }
 }
 
-- 
2.43.0


From 7f18b107e63b6448309d0e70dce2a545df4cd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/15] fix: cap the capacity reserved from a serde size hint

---
 src/vec_map.rs | 3 ++-
 src/vec_set.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_map.rs b/src/vec_map.rs
index 30a861c..97287f2 100644
--- a/src/vec_map.rs
+++ b/src/vec_map.rs
@@ -815,7 +815,8 @@ where
     }
 
     fn visit_map<M: MapAccess<'de>>(self, mut map: M) -> Result<Self::Value, M::Error> {
-        let len = map.size_hint().unwrap_or(0);
+        // the hint comes from the input, so don't trust it with more than a modest allocation
+        let len = map.size_hint().unwrap_or(0).min(4096);
         let mut values: SmallVec<A> = SmallVec::with_capacity(len);
 
         while let Some(value) = map.next_entry::<K, V>()? {
diff --git a/src/vec_set.rs b/src/vec_set.rs
index 9f97102..91cf97e 100644
--- a/src/vec_set.rs
+++ b/src/vec_set.rs
@@ -611,7 +611,8 @@ where
     where
         B: SeqAccess<'de>,
     {
-        let len = seq.size_hint().unwrap_or(0);
+        // the hint comes from the input, so don't trust it with more than a modest allocation
+        let len = seq.size_hint().unwrap_or(0).min(4096);
         let mut values = SmallVec::with_capacity(len);
 
         while let Some(value) = seq.next_element()? {
-- 
2.43.0


From 58c91f7989eaba7254f537fd28336e263b77257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 06/15] fix: radix tree left_combine consults the function for
 every left key

---
 src/radix_tree/mod.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index ad907b3..d420b13 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -1149,7 +1149,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
 ) -> R {
     let n = common_prefix(a.prefix(), b.prefix());
-    let mut prefix = a.prefix()[..n].into();
+    let prefix = a.prefix()[..n].into();
     let children;
     let mut value = None;
     if n == a.prefix().len() && n == b.prefix().len() {
@@ -1168,7 +1168,7 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
     } else if n == a.prefix().len() {
         // a is a prefix of b
         let b = b.materialize_shortened(n);
-        value = a.value().cloned();
+        value = a.value().and_then(|v| f(v, None));
         children = VecMergeState::merge(
             a.children(),
             &[b],
@@ -1188,19 +1188,25 @@ fn left_combine<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Mat
         );
     } else {
         // disjoint
-        prefix = a.prefix().into();
-        value = a.value().cloned();
-        children = a
-            .children()
-            .iter()
-            .map(|x| x.materialize_shortened(0))
-            .collect();
+        return left_only(a, f);
     }
     let mut res = R::new(prefix, value, children);
     res.unsplit();
     res
 }
 
+/// Left combine a tree with nothing on the right side
+fn left_only<K: TKey, V: TValue, W: TValue, R: AbstractRadixTreeMut<K, V, Materialized = R>>(
+    a: &impl AbstractRadixTree<K, V, Materialized = R>,
+    f: impl Fn(&V, Option<&W>) -> Option<V> + Copy,
+) -> R {
+    let value = a.value().and_then(|v| f(v, None));
+    let children = a.children().iter().map(|x| left_only(x, f)).collect();
+    let mut res = R::new(a.prefix().into(), value, children);
+    res.unsplit();
+    res
+}
+
 struct IntersectOp<T>(PhantomData<T>);
 
 impl<'a, K, V, W, I> MergeOperation<I> for IntersectOp<(K, V, W)>
@@ -1465,7 +1471,13 @@ where
         m: &mut VecMergeState<'a, A, B, R, RadixTreeConverter<K, V>, NoConverter>,
         n: usize,
     ) -> bool {
-        m.advance_a(n, true)
+        for a in m.a.take_front(n) {
+            let res = left_only(a, self.0);
+            if !res.is_empty() {
+                m.r.push(res);
+            }
+        }
+        true
     }
     fn from_b(
         &self,
-- 
2.43.0


From b5138e248072981c5144d9a7912ebc23522876d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 07/15] fix: ArcRadixTree leaves share an empty child list of
 the wrong type

---
 src/radix_tree/arc_radix_tree.rs | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 5b1b476..9fb327b 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -1,7 +1,4 @@
-use std::{
-    collections::BTreeMap,
-    sync::{Arc, LazyLock},
-};
+use std::{collections::BTreeMap, sync::Arc};
 
 use internals::{AbstractRadixTreeMut as _, Fragment};
 use rkyv::{
@@ -13,21 +10,6 @@ use rkyv::{
 
 use super::{internals, location, offset_from, AbstractRadixTree, RadixTree, TKey, TValue};
 
-static EMPTY_ARC_VEC: LazyLock<Arc<Vec<u128>>> = LazyLock::new(|| Arc::new(Vec::new()));
-
-fn empty_arc<T>() -> Arc<Vec<T>> {
-    // TODO: this seems to work, but is strictly speaking ub. Get rid of the unsafe
-    unsafe { std::mem::transmute(EMPTY_ARC_VEC.clone()) }
-}
-
-fn wrap_in_arc<T>(data: Vec<T>) -> Arc<Vec<T>> {
-    if data.is_empty() {
-        empty_arc()
-    } else {
-        Arc::new(data)
-    }
-}
-
 /// A generic radix tree with structural sharing and copy on write
 ///
 /// Compared to the simplest radix tree, this adds cheap (O(1)) snapshots and enables incremental
@@ -47,7 +29,7 @@ impl<K: TKey, V: TValue> Default for ArcRadixTree<K, V> {
         Self {
             prefix: Default::default(),
             value: Default::default(),
-            children: empty_arc(),
+            children: Default::default(),
         }
     }
 }
@@ -70,7 +52,7 @@ impl<K: TKey, V: TValue> AbstractRadixTree<K, V> for ArcRadixTree<K, V> {
 
 impl<K: TKey, V: TValue> internals::AbstractRadixTreeMut<K, V> for ArcRadixTree<K, V> {
     fn new(prefix: Fragment<K>, value: Option<V>, children: Vec<Self>) -> Self {
-        let children = wrap_in_arc(children);
+        let children = Arc::new(children);
         Self {
             prefix,
             value,
-- 
2.43.0


From 2ef339317870215543ae36fc7e59280b2a626862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 08/15] fix: radix tree validation looks into children before
 they are validated

---
 src/radix_tree/arc_radix_tree.rs  | 6 +++---
 src/radix_tree/flat_radix_tree.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 9fb327b..267be6b 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -279,6 +279,9 @@ mod validation_support {
             CheckBytes::check_bytes(prefix, context).map_err(|_| ArchivedRadixTreeError::Prefix)?;
             // check the value, if present
             CheckBytes::check_bytes(value, context).map_err(|_| ArchivedRadixTreeError::Value)?;
+            // recursively check the children, before looking at their contents
+            CheckBytes::check_bytes(children, context)
+                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
@@ -293,9 +296,6 @@ mod validation_support {
             {
                 return Err(ArchivedRadixTreeError::Order);
             };
-            // recursively check the children
-            CheckBytes::check_bytes(children, context)
-                .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
 
             Ok(&*this)
         }
diff --git a/src/radix_tree/flat_radix_tree.rs b/src/radix_tree/flat_radix_tree.rs
index c57c33b..7a95fbc 100644
--- a/src/radix_tree/flat_radix_tree.rs
+++ b/src/radix_tree/flat_radix_tree.rs
@@ -247,6 +247,9 @@ mod rkyv_support {
                 // check the value, if present
                 CheckBytes::check_bytes(value, context)
                     .map_err(|_| ArchivedRadixTreeError::Value)?;
+                // recursively check the children, before looking at their contents
+                CheckBytes::check_bytes(children, context)
+                    .map_err(|_| ArchivedRadixTreeError::Children)?;
                 // check that the prefix of all children is of non zero length
                 if !children.iter().all(|child| !child.prefix.is_empty()) {
                     return Err(ArchivedRadixTreeError::Children);
@@ -259,9 +262,6 @@ mod rkyv_support {
                 {
                     return Err(ArchivedRadixTreeError::Order);
                 };
-                // recursively check the children
-                CheckBytes::check_bytes(children, context)
-                    .map_err(|_| ArchivedRadixTreeError::Children)?;
 
                 Ok(&*this)
             }
-- 
2.43.0


From 23484bfa00bf4e1af735c8d6e704fc2936a16bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 09/15] fix: error of a rejected ArcRadixTree archive is
 exponentially large in its depth

---
 src/radix_tree/arc_radix_tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 267be6b..96bc9fd 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -253,7 +253,11 @@ mod validation_support {
 
     impl std::fmt::Display for ArchivedRadixTreeError {
         fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-            write!(f, "{:?}", self)
+            match self {
+                // not the debug format, which would escape the nested message once per level
+                Self::Children(cause) => write!(f, "Children({})", cause),
+                _ => write!(f, "{:?}", self),
+            }
         }
     }
     impl<C, K, V> bytecheck::CheckBytes<C> for ArchivedArcRadixTree<K, V>
-- 
2.43.0


From e5ef4182d82bdde319bdeb47f0a7d13133764f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 10/15] fix: validation accepted ArcRadixTree archives that
 contain themselves

---
 src/radix_tree/arc_radix_tree.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/radix_tree/arc_radix_tree.rs b/src/radix_tree/arc_radix_tree.rs
index 96bc9fd..878a0fc 100644
--- a/src/radix_tree/arc_radix_tree.rs
+++ b/src/radix_tree/arc_radix_tree.rs
@@ -286,6 +286,14 @@ mod validation_support {
             // recursively check the children, before looking at their contents
             CheckBytes::check_bytes(children, context)
                 .map_err(|e| ArchivedRadixTreeError::Children(e.to_string()))?;
+            // check that the children come before the node, like everything that is written.
+            // A children array that is already being validated further up is not checked again,
+            // so otherwise a node could be its own descendant.
+            if &**children as *const _ as usize >= this as usize {
+                return Err(ArchivedRadixTreeError::Children(
+                    "children after node".into(),
+                ));
+            }
             // check that the prefix of all children is of non zero length
             if !children.iter().all(|child| !child.prefix.is_empty()) {
                 return Err(ArchivedRadixTreeError::Children(
-- 
2.43.0


From 35d8fde8899bc73373c447f7e304117b3c65f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 11/15] fix: in place right join of a BTreeMap drops keys that
 are only on the left

---
 src/btree_map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index b315666..c423ce9 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -195,6 +195,8 @@ impl<K, V> InPlaceRelationalOps<K, V> for BTreeMap<K, V> {
                 self.remove(k);
             }
         }
+        // k not in that
+        self.retain(|k, _| that.get(k).is_some());
     }
 
     fn outer_join_with<W, L, R>(&mut self, that: &impl AbstractBTreeMap<K, W>, l: L, r: R)
-- 
2.43.0


From 774e7ee014f607018544aa34a86e467fe92b08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 12/15] fix: in place outer combine of disjoint radix trees
 leaves them unsorted if a comparison panics

---
 src/radix_tree/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index d420b13..79e2e58 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -383,9 +383,11 @@ pub trait AbstractRadixTreeMut<K: TKey, V: TValue>: internals::AbstractRadixTree
             self.outer_combine_children_with(that.children(), f);
         } else {
             // disjoint
+            // copy and compare before changing anything, so that self remains sorted in case of a panic
+            let that = that.materialize_shortened(n);
+            let index = if that.prefix()[0] < self.prefix()[n] { 0 } else { 1 };
             self.split(n);
-            self.children_mut().push(that.materialize_shortened(n));
-            self.children_mut().sort_by_key(|x| x.prefix()[0]);
+            self.children_mut().insert(index, that);
         }
         self.unsplit();
     }
-- 
2.43.0


From 3ca055f0e4321b615744c0b1a75d460da64a5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 13/15] fix: opening a LazyRadixTree from its archived form
 loaded the entire tree

---
 src/radix_tree/lazy_radix_tree.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/radix_tree/lazy_radix_tree.rs b/src/radix_tree/lazy_radix_tree.rs
index e926f17..aa10a2f 100644
--- a/src/radix_tree/lazy_radix_tree.rs
+++ b/src/radix_tree/lazy_radix_tree.rs
@@ -125,12 +125,10 @@ impl<'a, K: TKey + Archive<Archived = K>, V: TValue + Archive<Archived = V>>
     From<&'a ArchivedLazyRadixTree<K, V>> for LazyRadixTree<'a, K, V>
 {
     fn from(value: &'a ArchivedLazyRadixTree<K, V>) -> Self {
-        let children = value.children().iter().map(Self::from).collect::<Vec<_>>();
-        let children = Lazy::initialized(Arc::new(children));
         LazyRadixTree {
             prefix: value.prefix().into(),
             value: value.value().cloned(),
-            children,
+            children: Lazy::uninitialized(value.children()),
         }
     }
 }
-- 
2.43.0


From b26a405f1172b692d7eaa184b8fb347444e95ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:00 +0000
Subject: [PATCH 14/15] fix: into_iter of radix trees yields references that
 outlive the tree

---
 src/radix_tree/mod.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/radix_tree/mod.rs b/src/radix_tree/mod.rs
index 79e2e58..e7dbff1 100644
--- a/src/radix_tree/mod.rs
+++ b/src/radix_tree/mod.rs
@@ -594,9 +594,9 @@ pub trait AbstractRadixTree<K: TKey, V: TValue>: Sized {
         Iter::new(self, IterKey::new(self.prefix()))
     }
 
-    /// iterate over all elements
+    /// iterate over all elements, with cloned values
     fn into_iter(self) -> ObjAndIter<Self, Iter<'static, K, V, Self>> {
-        ObjAndIter::new(Box::new(self), |x| x.iter())
+        ObjAndIter::new(Arc::new(self), |x| x.iter())
     }
 
     /// iterate over all values - this is cheaper than iterating over elements, since it does not have to build the keys from fragments
@@ -1918,22 +1918,29 @@ fn location<T>(x: &T) -> usize {
 ///
 /// This is a quick way to implement into_iter in terms of iter.
 pub struct ObjAndIter<K, V> {
-    k: Box<K>,
+    // not a box, which would have to be the only way to access the object
+    k: Arc<K>,
     v: V,
 }
 
 impl<K: 'static, V> ObjAndIter<K, V> {
-    fn new(k: Box<K>, f: impl Fn(&'static K) -> V) -> Self {
+    fn new(k: Arc<K>, f: impl Fn(&'static K) -> V) -> Self {
         let kr = unsafe { std::mem::transmute(k.as_ref()) };
         let v = f(kr);
         Self { k, v }
     }
 }
 
-impl<K: 'static, V: Iterator> Iterator for ObjAndIter<K, V> {
-    type Item = V::Item;
+impl<K, V, T> Iterator for ObjAndIter<T, Iter<'static, K, V, T>>
+where
+    K: TKey,
+    V: TValue,
+    T: AbstractRadixTree<K, V> + 'static,
+{
+    type Item = (IterKey<K>, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.v.next()
+        // the references we get are only valid as long as the object exists, so they must not get out
+        self.v.next().map(|(k, v)| (k, v.clone()))
     }
 }
-- 
2.43.0


From 3854e62c68f33854820b9e102fda435185b5a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 15/15] fix: inner_join of btree maps always walked the right
 side, however large

The iterator over either kind of map gave no size hint, so the choice of
the smaller side to iterate was never made.
---
 src/btree_map.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/btree_map.rs b/src/btree_map.rs
index c423ce9..3df4c08 100644
--- a/src/btree_map.rs
+++ b/src/btree_map.rs
@@ -23,6 +23,13 @@ impl<'a, K, V> Iterator for AbstractBTreeMapIter<'a, K, V> {
             AbstractBTreeMapIter::ArchivedBTreeMap(x) => x.next(),
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        match self {
+            AbstractBTreeMapIter::BTreeMap(x) => x.size_hint(),
+            AbstractBTreeMapIter::ArchivedBTreeMap(x) => x.size_hint(),
+        }
+    }
 }
 
 impl<K, V> AbstractBTreeMap<K, V> for BTreeMap<K, V> {
-- 
2.43.0

