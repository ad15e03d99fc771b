From 25b31b4517430705eb7b47f884bab041bace7505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:58 +0000
Subject: [PATCH 1/4] fix: tie the closure lifetime of modify and
 modify_max_with_prefix to the borrow of the map

---
 src/rbtree.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index 2345d59..ab47432 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -345,7 +345,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Updates the value corresponding to the specified key.
     #[inline]
-    pub fn modify<'a, Q: ?Sized, T>(&mut self, key: &Q, f: impl FnOnce(&'a mut V) -> T) -> Option<T>
+    pub fn modify<'a, Q: ?Sized, T>(
+        &'a mut self,
+        key: &Q,
+        f: impl FnOnce(&'a mut V) -> T,
+    ) -> Option<T>
     where
         K: Borrow<Q>,
         Q: Ord,
@@ -386,7 +390,7 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
 
     /// Modify the maximum node with the given prefix.
     pub fn modify_max_with_prefix<'a, P: ?Sized, T>(
-        &mut self,
+        &'a mut self,
         prefix: &P,
         f: impl FnOnce(&'a K, &'a mut V) -> T,
     ) -> Option<T>
-- 
2.43.0


From 4c06972870ab1b47188ae862f0c27c060970c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 2/4] fix: refresh the hashes when Entry::and_modify changes a
 value

---
 src/rbtree/entry.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rbtree/entry.rs b/src/rbtree/entry.rs
index 216f42c..35dff3e 100644
--- a/src/rbtree/entry.rs
+++ b/src/rbtree/entry.rs
@@ -104,8 +104,8 @@ impl<'a, K: 'static + Label, V: AsHashTree + 'static> Entry<'a, K, V> {
         F: FnOnce(&mut V),
     {
         match self {
-            Occupied(mut entry) => {
-                f(entry.get_mut());
+            Occupied(entry) => {
+                entry.map.modify(&entry.key, f);
                 Occupied(entry)
             }
             Vacant(entry) => Vacant(entry),
-- 
2.43.0


From 3375d4d1a9d74f68378be0958a7b1215b84d326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 3/4] fix: start prefix witnesses at the first key equal to the
 prefix

---
 src/rbtree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rbtree.rs b/src/rbtree.rs
index ab47432..c84a892 100644
--- a/src/rbtree.rs
+++ b/src/rbtree.rs
@@ -769,7 +769,11 @@ impl<K: 'static + Label, V: AsHashTree + 'static> RbTree<K, V> {
             let node_key = &(*n).key;
             match node_key.borrow().cmp(key) {
                 Less => go((*n).right, key).or(Some(KeyBound::Neighbor(node_key))),
-                Equal => Some(KeyBound::Exact(node_key)),
+                // Several keys may be equal to a borrowed form, return the smallest one.
+                Equal => match go((*n).left, key) {
+                    Some(KeyBound::Exact(k)) => Some(KeyBound::Exact(k)),
+                    _ => Some(KeyBound::Exact(node_key)),
+                },
                 Greater => go((*n).left, key),
             }
         }
-- 
2.43.0


From 0e7facc99be04a76e3dc5d8520d00464f77de15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:35 +0000
Subject: [PATCH 4/4] fix: do not truncate page numbers to 32 bits

---
 src/collections/paged.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collections/paged.rs b/src/collections/paged.rs
index c888db2..c25deea 100644
--- a/src/collections/paged.rs
+++ b/src/collections/paged.rs
@@ -3,6 +3,7 @@ use crate::{AsHashTree, Hash, HashTree, Map, Seq};
 use candid::CandidType;
 use serde::{Deserialize, Serialize};
 use std::borrow::{Borrow, Cow};
+use std::convert::TryFrom;
 
 #[derive(CandidType, Serialize, Deserialize, Debug)]
 pub struct Paged<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> {
@@ -92,7 +93,7 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     }
 
     pub fn get(&self, key: &K, page: usize) -> Option<&Seq<V>> {
-        let page = page as u32;
+        let page = u32::try_from(page).ok()?;
         let key = (key, page);
         self.data.inner.get_with(|k| key.cmp(&(&k.key, k.page)))
     }
@@ -104,7 +105,8 @@ impl<K: Label + Ord + 'static, V: AsHashTree + 'static, const S: usize> Paged<K,
     {
         let key = PagedKey {
             key: key.clone(),
-            page: page as u32,
+            // Page numbers are 32 bits wide, larger ones are never in use.
+            page: u32::try_from(page).unwrap_or(u32::MAX),
         };
         self.data.witness(&key)
     }
-- 
2.43.0

