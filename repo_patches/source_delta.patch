From 1804d17358cdbefe3f924fa56c641dc7eb1107e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:47 +0000
Subject: [PATCH 01/16] fix: splitting a node of odd length keeps every entry
 exactly once

Leaf::split and Branch::split gave the right half length/2 entries although
length - length/2 were moved there, and left the middle entry in both halves'
accounting, so with odd node sizes entries were lost and dropped twice.
---
 src/branch.rs | 4 ++--
 src/leaf.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index bb38284..3a43d51 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -322,11 +322,11 @@ where
             let half = this.len() / 2;
             let right = Pointer::new(Branch {
                 has_branches: this.has_branches,
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 children: unsafe { Array::steal_from(&mut this.children, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
diff --git a/src/leaf.rs b/src/leaf.rs
index 02ae673..ba3a21f 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -102,11 +102,11 @@ where
             let this = Pointer::make_mut(&mut this);
             let half = this.length / 2;
             let right = Pointer::new(Leaf {
-                length: half,
+                length: this.length - half,
                 keys: unsafe { Array::steal_from(&mut this.keys, this.length, half) },
                 values: unsafe { Array::steal_from(&mut this.values, this.length, half) },
             });
-            this.length -= half;
+            this.length = half;
             right
         };
         (this, right)
-- 
2.43.0


From 88b65211ad776d784c2ce31836c949ec43145e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 02/16] fix: insert_recursive into an emptied tree starts from
 a fresh root

After the last entry of a tree of three or more levels is removed, the
remaining root holds branches; pushing a leaf into it panicked in checked
builds and confused the child types in others.
---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9989c59..18babfb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -406,11 +406,8 @@ where
             // Tree walking algos assume the tree has no empty nodes, so we have to
             // handle this as a special case.
             if len == 0 {
-                // Make sure the delete trimmed the tree properly.
-                debug_assert_eq!(0, root_ref.len());
-                debug_assert!(root_ref.has_leaves());
-
-                root_ref.push_leaf(key.clone(), Pointer::new(Leaf::unit(key, value)));
+                // The root may still be one that holds branches, so it can't take a leaf as it is.
+                *root_ref = Branch::unit(Pointer::new(Leaf::unit(key, value)));
                 self.size = 1;
                 None
             } else {
-- 
2.43.0


From 7f703e6571259849f9bf7c7f9826bae821d1baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 03/16] fix: insert_recursive retries recursively after growing
 the root

The descent has already raised the right edge keys to the new key, which the
cursor based insert does not expect: it asserts that the key is above them.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 18babfb..36d1e57 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -423,7 +423,7 @@ where
                         let key2 = root_ref.highest().clone();
                         let child = std::mem::replace(root_ref, Branch::new(true));
                         root_ref.push_branch(key2, Pointer::new(child));
-                        self.insert(key, value)
+                        self.insert_recursive(key, value)
                     }
                 }
             }
-- 
2.43.0


From 0455c86b92e7af5b3bc6fac33281d00cfbef5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 04/16] fix: SyncShared dereferences its Arc as an Arc

It read the Arc as a Box, so every access was off by the reference counts.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 05102f5..d520369 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -147,7 +147,7 @@ impl PointerKind for SyncShared {
     }
 
     unsafe fn deref<A>(&self) -> &A {
-        (*self.data.as_ptr().cast::<Box<A>>()).deref()
+        (*self.data.as_ptr().cast::<Arc<A>>()).deref()
     }
 
     unsafe fn make_mut<A: Clone>(&mut self) -> &mut A {
-- 
2.43.0


From 3c842d659988c1703bad40be347db6d1d3e33669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 05/16] fix: removing a branch's last child lowers the keys
 above it

A branch's key in its parent has to equal the branch's own highest key:
searches take the child the parent's key promises and give up if the child's
keys are all lower. Removal left the parents' keys high, after which ranges
starting there came out empty and insertions there landed at the far right.
---
 src/search.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/search.rs b/src/search.rs
index ad73548..1265813 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -431,6 +431,19 @@ where
                     branch.remove_branch(index);
                 }
                 if !branch.is_empty() {
+                    if index == branch.len() {
+                        // The branch lost its last child, so the keys above it have to come down
+                        // to what is now its highest key, or searches will be led astray.
+                        let highest = branch.highest();
+                        while let Some((parent, index)) = self.stack.pop() {
+                            let parent = &mut *(parent as *mut Branch<K, V, C>);
+                            let index = index as usize;
+                            parent.keys_mut()[index] = highest.clone();
+                            if index + 1 < parent.len() {
+                                break;
+                            }
+                        }
+                    }
                     break;
                 }
             }
-- 
2.43.0


From 7c04d9c333f79619e0e813d947cd1be768cf454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 06/16] fix: an inclusive end bound at an absent key excludes
 the next higher key

key_or_lower looked up the key or the next higher one.
---
 src/search.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 1265813..5907ff3 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -247,8 +247,15 @@ where
         if let Some((path, leaf)) = path_for(tree, key) {
             let mut ptr = Self::null();
             ptr.stack = path;
-            ptr.index = find_key_or_next(leaf.keys(), key);
+            ptr.index = find_key_or_prev(leaf.keys(), key);
             ptr.leaf = leaf;
+            // If every value in the leaf is higher than key, the one we want ends the leaf before it.
+            unsafe {
+                if ptr.key_unchecked() > key && !ptr.step_back() {
+                    // If we can't step back, we were at the lowest key already, so the iterator is empty.
+                    return Self::null();
+                }
+            }
             ptr
         } else {
             // No target node for end bound means it's past the largest key, so get a path to the end of the tree.
-- 
2.43.0


From 559ec845b06d5de510d9a6cbc1fe065702ca8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 07/16] fix: an exclusive start bound skips a leaf whose keys
 are all lower

higher_than_key only stepped on from an equal key, but the leaf it arrives at
may hold only lower keys once its highest have been removed.
---
 src/search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/search.rs b/src/search.rs
index 5907ff3..2035da4 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -230,8 +230,9 @@ where
             ptr.stack = path;
             ptr.index = find_key_or_next(leaf.keys(), key);
             ptr.leaf = leaf;
+            // As in key_or_higher, the whole leaf may be lower than `key`.
             unsafe {
-                if leaf.keys().get_unchecked(ptr.index) == key && !ptr.step_forward() {
+                if leaf.keys().get_unchecked(ptr.index) <= key && !ptr.step_forward() {
                     // If we can't step forward, we were at the highest key already, so the iterator is empty.
                     return Self::null();
                 }
-- 
2.43.0


From 619af53c5f271731af9e7477d330e00af9b2f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 08/16] fix: OwnedIter::next_back steps its own end of the
 iterator

It stepped the front cursor, so it never got past the last leaf and looped
forever once that was empty; and it must not step onto leaves that the front
has already emptied.
---
 src/iter/owned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index fe622e0..69220bb 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -78,7 +78,7 @@ where
     C: TreeConfig<K, V>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.tree.is_none() {
+        if self.tree.is_none() || self.remaining == 0 {
             return None;
         }
         loop {
@@ -87,7 +87,7 @@ where
                 Some(leaf) => leaf,
             };
             if leaf.is_empty() {
-                unsafe { self.left.step_back() };
+                unsafe { self.right.step_back() };
             } else {
                 self.remaining -= 1;
                 return leaf.pop_back();
-- 
2.43.0


From c86c30059ec60bd574e378f1ba79fc9e468a0545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 09/16] fix: load validates the order of its input in debug
 builds

The record of the last key was only updated once there was one, so
nothing was ever compared.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 36d1e57..eef0154 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -135,8 +135,8 @@ where
                     if last_key >= key {
                         panic!("PalmTree::load: unordered key at index {}", last_index);
                     }
-                    last_record = (last_index + 1, Some(key.clone()));
                 }
+                last_record = (size, Some(key.clone()));
             }
 
             if leaf.is_full() {
-- 
2.43.0


From 9dd69ec2ab514804cc2721638eb1329c79b9cf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 10/16] fix: copy a shared root before changing or consuming a
 tree

entry, remove, remove_lowest, remove_highest, iter_mut, range_mut and
into_iter went to work on nodes that clones of the tree may share.
---
 src/entry.rs         |  7 +++++--
 src/iter/mut_iter.rs |  7 ++++++-
 src/iter/owned.rs    | 15 +++++++++-----
 src/lib.rs           | 48 ++++++++++++++++++++++++++++++++++----------
 4 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/src/entry.rs b/src/entry.rs
index bd227de..771071a 100644
--- a/src/entry.rs
+++ b/src/entry.rs
@@ -20,9 +20,12 @@ where
     C: TreeConfig<K, V>,
 {
     #[inline(always)]
-    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self {
+    pub(crate) fn new(tree: &'a mut PalmTree<K, V, C>, key: K) -> Self
+    where
+        V: Clone,
+    {
         if let Some(ref mut root) = tree.root {
-            match PathedPointer::exact_key(root, &key) {
+            match PathedPointer::exact_key(Pointer::make_mut(root), &key) {
                 Ok(cursor) => Self::Occupied(OccupiedEntry { tree, cursor }),
                 Err(cursor) => Self::Vacant(VacantEntry { key, tree, cursor }),
             }
diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index ef7e3b2..c8258fc 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -1,5 +1,5 @@
 use super::paths_from_range;
-use crate::{config::TreeConfig, search::PathedPointer, PalmTree};
+use crate::{config::TreeConfig, pointer::Pointer, search::PathedPointer, PalmTree};
 use std::{
     cmp::Ordering,
     fmt::{Debug, Formatter},
@@ -41,8 +41,13 @@ where
     /// ```
     pub(crate) fn new<R>(tree: &'a mut PalmTree<K, V, C>, range: R) -> Self
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
+        // A root shared with another tree must be copied before we hand out references into it.
+        if let Some(ref mut root) = tree.root {
+            Pointer::make_mut(root);
+        }
         if let Some((left, right)) = paths_from_range(tree, range) {
             Self { left, right }
         } else {
diff --git a/src/iter/owned.rs b/src/iter/owned.rs
index 69220bb..686ac06 100644
--- a/src/iter/owned.rs
+++ b/src/iter/owned.rs
@@ -20,13 +20,18 @@ where
     C: TreeConfig<K, V>,
 {
     pub(crate) fn new(
-        tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
+        mut tree: Option<Pointer<Branch<K, V, C>, C::PointerKind>>,
         remaining: usize,
-    ) -> Self {
-        if let Some(ref root) = tree {
+    ) -> Self
+    where
+        V: Clone,
+    {
+        if let Some(ref mut root) = tree {
+            // We're going to move entries out of the nodes, so they mustn't be shared with another tree.
+            let root = Pointer::make_mut(root);
             Self {
-                left: PathedPointer::lowest(&root),
-                right: PathedPointer::highest(&root),
+                left: PathedPointer::lowest(root),
+                right: PathedPointer::highest(root),
                 tree,
                 remaining,
             }
diff --git a/src/lib.rs b/src/lib.rs
index eef0154..aad7de2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -229,7 +229,10 @@ where
         Iter::new(self, ..)
     }
 
-    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C> {
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V, C>
+    where
+        V: Clone,
+    {
         IterMut::new(self, ..)
     }
 
@@ -242,12 +245,16 @@ where
 
     pub fn range_mut<R>(&mut self, range: R) -> IterMut<'_, K, V, C>
     where
+        V: Clone,
         R: RangeBounds<K>,
     {
         IterMut::new(self, range)
     }
 
-    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C> {
+    pub fn entry(&mut self, key: K) -> Entry<'_, K, V, C>
+    where
+        V: Clone,
+    {
         Entry::new(self, key)
     }
 
@@ -264,9 +271,12 @@ where
         }
     }
 
-    pub fn remove(&mut self, key: &K) -> Option<(K, V)> {
-        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(self.root.as_mut()?, key)
-        {
+    pub fn remove(&mut self, key: &K) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
+        let root = Pointer::make_mut(self.root.as_mut()?);
+        if let Ok(path) = PathedPointer::<&mut (K, V), _, _, _>::exact_key(root, key) {
             self.size -= 1;
             Some(unsafe { path.remove() })
         } else {
@@ -274,21 +284,29 @@ where
         }
     }
 
-    pub fn remove_lowest(&mut self) -> Option<(K, V)> {
+    pub fn remove_lowest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::lowest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
     }
 
-    pub fn remove_highest(&mut self) -> Option<(K, V)> {
+    pub fn remove_highest(&mut self) -> Option<(K, V)>
+    where
+        V: Clone,
+    {
         if self.is_empty() {
             None
         } else {
-            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(self.root.as_mut()?);
+            let root = Pointer::make_mut(self.root.as_mut()?);
+            let path = PathedPointer::<&mut (K, V), _, _, _>::highest(root);
             self.size -= 1;
             Some(unsafe { path.remove() })
         }
@@ -318,7 +336,10 @@ where
         )
     }
 
-    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_left_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_left_from(left.into_iter(), right.into_iter())
     }
 
@@ -329,7 +350,10 @@ where
         Self::load(Self::merge_left_iter(left, right))
     }
 
-    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)> {
+    pub fn merge_right_iter(left: Self, right: Self) -> impl Iterator<Item = (K, V)>
+    where
+        V: Clone,
+    {
         Self::merge_right_from(left.into_iter(), right.into_iter())
     }
 
@@ -678,6 +702,7 @@ where
 impl<'a, K, V, C> IntoIterator for &'a mut PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (&'a K, &'a mut V);
@@ -690,6 +715,7 @@ where
 impl<K, V, C> IntoIterator for PalmTree<K, V, C>
 where
     K: Ord + Clone,
+    V: Clone,
     C: TreeConfig<K, V>,
 {
     type Item = (K, V);
-- 
2.43.0


From 76aa5defc195b580de42e5ae968b339e92648e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:27 +0000
Subject: [PATCH 11/16] fix: a tree crosses threads only when its contents may

---
 src/pointer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index d520369..e0eace4 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -168,8 +168,11 @@ pub(crate) struct Pointer<A, Kind: PointerKind> {
     kind: PhantomData<A>,
 }
 
-unsafe impl<A, Kind> Send for Pointer<A, Kind> where Kind: PointerKind + Send {}
-unsafe impl<A, Kind> Sync for Pointer<A, Kind> where Kind: PointerKind + Sync {}
+// A `Pointer` is a `Box`, an `Rc` or an `Arc`, and crosses threads under the same conditions.
+unsafe impl<A> Send for Pointer<A, Unique> where A: Send {}
+unsafe impl<A> Sync for Pointer<A, Unique> where A: Sync {}
+unsafe impl<A> Send for Pointer<A, SyncShared> where A: Send + Sync {}
+unsafe impl<A> Sync for Pointer<A, SyncShared> where A: Send + Sync {}
 
 impl<A, Kind: PointerKind> Pointer<A, Kind> {
     fn from_data(data: Kind) -> Self {
-- 
2.43.0


From 2cb4d855773ff4ad59217bb7a0b56b0ca9887d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:00 +0000
Subject: [PATCH 12/16] fix: cast pointers without going through the address of
 their data

---
 src/pointer.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index e0eace4..90e0d4c 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -186,16 +186,6 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         Self::from_data(unsafe { Kind::new(value) })
     }
 
-    pub(crate) fn into_raw(mut this: Self) -> NonNull<A> {
-        let ptr = unsafe { ManuallyDrop::take(&mut this.data).into_raw::<A>() };
-        std::mem::forget(this);
-        ptr
-    }
-
-    pub(crate) unsafe fn from_raw(ptr: NonNull<A>) -> Self {
-        Self::from_data(Kind::from_raw::<A>(ptr))
-    }
-
     pub(crate) fn make_mut(this: &mut Self) -> &mut A
     where
         A: Clone,
@@ -203,8 +193,12 @@ impl<A, Kind: PointerKind> Pointer<A, Kind> {
         unsafe { this.data.make_mut::<A>() }
     }
 
-    pub(crate) unsafe fn cast_into<B>(this: Self) -> Pointer<B, Kind> {
-        Pointer::from_raw(Self::into_raw(this).cast())
+    pub(crate) unsafe fn cast_into<B>(mut this: Self) -> Pointer<B, Kind> {
+        // `Kind` doesn't know its type, so we can just move it. Casting a pointer to its data wouldn't do,
+        // because where in its allocation an `Rc` or `Arc` keeps its data depends on the type's alignment.
+        let data = ManuallyDrop::take(&mut this.data);
+        std::mem::forget(this);
+        Pointer::from_data(data)
     }
 
     pub(crate) unsafe fn deref_cast<B>(this: &Self) -> &B {
-- 
2.43.0


From 454230912d2fdeec80183b6284df5b7c3d7336fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 13/16] fix: cursors can hold the path into a tree of more than
 sixteen levels

---
 src/search.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/search.rs b/src/search.rs
index 2035da4..783d40a 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -5,8 +5,9 @@ use std::{
     marker::PhantomData,
 };
 
-// type PtrPath<K, V, C> = Chunk<(*const Branch<K, V, C>, isize), U16>; // FIXME hardcoded max height of 16
-type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 16]>;
+// A tree of the smallest node size gains a level with every doubling of the number of insertions,
+// so this is more than any tree can reach.
+type PtrPath<K, V, C> = ArrayVec<[(*const Branch<K, V, C>, isize); 48]>;
 
 pub(crate) fn find_key_linear<K>(keys: &[K], target: &K) -> Option<usize>
 where
-- 
2.43.0


From 66ec41c7e172de3498693c7c8910b8e690512ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 14/16] fix: refuse node sizes of three and less

IsGreater is implemented for smaller numbers too, and says so in its output. Configurations
with nodes that have no room for an entry were accepted, and wrote outside of them.
---
 src/config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index b2de38b..be2ba50 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,11 +1,11 @@
 use crate::{branch::node::Node, PointerKind};
 use generic_array::ArrayLength;
 use std::marker::PhantomData;
-use typenum::{IsGreater, U3, U64};
+use typenum::{IsGreater, True, U3, U64};
 
 pub trait TreeConfig<K, V> {
-    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3>;
-    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3>;
+    type BranchSize: ArrayLength<K> + ArrayLength<Node<K, V, Self>> + IsGreater<U3, Output = True>;
+    type LeafSize: ArrayLength<K> + ArrayLength<V> + IsGreater<U3, Output = True>;
     type PointerKind: PointerKind;
 }
 
-- 
2.43.0


From ca696840cac45f751cfbcc8e9bd86bd37d879946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 15/16] fix: mutable iterators never hand out an entry twice

With keys that don't order consistently, the two ends could pass each other, which made two
mutable references to the same value.
---
 src/iter/mut_iter.rs | 16 ++++++++++++++--
 src/search.rs        |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/iter/mut_iter.rs b/src/iter/mut_iter.rs
index c8258fc..df3eb24 100644
--- a/src/iter/mut_iter.rs
+++ b/src/iter/mut_iter.rs
@@ -101,7 +101,13 @@ where
         let left_key = self.left_key()?;
         let right_key = self.right_key()?;
         // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
+        // No entry may be handed out twice, even if the keys aren't in order, so where
+        // the ends meet isn't left to the keys alone.
+        let cmp = if self.left.is_same_entry(&self.right) {
+            Ordering::Equal
+        } else {
+            left_key.cmp(right_key)
+        };
         if cmp == Ordering::Greater {
             self.left.clear();
             self.right.clear();
@@ -128,7 +134,13 @@ where
         let left_key = self.left_key()?;
         let right_key = self.right_key()?;
         // If left key is greather than right key, we're done.
-        let cmp = left_key.cmp(right_key);
+        // No entry may be handed out twice, even if the keys aren't in order, so where
+        // the ends meet isn't left to the keys alone.
+        let cmp = if self.left.is_same_entry(&self.right) {
+            Ordering::Equal
+        } else {
+            left_key.cmp(right_key)
+        };
         if cmp == Ordering::Greater {
             self.left.clear();
             self.right.clear();
diff --git a/src/search.rs b/src/search.rs
index 783d40a..e8cb5d4 100644
--- a/src/search.rs
+++ b/src/search.rs
@@ -600,6 +600,10 @@ where
         self.leaf.is_null()
     }
 
+    pub(crate) fn is_same_entry(&self, other: &Self) -> bool {
+        self.leaf == other.leaf && self.index == other.index
+    }
+
     pub(crate) unsafe fn deref_leaf_unchecked<'a>(&'a self) -> &'a Leaf<K, V, C> {
         &*self.leaf
     }
-- 
2.43.0


From 100a28fdd67a23db6120f8af5b5d2ec5a3e7e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:54 +0000
Subject: [PATCH 16/16] fix: the tree_debug feature builds

Its Debug impl for trees asks for debuggable keys and values only, but relied on one
of branches that also wanted them to be clonable.
---
 src/branch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/branch.rs b/src/branch.rs
index 3a43d51..ff052e8 100644
--- a/src/branch.rs
+++ b/src/branch.rs
@@ -474,8 +474,8 @@ where
 
 impl<K, V, C> Branch<K, V, C>
 where
-    K: Clone + Debug,
-    V: Clone + Debug,
+    K: Debug,
+    V: Debug,
     C: TreeConfig<K, V>,
 {
     fn tree_fmt(&self, f: &mut Formatter<'_>, level: usize) -> Result<(), Error> {
@@ -503,8 +503,8 @@ where
 
 impl<K, V, C> Debug for Branch<K, V, C>
 where
-    K: Clone + Debug,
-    V: Clone + Debug,
+    K: Debug,
+    V: Debug,
     C: TreeConfig<K, V>,
 {
     fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), Error> {
-- 
2.43.0

