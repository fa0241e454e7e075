From e28e50265d97ae4262e7c139eb91acc288730516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:27 +0000
Subject: [PATCH 01/36] fix: skiplist links are addressed through a
 bounds-checked zero-length array

get_unchecked on the zero-length links array is undefined behaviour for every
index; optimised builds turn SkipMap's drop into unreachable code. Compute the
address of a link with pointer arithmetic instead.
---
 src/skiplist/list.rs | 12 ++++++------
 src/skiplist/map.rs  | 30 +++++++++++++++---------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 8689be6..921a24f 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -30,11 +30,11 @@ impl<T> Node<T> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &Link<T> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut Link<T> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -51,7 +51,7 @@ impl<T> Node<T> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -439,7 +439,7 @@ impl<T> SkipList<T> {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -516,9 +516,9 @@ impl<T> IntoIterator for SkipList<T> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: (*self.head).links.get_unchecked_mut(0).next,
+                current: (*self.head).get_pointer(0).next,
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index f191732..15648f8 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -26,11 +26,11 @@ impl<T, U> Node<T, U> {
     }
 
     pub fn get_pointer(&self, height: usize) -> &*mut Node<T, U> {
-        unsafe { self.links.get_unchecked(height) }
+        unsafe { &*self.links.as_ptr().add(height) }
     }
 
     pub fn get_pointer_mut(&mut self, height: usize) -> &mut *mut Node<T, U> {
-        unsafe { self.links.get_unchecked_mut(height) }
+        unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
     fn get_size_in_u64s(links_len: usize) -> usize {
@@ -47,7 +47,7 @@ impl<T, U> Node<T, U> {
         mem::forget(v);
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
-        ptr::write_bytes((*ptr).links.get_unchecked_mut(0), 0, links_len);
+        ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
         ptr
     }
 
@@ -396,7 +396,7 @@ impl<T, U> SkipMap<T, U> {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
@@ -589,8 +589,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -626,7 +626,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -681,8 +681,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -723,7 +723,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -756,8 +756,8 @@ impl<T, U> SkipMap<T, U> {
             let left_head = mem::replace(&mut left.head, next_left_node);
             let next_right_node = *(*right.head).get_pointer(0);
             let right_head = mem::replace(&mut right.head, next_right_node);
-            ptr::write_bytes((*left_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
-            ptr::write_bytes((*right_head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*left_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*right_head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
 
             loop {
                 let next_node;
@@ -805,7 +805,7 @@ impl<T, U> SkipMap<T, U> {
                 ret.len += 1;
 
                 ptr::write_bytes(
-                    (*next_node).links.get_unchecked_mut(0),
+                    (*next_node).links.as_mut_ptr(),
                     0,
                     (*next_node).links_len,
                 );
@@ -956,9 +956,9 @@ impl<T, U> IntoIterator for SkipMap<T, U> {
     fn into_iter(self) -> Self::IntoIter {
         unsafe {
             let ret = Self::IntoIter {
-                current: *(*self.head).links.get_unchecked_mut(0),
+                current: *(*self.head).get_pointer(0),
             };
-            ptr::write_bytes((*self.head).links.get_unchecked_mut(0), 0, MAX_HEIGHT + 1);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             ret
         }
     }
-- 
2.43.0


From 80f95cb5b8e05308a9dd843ffc825cf16576c517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:33 +0000
Subject: [PATCH 02/36] fix: consuming skiplist iterators drop their remaining
 elements twice

---
 src/skiplist/list.rs | 1 -
 src/skiplist/map.rs  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 921a24f..c5dfdf2 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -576,7 +576,6 @@ impl<T> Drop for SkipListIntoIter<T> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).value);
                 let next_node = (*self.current).get_pointer(0).next;
                 Node::free(mem::replace(&mut self.current, next_node));
             }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 15648f8..c79ef9c 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1018,7 +1018,6 @@ impl<T, U> Drop for SkipMapIntoIter<T, U> {
     fn drop(&mut self) {
         unsafe {
             while !self.current.is_null() {
-                ptr::drop_in_place(&mut (*self.current).entry);
                 let next_node = *(*self.current).get_pointer(0);
                 Node::free(mem::replace(&mut self.current, next_node));
             }
-- 
2.43.0


From 71dd605642d5ff0beadaec0ab7a9537905ad8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:51 +0000
Subject: [PATCH 03/36] fix: skiplist difference follows the null right list
 instead of the left tail

---
 src/skiplist/map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index c79ef9c..62e3df9 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -798,8 +798,8 @@ impl<T, U> SkipMap<T, U> {
                         }
                     }
                     (false, true) => {
-                        let next_right_node = *(*right.head).get_pointer(0);
-                        next_node = mem::replace(&mut right.head, next_right_node);
+                        let next_left_node = *(*left.head).get_pointer(0);
+                        next_node = mem::replace(&mut left.head, next_left_node);
                     }
                 }
                 ret.len += 1;
-- 
2.43.0


From dec3c8b24fa3ee00ddc108f9c8b6d7a6e7181923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:10 +0000
Subject: [PATCH 04/36] fix: skiplist intersection writes one link past the end
 of a node

---
 src/skiplist/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 62e3df9..0deda0a 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -729,7 +729,7 @@ impl<T, U> SkipMap<T, U> {
                 );
 
                 let links_len = (*next_node).links_len;
-                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len + 1) {
+                for (i, curr_node) in curr_nodes.iter_mut().enumerate().take(links_len) {
                     *(**curr_node).get_pointer_mut(i) = next_node;
                     *curr_node = next_node;
                 }
-- 
2.43.0


From a3b72766321fd31797a43a6b53c0dee8e26d12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:24 +0000
Subject: [PATCH 05/36] fix: freeing a vacant arena slot loses the free list
 before panicking

---
 src/arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arena.rs b/src/arena.rs
index 264ad3d..4dc0ee7 100644
--- a/src/arena.rs
+++ b/src/arena.rs
@@ -138,6 +138,9 @@ impl<T> TypedArena<T> {
         if !self.is_valid_entry(entry) {
             panic!("Error: attempting to free invalid block.");
         }
+        if self.get(entry).is_none() {
+            panic!("Error: attempting to free vacant block.");
+        }
         let old_block = mem::replace(
             &mut self.chunks[entry.chunk_index][entry.block_index],
             Block::Vacant(self.head.take()),
-- 
2.43.0


From b5806b6aa940d9a2e56e6beffd2919ff5d7deac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:20 +0000
Subject: [PATCH 06/36] fix: removing from a SkipList leaves the widths of tail
 links too large

---
 src/skiplist/list.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index c5dfdf2..67bf179 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -214,20 +214,19 @@ impl<T> SkipList<T> {
                     curr_node = &mut mem::replace(&mut next_link, next_next_link).next;
                 }
 
-                if !next_link.next.is_null() {
-                    if next_link.distance == index + 1 {
-                        let Link { next, distance } = *next_link;
-                        mem::swap(next_link, (*next).get_pointer_mut(curr_height));
-                        next_link.distance += distance - 1;
-                        if curr_height == 0 {
-                            let ret = ptr::read(&(*next).value);
-                            Node::deallocate(next);
-                            self.len -= 1;
-                            return ret;
-                        }
-                    } else {
-                        next_link.distance -= 1;
+                if !next_link.next.is_null() && next_link.distance == index + 1 {
+                    let Link { next, distance } = *next_link;
+                    mem::swap(next_link, (*next).get_pointer_mut(curr_height));
+                    next_link.distance += distance - 1;
+                    if curr_height == 0 {
+                        let ret = ptr::read(&(*next).value);
+                        Node::deallocate(next);
+                        self.len -= 1;
+                        return ret;
                     }
+                } else {
+                    // the width of a tail link is the number of elements that follow its node
+                    next_link.distance -= 1;
                 }
 
                 curr_height -= 1;
-- 
2.43.0


From e56904b303b5e7da0663991459324baefdc4f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 07/36] fix: skiplist nodes ignore the alignment of their
 elements

---
 src/skiplist/list.rs | 21 +++++++++++++--------
 src/skiplist/map.rs  | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 67bf179..af78c52 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,5 +1,6 @@
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::mem;
 use std::ops::{Add, Index, IndexMut};
 use std::ptr;
@@ -37,18 +38,23 @@ impl<T> Node<T> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T>>();
         let link_size = mem::size_of::<Link<T>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + link_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + link_size * links_len,
+            mem::align_of::<Node<T>>(),
+        )
+        .expect("Error: invalid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -57,8 +63,7 @@ impl<T> Node<T> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 0deda0a..124beda 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,6 +1,7 @@
 use crate::entry::Entry;
 use rand::Rng;
 use rand::XorShiftRng;
+use std::alloc::{self, Layout};
 use std::borrow::Borrow;
 use std::cmp;
 use std::mem;
@@ -33,18 +34,23 @@ impl<T, U> Node<T, U> {
         unsafe { &mut *self.links.as_mut_ptr().add(height) }
     }
 
-    fn get_size_in_u64s(links_len: usize) -> usize {
+    fn get_layout(links_len: usize) -> Layout {
         let base_size = mem::size_of::<Node<T, U>>();
         let ptr_size = mem::size_of::<*mut Node<T, U>>();
-        let u64_size = mem::size_of::<u64>();
 
-        (base_size + ptr_size * links_len + u64_size - 1) / u64_size
+        Layout::from_size_align(
+            base_size + ptr_size * links_len,
+            mem::align_of::<Node<T, U>>(),
+        )
+        .expect("Error: invalid node layout.")
     }
 
     unsafe fn allocate(links_len: usize) -> *mut Self {
-        let mut v = Vec::<u64>::with_capacity(Self::get_size_in_u64s(links_len));
-        let ptr = v.as_mut_ptr() as *mut Node<T, U>;
-        mem::forget(v);
+        let layout = Self::get_layout(links_len);
+        let ptr = alloc::alloc(layout) as *mut Node<T, U>;
+        if ptr.is_null() {
+            alloc::handle_alloc_error(layout);
+        }
         ptr::write(&mut (*ptr).links_len, links_len);
         // fill with null pointers
         ptr::write_bytes((*ptr).links.as_mut_ptr(), 0, links_len);
@@ -53,8 +59,7 @@ impl<T, U> Node<T, U> {
 
     unsafe fn deallocate(ptr: *mut Self) {
         let links_len = (*ptr).links_len;
-        let cap = Self::get_size_in_u64s(links_len);
-        drop(Vec::from_raw_parts(ptr as *mut u64, 0, cap));
+        alloc::dealloc(ptr as *mut u8, Self::get_layout(links_len));
     }
 
     unsafe fn free(ptr: *mut Self) {
-- 
2.43.0


From f832659c8192791572c0d6ff62981e6679aabcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:56 +0000
Subject: [PATCH 08/36] fix: removing the successor from an avl subtree leaves
 the tree unbalanced

---
 src/avl_tree/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avl_tree/tree.rs b/src/avl_tree/tree.rs
index 9809776..8e4bf1b 100644
--- a/src/avl_tree/tree.rs
+++ b/src/avl_tree/tree.rs
@@ -44,7 +44,9 @@ fn balance<T, U>(tree: &mut Tree<T, U>) {
 fn remove_min<T, U>(tree: &mut Tree<T, U>) -> Box<Node<T, U>> {
     if let Some(ref mut node) = tree {
         if node.left.is_some() {
-            return remove_min(&mut node.left);
+            let ret = remove_min(&mut node.left);
+            balance(tree);
+            return ret;
         }
     }
 
-- 
2.43.0


From 2e5a9f3226e54cadcd87ec9937fb29095016caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:01 +0000
Subject: [PATCH 09/36] fix: TreapList::get and get_mut overflow on the largest
 index

---
 src/treap/list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/treap/list.rs b/src/treap/list.rs
index ef672dd..20dba1e 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -181,7 +181,7 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(1), None);
     /// ```
     pub fn get(&self, index: usize) -> Option<&T> {
-        implicit_tree::get(&self.tree, index + 1)
+        implicit_tree::get(&self.tree, index.checked_add(1)?)
     }
 
     /// Returns a mutable reference to the value at a particular index. Returns `None` if the
@@ -198,7 +198,7 @@ impl<T> TreapList<T> {
     /// assert_eq!(list.get(0), Some(&2));
     /// ```
     pub fn get_mut(&mut self, index: usize) -> Option<&mut T> {
-        implicit_tree::get_mut(&mut self.tree, index + 1)
+        implicit_tree::get_mut(&mut self.tree, index.checked_add(1)?)
     }
 
     /// Returns the number of elements in the list.
-- 
2.43.0


From c24ca3768e797bdcc0148810b2149aaa7b0fe099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:35 +0000
Subject: [PATCH 10/36] fix: removing keys destroys the radix root

---
 src/radix/tree.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index 980fefd..aa22063 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -60,17 +60,23 @@ pub fn remove<T>(tree: &mut Tree<T>, key: &[u8], mut index: usize) -> Option<(Ve
                     index += node.key.len();
                     let byte = key[index];
                     ret = remove(node.get_mut(byte), key, index);
-                    node.merge();
-                    if node.value.is_none() && node.is_leaf() {
-                        next_tree = Some(node.get_replacement_tree());
+                    // the root always stays and keeps its empty key
+                    if !node.key.is_empty() {
+                        node.merge();
+                        if node.value.is_none() && node.is_leaf() {
+                            next_tree = Some(node.get_replacement_tree());
+                        }
                     }
                 }
                 Ordering::Greater => return None,
                 Ordering::Equal => {
                     ret = node.value.take().map(|value| (key.to_vec(), value));
-                    node.merge();
-                    if node.value.is_none() && node.is_leaf() {
-                        next_tree = Some(node.get_replacement_tree());
+                    // the root always stays and keeps its empty key
+                    if !node.key.is_empty() {
+                        node.merge();
+                        if node.value.is_none() && node.is_leaf() {
+                            next_tree = Some(node.get_replacement_tree());
+                        }
                     }
                 }
             },
-- 
2.43.0


From feb5582b35d81a484766b8001fa2c446023947b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:42 +0000
Subject: [PATCH 11/36] fix: get_longest_prefix omits longer keys when no child
 continues the match

---
 src/radix/tree.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/radix/tree.rs b/src/radix/tree.rs
index aa22063..f30daa3 100644
--- a/src/radix/tree.rs
+++ b/src/radix/tree.rs
@@ -166,7 +166,11 @@ pub fn get_longest_prefix<T>(
                     Some(_) => get_longest_prefix(next_child, key, index, curr_key, keys),
                     None => {
                         if node.value.is_some() {
-                            keys.push(curr_key)
+                            keys.push(curr_key.clone());
+                        }
+                        // all children share the matched prefix unless nothing matched at all
+                        if index > 0 {
+                            node.push_all_children(curr_key, keys);
                         }
                     }
                 }
-- 
2.43.0


From 3ef53a220027057fa624944ccfad9befd2a1d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:14 +0000
Subject: [PATCH 12/36] fix: all randomized collections draw from the same
 random sequence

---
 src/lib.rs           |  1 +
 src/rng.rs           | 27 +++++++++++++++++++++++++++
 src/skiplist/list.rs |  3 ++-
 src/skiplist/map.rs  |  9 +++++----
 src/treap/list.rs    |  3 ++-
 src/treap/map.rs     |  7 ++++---
 6 files changed, 41 insertions(+), 9 deletions(-)
 create mode 100644 src/rng.rs

diff --git a/src/lib.rs b/src/lib.rs
index df252d6..e96300c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -56,6 +56,7 @@ mod entry;
 pub mod lsm_tree;
 pub mod radix;
 pub mod red_black_tree;
+mod rng;
 pub mod skiplist;
 pub mod splay_tree;
 pub mod sync;
diff --git a/src/rng.rs b/src/rng.rs
new file mode 100644
index 0000000..02d4595
--- /dev/null
+++ b/src/rng.rs
@@ -0,0 +1,27 @@
+//! Random number generators for the randomized collections.
+
+use rand::{SeedableRng, XorShiftRng};
+use std::sync::atomic::{AtomicUsize, Ordering};
+
+static GENERATOR_COUNT: AtomicUsize = AtomicUsize::new(0);
+
+/// Returns a new generator with its own sequence.
+///
+/// Priorities and heights are only independent if collections do not share a sequence; otherwise
+/// combining separately built collections results in degenerate structures.
+pub fn new_rng() -> XorShiftRng {
+    let mut state = GENERATOR_COUNT.fetch_add(1, Ordering::Relaxed) as u64;
+    let mut seed = [0; 4];
+    for word in &mut seed {
+        // splitmix64
+        state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
+        let mut mixed = state;
+        mixed = (mixed ^ (mixed >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
+        mixed = (mixed ^ (mixed >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
+        *word = (mixed >> 32) as u32;
+        state = mixed;
+    }
+    // a seed must not be zero
+    seed[0] |= 1;
+    XorShiftRng::from_seed(seed)
+}
diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index af78c52..2c6cea4 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -1,3 +1,4 @@
+use crate::rng;
 use rand::Rng;
 use rand::XorShiftRng;
 use std::alloc::{self, Layout};
@@ -122,7 +123,7 @@ impl<T> SkipList<T> {
     pub fn new() -> Self {
         SkipList {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
             len: 0,
         }
     }
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 124beda..e0741f8 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -1,4 +1,5 @@
 use crate::entry::Entry;
+use crate::rng;
 use rand::Rng;
 use rand::XorShiftRng;
 use std::alloc::{self, Layout};
@@ -116,7 +117,7 @@ impl<T, U> SkipMap<T, U> {
     pub fn new() -> Self {
         SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
             len: 0,
         }
     }
@@ -584,7 +585,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -676,7 +677,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
@@ -751,7 +752,7 @@ impl<T, U> SkipMap<T, U> {
     {
         let mut ret = SkipMap {
             head: unsafe { Node::allocate(MAX_HEIGHT + 1) },
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
             len: 0,
         };
         let mut curr_nodes = [ret.head; MAX_HEIGHT + 1];
diff --git a/src/treap/list.rs b/src/treap/list.rs
index 20dba1e..036c865 100644
--- a/src/treap/list.rs
+++ b/src/treap/list.rs
@@ -1,3 +1,4 @@
+use crate::rng;
 use crate::treap::implicit_tree;
 use crate::treap::node::ImplicitNode;
 use rand::Rng;
@@ -52,7 +53,7 @@ impl<T> TreapList<T> {
     pub fn new() -> Self {
         TreapList {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
         }
     }
 
diff --git a/src/treap/map.rs b/src/treap/map.rs
index 6feee4d..6b5781c 100644
--- a/src/treap/map.rs
+++ b/src/treap/map.rs
@@ -1,4 +1,5 @@
 use crate::entry::Entry;
+use crate::rng;
 use crate::treap::node::Node;
 use crate::treap::tree;
 use rand::Rng;
@@ -52,7 +53,7 @@ impl<T, U> TreapMap<T, U> {
     pub fn new() -> Self {
         TreapMap {
             tree: None,
-            rng: XorShiftRng::new_unseeded(),
+            rng: rng::new_rng(),
         }
     }
 
@@ -331,13 +332,13 @@ impl<T, U> TreapMap<T, U> {
             tree::merge(tree, split_node);
             TreapMap {
                 tree: ret,
-                rng: XorShiftRng::new_unseeded(),
+                rng: rng::new_rng(),
             }
         } else {
             tree::merge(&mut split_node, ret);
             TreapMap {
                 tree: split_node,
-                rng: XorShiftRng::new_unseeded(),
+                rng: rng::new_rng(),
             }
         }
     }
-- 
2.43.0


From 32f7e097986c990baab21d352ee6c48e95dc07d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:26 +0000
Subject: [PATCH 13/36] Verification hook: reset the collections' generators
 (cfg vp_hooks)

---
 src/lib.rs | 2 ++
 src/rng.rs | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e96300c..50fbc4e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,8 @@ pub mod lsm_tree;
 pub mod radix;
 pub mod red_black_tree;
 mod rng;
+#[cfg(vp_hooks)]
+pub use crate::rng::vp_reset as vp_reset_rng;
 pub mod skiplist;
 pub mod splay_tree;
 pub mod sync;
diff --git a/src/rng.rs b/src/rng.rs
index 02d4595..5e7cd96 100644
--- a/src/rng.rs
+++ b/src/rng.rs
@@ -25,3 +25,9 @@ pub fn new_rng() -> XorShiftRng {
     seed[0] |= 1;
     XorShiftRng::from_seed(seed)
 }
+
+/// Verification hook: makes the generators of the collections created from now on reproducible.
+#[cfg(vp_hooks)]
+pub fn vp_reset() {
+    GENERATOR_COUNT.store(0, Ordering::Relaxed);
+}
-- 
2.43.0


From 767e1d729a9104d4a16ee0639f6169136f3362f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:15 +0000
Subject: [PATCH 14/36] fix: deep splay trees overflow the stack on lookups and
 destruction

---
 src/splay_tree/map.rs  | 21 ++++++++++--
 src/splay_tree/tree.rs | 75 ++++++++++++++++++++++++++++--------------
 2 files changed, 69 insertions(+), 27 deletions(-)

diff --git a/src/splay_tree/map.rs b/src/splay_tree/map.rs
index caa7d40..c06a951 100644
--- a/src/splay_tree/map.rs
+++ b/src/splay_tree/map.rs
@@ -216,7 +216,7 @@ impl<T, U> SplayMap<T, U> {
     /// assert_eq!(map.is_empty(), true);
     /// ```
     pub fn clear(&mut self) {
-        self.tree = None;
+        tree::clear(&mut self.tree);
         self.len = 0;
     }
 
@@ -357,13 +357,19 @@ impl<T, U> SplayMap<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMap<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.tree);
+    }
+}
+
 impl<T, U> IntoIterator for SplayMap<T, U> {
     type IntoIter = SplayMapIntoIter<T, U>;
     type Item = (T, U);
 
-    fn into_iter(self) -> Self::IntoIter {
+    fn into_iter(mut self) -> Self::IntoIter {
         Self::IntoIter {
-            current: self.tree,
+            current: self.tree.take(),
             stack: Vec::new(),
         }
     }
@@ -423,6 +429,15 @@ impl<T, U> Iterator for SplayMapIntoIter<T, U> {
     }
 }
 
+impl<T, U> Drop for SplayMapIntoIter<T, U> {
+    fn drop(&mut self) {
+        tree::clear(&mut self.current);
+        for mut node in self.stack.drain(..) {
+            tree::clear(&mut node.right);
+        }
+    }
+}
+
 /// An iterator for `SplayMap<T, U>`.
 ///
 /// This iterator traverses the elements of the map in-order and yields immutable references.
diff --git a/src/splay_tree/tree.rs b/src/splay_tree/tree.rs
index de3b3a5..b166d4a 100644
--- a/src/splay_tree/tree.rs
+++ b/src/splay_tree/tree.rs
@@ -136,12 +136,15 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => get(&node.left, key),
-            Ordering::Greater => get(&node.right, key),
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => curr = &node.left,
+            Ordering::Greater => curr = &node.right,
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    None
 }
 
 pub fn get_mut<'a, T, U, V>(tree: &'a mut Tree<T, U>, key: &V) -> Option<&'a mut Entry<T, U>>
@@ -163,15 +166,21 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Greater => ceil(&node.right, key),
-            Ordering::Less => match ceil(&node.left, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => {
+                ret = Some(&node.entry);
+                curr = &node.left;
+            }
+            Ordering::Greater => {
+                curr = &node.right;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn floor<'a, T, U, V>(tree: &'a Tree<T, U>, key: &V) -> Option<&'a Entry<T, U>>
@@ -179,15 +188,21 @@ where
     T: Borrow<V>,
     V: Ord + ?Sized,
 {
-    tree.as_ref()
-        .and_then(|node| match key.cmp(node.entry.key.borrow()) {
-            Ordering::Less => floor(&node.left, key),
-            Ordering::Greater => match floor(&node.right, key) {
-                None => Some(&node.entry),
-                res => res,
-            },
-            Ordering::Equal => Some(&node.entry),
-        })
+    let mut curr = tree;
+    let mut ret = None;
+    while let Some(ref node) = curr {
+        match key.cmp(node.entry.key.borrow()) {
+            Ordering::Less => {
+                curr = &node.left;
+            }
+            Ordering::Greater => {
+                ret = Some(&node.entry);
+                curr = &node.right;
+            }
+            Ordering::Equal => return Some(&node.entry),
+        }
+    }
+    ret
 }
 
 pub fn min<T, U>(tree: &Tree<T, U>) -> Option<&Entry<T, U>>
@@ -215,3 +230,15 @@ where
         Some(&curr.entry)
     })
 }
+
+// frees all nodes without recursion because the tree can be as deep as the number of its nodes
+pub fn clear<T, U>(tree: &mut Tree<T, U>) {
+    while let Some(mut node) = tree.take() {
+        if node.left.is_some() {
+            node.rotate_right();
+            *tree = Some(node);
+        } else {
+            *tree = node.right.take();
+        }
+    }
+}
-- 
2.43.0


From a2eac789381054c477119eed81d16516356bfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:02 +0000
Subject: [PATCH 15/36] fix: B+ tree maps with internal degree 2 panic on
 removals

---
 src/bp_tree/map.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/map.rs b/src/bp_tree/map.rs
index 80e2f8a..859adb8 100644
--- a/src/bp_tree/map.rs
+++ b/src/bp_tree/map.rs
@@ -4,6 +4,7 @@ use crate::entry::Entry;
 use serde::de::DeserializeOwned;
 use serde::ser::Serialize;
 use std::borrow::Borrow;
+use std::cmp;
 use std::mem;
 use std::path::Path;
 
@@ -146,6 +147,12 @@ impl<T, U> BpMap<T, U> {
         Pager::open(file_path).map(|pager| BpMap { pager })
     }
 
+    // the minimum number of children of an internal node that is not the root; an internal node with
+    // one child has no key to separate it from anything
+    fn min_internal_children(&self) -> usize {
+        cmp::max((self.pager.get_internal_degree() + 1) / 2, 2)
+    }
+
     fn search_node<V>(&mut self, key: &V) -> Result<SearchOutcome<T, U>>
     where
         T: Borrow<V> + DeserializeOwned,
@@ -376,7 +383,7 @@ impl<T, U> BpMap<T, U> {
             delete_entry = None;
             curr_node.remove_at(delete_index, true);
 
-            let is_underflow = curr_node.len + 1 < (self.pager.get_internal_degree() + 1) / 2;
+            let is_underflow = curr_node.len + 1 < self.min_internal_children();
             if is_underflow {
                 if let Some((parent_page, parent_node, curr_index)) = stack.pop() {
                     let mut parent_node = {
@@ -400,7 +407,7 @@ impl<T, U> BpMap<T, U> {
                         }
                     };
 
-                    if sibling_node.len + 1 == (self.pager.get_internal_degree() + 1) / 2 {
+                    if sibling_node.len + 1 == self.min_internal_children() {
                         if sibling_index == curr_index + 1 {
                             let parent_key = parent_node.keys[curr_index]
                                 .clone()
-- 
2.43.0


From dab5fa7ea72e74db9d9a995ac2b15bac039a641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:07 +0000
Subject: [PATCH 16/36] fix: replacing a key in a full B+ tree leaf can lose
 entries

---
 src/bp_tree/node.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index e4f79b1..5814f4e 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -245,16 +245,17 @@ impl<T, U> LeafNode<T, U> {
             self.entries[index] = Some(new_entry);
             None
         }
+        // node is full, but the key is already present; only have to replace
+        else if let Some(index) = self.search(&new_entry.key) {
+            mem::replace(&mut self.entries[index], Some(new_entry)).map(InsertCases::Entry)
+        }
         // node is full; have to split
         else {
             let mut split_node = LeafNode::new(leaf_degree);
             for index in 0..leaf_degree {
                 if let Some(ref mut entry) = self.entries[index] {
-                    if new_entry <= *entry {
+                    if new_entry < *entry {
                         mem::swap(entry, &mut new_entry);
-                        if new_entry == *entry {
-                            return Some(InsertCases::Entry(new_entry));
-                        }
                     }
                 }
                 if index > leaf_degree / 2 {
-- 
2.43.0


From 69f6a112e42cf9634f411b952f3e31c77e4eb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:41 +0000
Subject: [PATCH 17/36] fix: B+ tree pages are too small for some types

---
 src/bp_tree/node.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bp_tree/node.rs b/src/bp_tree/node.rs
index 5814f4e..f70253c 100644
--- a/src/bp_tree/node.rs
+++ b/src/bp_tree/node.rs
@@ -5,6 +5,7 @@ use std::cmp::{self, Ordering};
 use std::marker::PhantomData;
 use std::mem;
 
+const U32_SIZE: u64 = mem::size_of::<u32>() as u64;
 const U64_SIZE: u64 = mem::size_of::<u64>() as u64;
 const OPT_U64_SIZE: u64 = mem::size_of::<Option<u64>>() as u64;
 pub const BLOCK_SIZE: u64 = 4096;
@@ -372,9 +373,17 @@ impl<T, U> Node<T, U> {
         leaf_degree: usize,
         internal_degree: usize,
     ) -> u64 {
+        // an enum variant is encoded as u32 (4 bytes) and an option has a tag (1 byte), regardless of
+        // how the types are laid out in memory
+        let leaf_size = U32_SIZE + U64_SIZE * 3 + 1 + leaf_degree as u64 * (1 + key_size + value_size);
+        let internal_size =
+            U32_SIZE + U64_SIZE * 4 + internal_degree as u64 * (1 + key_size + U64_SIZE);
         cmp::max(
-            LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
-            InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            cmp::max(
+                LeafNode::<T, U>::get_max_size(leaf_degree, key_size, value_size),
+                InternalNode::<T, U>::get_max_size(internal_degree, key_size),
+            ),
+            cmp::max(leaf_size, internal_size),
         )
     }
 }
-- 
2.43.0


From 44f8fc2f8393b5edda447813677433ea0457e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:13 +0000
Subject: [PATCH 18/36] fix: LsmMap::min and max ignore tombstones in memory

---
 src/lsm_tree/map.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index a5a38d0..d2655cf 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -406,7 +406,15 @@ where
             .iter()
             .find(|entry| entry.1.data.is_some())
             .map(|entry| entry.0.clone());
-        let disk_min = self.compaction_strategy.min()?;
+        let mut disk_min = None;
+        for entry in self.compaction_strategy.iter()? {
+            let (key, _) = entry?;
+            // keys present in memory shadow the ones on disk
+            if !self.in_memory_tree.contains_key(&key) {
+                disk_min = Some(key);
+                break;
+            }
+        }
 
         if in_memory_min.is_none() {
             Ok(disk_min)
@@ -440,14 +448,22 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn max(&mut self) -> Result<Option<T>> {
-        Ok(cmp::max(
-            self.in_memory_tree
-                .iter()
-                .rev()
-                .find(|entry| entry.1.data.is_some())
-                .map(|entry| entry.0.clone()),
-            self.compaction_strategy.max()?,
-        ))
+        let in_memory_max = self
+            .in_memory_tree
+            .iter()
+            .rev()
+            .find(|entry| entry.1.data.is_some())
+            .map(|entry| entry.0.clone());
+        let mut disk_max = None;
+        for entry in self.compaction_strategy.iter()? {
+            let (key, _) = entry?;
+            // keys present in memory shadow the ones on disk
+            if !self.in_memory_tree.contains_key(&key) {
+                disk_max = Some(key);
+            }
+        }
+
+        Ok(cmp::max(in_memory_max, disk_max))
     }
 
     /// Flushes the in-memory tree into a SSTable if it is not empty. The map must be flushed
-- 
2.43.0


From 7c2fa8514b72ac35289c5f1926f553a23f5a58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 19/36] fix: size-tiered compaction brings back deleted keys

---
 src/lsm_tree/compaction/size_tiered.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index bd44d8d..d6a0cd8 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -175,7 +175,8 @@ pub struct SizeTieredStrategy<T, U> {
     metadata_lock_count: Rc<Cell<u64>>,
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<SizeTieredMetadata<T, U>>>,
-    next_metadata: Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+    // the metadata after a compaction and the paths of the SSTables that the compaction considered
+    next_metadata: Arc<Mutex<Option<(SizeTieredMetadata<T, U>, HashSet<PathBuf>)>>>,
 }
 
 impl<T, U> SizeTieredStrategy<T, U> {
@@ -298,7 +299,7 @@ impl<T, U> SizeTieredStrategy<T, U> {
         path: P,
         is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: SizeTieredMetadata<T, U>,
-        next_metadata: &Arc<Mutex<Option<SizeTieredMetadata<T, U>>>>,
+        next_metadata: &Arc<Mutex<Option<(SizeTieredMetadata<T, U>, HashSet<PathBuf>)>>>,
         range: (usize, usize),
     ) -> Result<()>
     where
@@ -308,8 +309,13 @@ impl<T, U> SizeTieredStrategy<T, U> {
     {
         println!("Started compacting.");
 
+        let snapshot_paths = metadata_snapshot
+            .sstables
+            .iter()
+            .map(|sstable| sstable.path.clone())
+            .collect();
         metadata_snapshot.compact(path, range)?;
-        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
+        *next_metadata.lock().unwrap() = Some((metadata_snapshot, snapshot_paths));
         is_compacting.store(false, Ordering::Release);
 
         println!("Finished compacting");
@@ -353,17 +359,13 @@ impl<T, U> SizeTieredStrategy<T, U> {
     ) -> Result<bool> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
-        if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .sstables
-                .iter()
-                .map(|sstable| sstable.summary.logical_time_range.1)
-                .max();
+        if let Some((next_metadata, snapshot_paths)) = next_metadata.take() {
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
+            // SSTables that were flushed after the compaction started
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.1) > logical_time_opt)
+                    .filter(|sstable| !snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
-- 
2.43.0


From c41c59fcd95d655829c2bb0d0801387738029ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:04 +0000
Subject: [PATCH 20/36] fix: an LsmMap that was never written to cannot be
 opened

---
 src/lsm_tree/compaction/leveled.rs     | 3 +++
 src/lsm_tree/compaction/size_tiered.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index ac7bd62..21cfcf9 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -189,6 +189,9 @@ where
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file.seek(SeekFrom::Start(0))?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index d6a0cd8..ffae0e1 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -244,6 +244,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let curr_metadata = ret.curr_metadata.lock().unwrap();
             ret.metadata_file.seek(SeekFrom::Start(0))?;
             ret.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+            ret.logical_time_file.seek(SeekFrom::Start(0))?;
+            ret.logical_time_file
+                .write_u64::<BigEndian>(ret.curr_logical_time)?;
         }
 
         Ok(ret)
-- 
2.43.0


From ce93e9026395c46a1b5935d6638a3b2489323959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:13 +0000
Subject: [PATCH 21/36] fix: compactions leave unused table directories behind

---
 src/lsm_tree/compaction/leveled.rs     | 7 +++++--
 src/lsm_tree/compaction/size_tiered.rs | 2 ++
 src/lsm_tree/sstable.rs                | 6 ++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 21cfcf9..4cdaf53 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -350,6 +350,8 @@ where
         if sstable_builder.key_range.is_some() {
             let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
             metadata_snapshot.insert_sstable(0, new_sstable);
+        } else {
+            sstable_builder.discard()?;
         }
 
         // compacting L1 and onwards
@@ -380,13 +382,12 @@ where
                         .expect("Expected SSTable to remove to exist.")
                 };
 
-                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
-
                 if index + 1 == metadata_snapshot.levels.len() {
                     metadata_snapshot.insert_sstable(index + 1, sstable);
                     continue;
                 }
 
+                let mut sstable_builder = SSTableBuilder::new(path.as_ref(), entry_count_hint)?;
                 let sstable_data_iter = sstable.data_iter();
                 let level = mem::replace(&mut metadata_snapshot.levels[index + 1], BTreeMap::new());
                 let (old_level, new_level): (BTreeMap<_, _>, BTreeMap<_, _>) =
@@ -425,6 +426,8 @@ where
                 if sstable_builder.key_range.is_some() {
                     let new_sstable = Arc::new(SSTable::new(sstable_builder.flush()?)?);
                     metadata_snapshot.insert_sstable(index + 1, new_sstable);
+                } else {
+                    sstable_builder.discard()?;
                 }
             }
         }
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index ffae0e1..02bf781 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -145,6 +145,8 @@ impl<T, U> SizeTieredMetadata<T, U> {
 
         if sstable_builder.key_range.is_some() {
             self.push_sstable(Arc::new(SSTable::new(sstable_builder.flush()?)?));
+        } else {
+            sstable_builder.discard()?;
         }
 
         Ok(())
diff --git a/src/lsm_tree/sstable.rs b/src/lsm_tree/sstable.rs
index c33a9d3..b41cccb 100644
--- a/src/lsm_tree/sstable.rs
+++ b/src/lsm_tree/sstable.rs
@@ -185,6 +185,12 @@ impl<T, U> SSTableBuilder<T, U> {
         Ok(())
     }
 
+    /// Removes what an SSTable that will not be used has written to disk.
+    pub fn discard(self) -> Result<()> {
+        fs::remove_dir_all(self.sstable_path.as_path())?;
+        Ok(())
+    }
+
     pub fn flush(&mut self) -> Result<PathBuf>
     where
         T: Clone + Serialize,
-- 
2.43.0


From 492eafd5e1ba3e54d65b88f2ec50c622108e2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:33 +0000
Subject: [PATCH 22/36] fix: leveled compactions leave intermediate tables
 behind

---
 src/lsm_tree/compaction/leveled.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 4cdaf53..851494d 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -14,6 +14,7 @@ use std::fmt::{self, Debug};
 use std::fs;
 use std::hash::Hash;
 use std::io::{Read, Seek, SeekFrom, Write};
+use std::iter;
 use std::mem;
 use std::ops::Bound::{Included, Unbounded};
 use std::path::{Path, PathBuf};
@@ -311,6 +312,13 @@ where
             metadata_snapshot.levels.push(BTreeMap::new());
         }
 
+        let snapshot_paths: HashSet<_> = metadata_snapshot
+            .sstables
+            .iter()
+            .chain(metadata_snapshot.levels.iter().flat_map(|level| level.values()))
+            .map(|sstable| sstable.path.clone())
+            .collect();
+
         // compacting L0
         let mut entry_count_hint = 0;
         let sstable_data_iters: Vec<_> = metadata_snapshot
@@ -400,6 +408,13 @@ where
 
                 metadata_snapshot.levels[index + 1] = new_level;
 
+                // SSTables that this compaction has created and that are merged again
+                let intermediate_paths: Vec<_> = iter::once(&sstable)
+                    .chain(old_level.values())
+                    .map(|sstable| sstable.path.clone())
+                    .filter(|path| !snapshot_paths.contains(path))
+                    .collect();
+
                 let compaction_iter = LeveledIter::new(
                     None,
                     vec![sstable_data_iter],
@@ -429,6 +444,10 @@ where
                 } else {
                     sstable_builder.discard()?;
                 }
+
+                for path in intermediate_paths {
+                    fs::remove_dir_all(path)?;
+                }
             }
         }
 
-- 
2.43.0


From 4deec846ebc1e348afce601c61e0fc62f7c8a8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:22 +0000
Subject: [PATCH 23/36] fix: leveled compaction never reclaims tables of
 tombstones

---
 src/lsm_tree/compaction/leveled.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 851494d..d9ab711 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -119,7 +119,8 @@ where
     metadata_lock_count: Rc<Cell<u64>>,
     metadata_file: fs::File,
     curr_metadata: Arc<Mutex<LeveledMetadata<T, U>>>,
-    next_metadata: Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
+    // the metadata after a compaction and the paths of the SSTables that the compaction considered
+    next_metadata: Arc<Mutex<Option<(LeveledMetadata<T, U>, HashSet<PathBuf>)>>>,
 }
 
 impl<T, U> LeveledStrategy<T, U>
@@ -250,24 +251,14 @@ where
     ) -> Result<bool> {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
-        if let Some(next_metadata) = next_metadata.take() {
-            let logical_time_opt = next_metadata
-                .levels
-                .iter()
-                .map(|level_entry| {
-                    level_entry
-                        .iter()
-                        .map(|level_entry| level_entry.1.summary.logical_time_range.1)
-                        .max()
-                })
-                .max()
-                .and_then(|max_opt| max_opt);
+        if let Some((next_metadata, snapshot_paths)) = next_metadata.take() {
             let old_sstables = mem::replace(&mut curr_metadata.sstables, next_metadata.sstables);
             let old_levels = mem::replace(&mut curr_metadata.levels, next_metadata.levels);
+            // SSTables that were flushed after the compaction started
             curr_metadata.sstables.extend(
                 old_sstables
                     .iter()
-                    .filter(|sstable| Some(sstable.summary.logical_time_range.0) > logical_time_opt)
+                    .filter(|sstable| !snapshot_paths.contains(&sstable.path))
                     .map(|sstable| Arc::clone(sstable)),
             );
 
@@ -299,7 +290,7 @@ where
         path: P,
         is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: LeveledMetadata<T, U>,
-        next_metadata: &Arc<Mutex<Option<LeveledMetadata<T, U>>>>,
+        next_metadata: &Arc<Mutex<Option<(LeveledMetadata<T, U>, HashSet<PathBuf>)>>>,
     ) -> Result<()>
     where
         T: Clone + DeserializeOwned + Hash + Serialize,
@@ -451,7 +442,7 @@ where
             }
         }
 
-        *next_metadata.lock().unwrap() = Some(metadata_snapshot);
+        *next_metadata.lock().unwrap() = Some((metadata_snapshot, snapshot_paths));
 
         is_compacting.store(false, Ordering::Release);
 
-- 
2.43.0


From 5a303bf82f5467bc4d1a5c9b0f436df324122000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:18 +0000
Subject: [PATCH 24/36] fix: a panic in the compaction thread stops compaction
 for ever

---
 src/lsm_tree/compaction/leveled.rs     |  9 +++------
 src/lsm_tree/compaction/mod.rs         | 11 +++++++++++
 src/lsm_tree/compaction/size_tiered.rs |  8 ++------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index d9ab711..36ff84e 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -1,5 +1,5 @@
 use crate::entry::Entry;
-use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
+use crate::lsm_tree::compaction::{CompactionGuard, CompactionIter, CompactionStrategy};
 use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -288,7 +288,6 @@ where
 
     fn compact<P>(
         path: P,
-        is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: LeveledMetadata<T, U>,
         next_metadata: &Arc<Mutex<Option<(LeveledMetadata<T, U>, HashSet<PathBuf>)>>>,
     ) -> Result<()>
@@ -444,8 +443,6 @@ where
 
         *next_metadata.lock().unwrap() = Some((metadata_snapshot, snapshot_paths));
 
-        is_compacting.store(false, Ordering::Release);
-
         println!("Finished compacting");
         Ok(())
     }
@@ -460,13 +457,13 @@ where
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
         self.compaction_thread_join_handle = Some(thread::spawn(move || {
+            let _guard = CompactionGuard(is_compacting);
             let compaction_result =
-                LeveledStrategy::compact(path, &is_compacting, metadata_snapshot, &next_metadata);
+                LeveledStrategy::compact(path, metadata_snapshot, &next_metadata);
 
             match compaction_result {
                 Ok(_) => println!("Compaction terminated successfully."),
                 Err(error) => {
-                    is_compacting.store(false, Ordering::Release);
                     println!("Compaction terminated with error: {:?}", error);
                 }
             }
diff --git a/src/lsm_tree/compaction/mod.rs b/src/lsm_tree/compaction/mod.rs
index a32a313..2d83ced 100644
--- a/src/lsm_tree/compaction/mod.rs
+++ b/src/lsm_tree/compaction/mod.rs
@@ -10,6 +10,17 @@ use crate::lsm_tree::{Result, SSTable, SSTableValue};
 use std::borrow::Borrow;
 use std::hash::Hash;
 use std::path::Path;
+use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::Arc;
+
+// Allows the next compaction when a compaction thread ends, in whatever way it ends.
+struct CompactionGuard(Arc<AtomicBool>);
+
+impl Drop for CompactionGuard {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
+}
 
 /// An iterator for the disk-resident data.
 pub type CompactionIter<T, U> = dyn Iterator<Item = Result<(T, U)>>;
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 02bf781..8e2763c 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -1,5 +1,5 @@
 use crate::entry::Entry;
-use crate::lsm_tree::compaction::{CompactionIter, CompactionStrategy};
+use crate::lsm_tree::compaction::{CompactionGuard, CompactionIter, CompactionStrategy};
 use crate::lsm_tree::{sstable, Result, SSTable, SSTableBuilder, SSTableDataIter, SSTableValue};
 use bincode::{deserialize, serialize};
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -302,7 +302,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
 
     fn compact<P>(
         path: P,
-        is_compacting: &Arc<AtomicBool>,
         mut metadata_snapshot: SizeTieredMetadata<T, U>,
         next_metadata: &Arc<Mutex<Option<(SizeTieredMetadata<T, U>, HashSet<PathBuf>)>>>,
         range: (usize, usize),
@@ -321,8 +320,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             .collect();
         metadata_snapshot.compact(path, range)?;
         *next_metadata.lock().unwrap() = Some((metadata_snapshot, snapshot_paths));
-        is_compacting.store(false, Ordering::Release);
-
         println!("Finished compacting");
         Ok(())
     }
@@ -340,9 +337,9 @@ impl<T, U> SizeTieredStrategy<T, U> {
         let is_compacting = self.is_compacting.clone();
         self.is_compacting.store(true, Ordering::Release);
         self.compaction_thread_join_handle = Some(thread::spawn(move || {
+            let _guard = CompactionGuard(is_compacting);
             let compaction_result = SizeTieredStrategy::compact(
                 path,
-                &is_compacting,
                 metadata_snapshot,
                 &next_metadata,
                 range,
@@ -351,7 +348,6 @@ impl<T, U> SizeTieredStrategy<T, U> {
             match compaction_result {
                 Ok(_) => println!("Compaction terminated successfully."),
                 Err(error) => {
-                    is_compacting.store(false, Ordering::Release);
                     println!("Compaction terminated with error: {:?}", error);
                 }
             }
-- 
2.43.0


From 4e6e17bb10d7b53f197e3f61b2789e5f530aa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:40 +0000
Subject: [PATCH 25/36] fix: an orphaned compaction thread writes to a reopened
 LSM directory

---
 src/lsm_tree/compaction/leveled.rs     | 12 ++++++++++++
 src/lsm_tree/compaction/size_tiered.rs |  9 +++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 36ff84e..a3fa711 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -471,6 +471,18 @@ where
     }
 }
 
+impl<T, U> Drop for LeveledStrategy<T, U>
+where
+    T: Ord,
+{
+    // a compaction thread must not write to the directory after the strategy that owns it is gone
+    fn drop(&mut self) {
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 impl<T, U> CompactionStrategy<T, U> for LeveledStrategy<T, U>
 where
     T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 8e2763c..6be6743 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -385,6 +385,15 @@ impl<T, U> SizeTieredStrategy<T, U> {
     }
 }
 
+impl<T, U> Drop for SizeTieredStrategy<T, U> {
+    // a compaction thread must not write to the directory after the strategy that owns it is gone
+    fn drop(&mut self) {
+        if let Some(compaction_thread_join_handle) = self.compaction_thread_join_handle.take() {
+            let _ = compaction_thread_join_handle.join();
+        }
+    }
+}
+
 impl<T, U> CompactionStrategy<T, U> for SizeTieredStrategy<T, U>
 where
     T: 'static + Clone + DeserializeOwned + Hash + Ord + Send + Serialize + Sync,
-- 
2.43.0


From a192c20a33b19f1a8865d795625bd9e2eeed0882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:45 +0000
Subject: [PATCH 26/36] fix: popping from the concurrent stack drops the
 element twice

---
 src/sync/stack.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 6570afa..42f07db 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -1,9 +1,11 @@
 use crossbeam_epoch::{self, Atomic, Owned};
+use std::mem::ManuallyDrop;
 use std::ptr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 
 struct Node<T> {
-    value: T,
+    // moved out by the thread that pops the node, so freeing the node must not drop it
+    value: ManuallyDrop<T>,
     next: Atomic<Node<T>>,
 }
 
@@ -61,7 +63,7 @@ impl<T> Stack<T> {
     /// ```
     pub fn push(&self, value: T) {
         let mut new_node = Owned::new(Node {
-            value,
+            value: ManuallyDrop::new(value),
             next: Atomic::null(),
         });
 
@@ -112,7 +114,7 @@ impl<T> Stack<T> {
                         unsafe {
                             self.len.fetch_sub(1, Ordering::Release);
                             guard.defer(move || head_shared.into_owned());
-                            return Some(ptr::read(&(*head).value));
+                            return Some(ManuallyDrop::into_inner(ptr::read(&(*head).value)));
                         }
                     }
                 }
-- 
2.43.0


From fc56af916a51ba16366531907a56381f7c5dcb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:16 +0000
Subject: [PATCH 27/36] fix: dropping the concurrent stack leaks its elements

---
 src/sync/stack.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 42f07db..541225f 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -158,6 +158,12 @@ impl<T> Stack<T> {
     }
 }
 
+impl<T> Drop for Stack<T> {
+    fn drop(&mut self) {
+        while self.try_pop().is_some() {}
+    }
+}
+
 impl<T> Default for Stack<T> {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 197ed9e4d4123a54dd376d547e0b91e29b67dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:21 +0000
Subject: [PATCH 28/36] fix: length of the concurrent stack wraps below zero

---
 src/sync/stack.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sync/stack.rs b/src/sync/stack.rs
index 541225f..cbc5710 100644
--- a/src/sync/stack.rs
+++ b/src/sync/stack.rs
@@ -67,6 +67,8 @@ impl<T> Stack<T> {
             next: Atomic::null(),
         });
 
+        // counted before it can be popped, so that the length never falls below zero
+        self.len.fetch_add(1, Ordering::Release);
         let guard = &crossbeam_epoch::pin();
         loop {
             let head_shared = self.head.load(Ordering::Relaxed, guard);
@@ -75,10 +77,7 @@ impl<T> Stack<T> {
                 .head
                 .compare_and_set(head_shared, new_node, Ordering::Release, guard)
             {
-                Ok(_) => {
-                    self.len.fetch_add(1, Ordering::Release);
-                    break;
-                }
+                Ok(_) => break,
                 Err(e) => new_node = e.new,
             }
         }
-- 
2.43.0


From bc5295e2473193af7ba70c681b1a07a51f5ff860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:45 +0000
Subject: [PATCH 29/36] fix: LSM tables are removed while the metadata on disk
 refers to them

---
 src/lsm_tree/compaction/leveled.rs     | 47 +++++++++++---------------
 src/lsm_tree/compaction/size_tiered.rs | 46 +++++++++++--------------
 2 files changed, 38 insertions(+), 55 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index a3fa711..2fdd979 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -248,7 +248,11 @@ where
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, LeveledMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some((next_metadata, snapshot_paths)) = next_metadata.take() {
@@ -274,16 +278,18 @@ where
                 .iter()
                 .flat_map(|level| level.iter().map(|level_entry| &level_entry.1.path));
 
+            // the replaced SSTables are needed until the metadata on disk no longer refers to them
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             for path in old_path_iter.chain(old_level_path_iter) {
                 if !new_sstable_paths.contains(path) {
                     fs::remove_dir_all(path)?;
                 }
             }
-
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 
     fn compact<P>(
@@ -520,10 +526,7 @@ where
         // taking snapshot of current metadata
         let metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -542,10 +545,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -556,10 +556,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -590,10 +587,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstables_len_hint: usize = curr_metadata
             .sstables
@@ -637,6 +631,9 @@ where
         curr_metadata.levels.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -644,9 +641,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -668,10 +662,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 6be6743..3caf7a2 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -357,7 +357,11 @@ impl<T, U> SizeTieredStrategy<T, U> {
     fn try_replace_metadata(
         &self,
         curr_metadata: &mut MutexGuard<'_, SizeTieredMetadata<T, U>>,
-    ) -> Result<bool> {
+    ) -> Result<()>
+    where
+        T: Serialize,
+        U: Serialize,
+    {
         let mut next_metadata = self.next_metadata.lock().unwrap();
 
         if let Some((next_metadata, snapshot_paths)) = next_metadata.take() {
@@ -373,15 +377,18 @@ impl<T, U> SizeTieredStrategy<T, U> {
             let new_sstable_iter = curr_metadata.sstables.iter().map(|sstable| &sstable.path);
             let new_sstable_paths: HashSet<&PathBuf> = HashSet::from_iter(new_sstable_iter);
 
+            // the replaced SSTables are needed until the metadata on disk no longer refers to them
+            let mut metadata_file = &self.metadata_file;
+            metadata_file.seek(SeekFrom::Start(0))?;
+            metadata_file.write_all(&serialize(&**curr_metadata)?)?;
+
             for old_sstable in old_sstables {
                 if !new_sstable_paths.contains(&old_sstable.path) {
                     fs::remove_dir_all(old_sstable.path.as_path())?;
                 }
             }
-            Ok(true)
-        } else {
-            Ok(false)
         }
+        Ok(())
     }
 }
 
@@ -431,10 +438,7 @@ where
         // taking snapshot of current metadata
         let mut metadata_snapshot = {
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
             curr_metadata.clone()
         };
 
@@ -453,10 +457,7 @@ where
             }
 
             let mut curr_metadata = self.curr_metadata.lock().unwrap();
-            if self.try_replace_metadata(&mut curr_metadata)? {
-                self.metadata_file.seek(SeekFrom::Start(0))?;
-                self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-            }
+            self.try_replace_metadata(&mut curr_metadata)?;
         }
         Ok(())
     }
@@ -467,10 +468,7 @@ where
         V: Ord + Hash + ?Sized,
     {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let mut ret = None;
         for sstable in &curr_metadata.sstables {
@@ -485,10 +483,7 @@ where
 
     fn len_hint(&mut self) -> Result<usize> {
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let len_hint = curr_metadata
             .sstables
@@ -520,6 +515,9 @@ where
         curr_metadata.sstables.clear();
         *next_metadata = None;
 
+        self.metadata_file.seek(SeekFrom::Start(0))?;
+        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
+
         for dir_entry in fs::read_dir(self.path.as_path())? {
             let dir_path = dir_entry?.path();
             if dir_path.is_dir() {
@@ -527,9 +525,6 @@ where
             }
         }
 
-        self.metadata_file.seek(SeekFrom::Start(0))?;
-        self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-
         Ok(())
     }
 
@@ -551,10 +546,7 @@ where
         let mut curr_metadata = self.curr_metadata.lock().unwrap();
         // should never need to replace metadata as the compaction thread should not be running
         // when yielding calling iter.
-        if self.try_replace_metadata(&mut curr_metadata)? {
-            self.metadata_file.seek(SeekFrom::Start(0))?;
-            self.metadata_file.write_all(&serialize(&*curr_metadata)?)?;
-        }
+        self.try_replace_metadata(&mut curr_metadata)?;
 
         let sstable_data_iters = curr_metadata
             .sstables
-- 
2.43.0


From 75cde240100ef08fd05334b20ad57616d418bac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:33 +0000
Subject: [PATCH 30/36] fix: reset the size of the in-memory tree when an LSM
 map is cleared

---
 src/lsm_tree/map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index d2655cf..395dc1f 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -374,6 +374,7 @@ where
     /// # foo().unwrap();
     /// ```
     pub fn clear(&mut self) -> Result<()> {
+        self.in_memory_usage = 0;
         self.in_memory_tree.clear();
         self.compaction_strategy.clear()
     }
-- 
2.43.0


From c96163d764c2c3904ae40e846cda732b9aa84685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:44 +0000
Subject: [PATCH 31/36] fix: free a skiplist node only once it is unlinked at
 all heights

---
 src/skiplist/map.rs | 87 ++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index e0741f8..25d6439 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -67,6 +67,23 @@ impl<T, U> Node<T, U> {
         ptr::drop_in_place(&mut (*ptr).entry);
         Self::deallocate(ptr);
     }
+
+    // Unlinks a node at all of its heights, unless it is not the successor of `prev_nodes` at all
+    // of them. That can only happen if the ordering of the keys is inconsistent.
+    unsafe fn unlink(ptr: *mut Self, prev_nodes: &[*mut Self]) -> bool {
+        let prev_nodes = &prev_nodes[..(*ptr).links_len];
+        if prev_nodes
+            .iter()
+            .enumerate()
+            .any(|(height, prev_node)| *(**prev_node).get_pointer(height) != ptr)
+        {
+            return false;
+        }
+        for (height, prev_node) in prev_nodes.iter().enumerate() {
+            *(**prev_node).get_pointer_mut(height) = *(*ptr).get_pointer(height);
+        }
+        true
+    }
 }
 
 /// An ordered map implemented using a skiplist.
@@ -148,46 +165,45 @@ impl<T, U> SkipMap<T, U> {
     where
         T: Ord,
     {
-        self.len += 1;
         let new_height = self.gen_random_height();
-        let new_node = Node::new(key, value, new_height + 1);
         let mut curr_height = MAX_HEIGHT;
+        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
         let mut curr_node = &mut self.head;
         let mut ret = None;
 
         unsafe {
             loop {
                 let mut next_node = (**curr_node).get_pointer_mut(curr_height);
-                while !next_node.is_null() && (**next_node).entry.key < (*new_node).entry.key {
+                while !next_node.is_null() && (**next_node).entry.key < key {
                     let next_next_node = (**next_node).get_pointer_mut(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
-
-                if !next_node.is_null() && (**next_node).entry.key == (*new_node).entry.key {
-                    let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
-                    }
-                }
-
-                if curr_height <= new_height {
-                    let next_node = &mut *(**curr_node).get_pointer_mut(curr_height);
-                    *(*new_node).get_pointer_mut(curr_height) = mem::replace(next_node, new_node);
-                }
+                prev_nodes[curr_height] = *curr_node;
 
                 if curr_height == 0 {
+                    if !next_node.is_null() && (**next_node).entry.key == key {
+                        let temp = *next_node;
+                        if Node::unlink(temp, &prev_nodes) {
+                            ret = Some((
+                                ptr::read(&(*temp).entry.key),
+                                ptr::read(&(*temp).entry.value),
+                            ));
+                            Node::deallocate(temp);
+                            self.len -= 1;
+                        }
+                    }
                     break;
                 }
 
                 curr_height -= 1;
             }
+
+            let new_node = Node::new(key, value, new_height + 1);
+            for (height, prev_node) in prev_nodes.iter().enumerate().take(new_height + 1) {
+                let next_node = &mut *(**prev_node).get_pointer_mut(height);
+                *(*new_node).get_pointer_mut(height) = mem::replace(next_node, new_node);
+            }
+            self.len += 1;
             ret
         }
     }
@@ -211,6 +227,7 @@ impl<T, U> SkipMap<T, U> {
         V: Ord + ?Sized,
     {
         let mut curr_height = MAX_HEIGHT;
+        let mut prev_nodes = [self.head; MAX_HEIGHT + 1];
         let mut curr_node = &mut self.head;
         let mut ret = None;
 
@@ -221,22 +238,20 @@ impl<T, U> SkipMap<T, U> {
                     let next_next_node = (**next_node).get_pointer_mut(curr_height);
                     curr_node = mem::replace(&mut next_node, next_next_node);
                 }
-
-                if !next_node.is_null() && (**next_node).entry.key.borrow() == key {
-                    let temp = *next_node;
-                    let next_next_node = *(**next_node).get_pointer_mut(curr_height);
-                    *(**curr_node).get_pointer_mut(curr_height) = next_next_node;
-                    if curr_height == 0 {
-                        ret = Some((
-                            ptr::read(&(*temp).entry.key),
-                            ptr::read(&(*temp).entry.value),
-                        ));
-                        Node::deallocate(temp);
-                        self.len -= 1;
-                    }
-                }
+                prev_nodes[curr_height] = *curr_node;
 
                 if curr_height == 0 {
+                    if !next_node.is_null() && (**next_node).entry.key.borrow() == key {
+                        let temp = *next_node;
+                        if Node::unlink(temp, &prev_nodes) {
+                            ret = Some((
+                                ptr::read(&(*temp).entry.key),
+                                ptr::read(&(*temp).entry.value),
+                            ));
+                            Node::deallocate(temp);
+                            self.len -= 1;
+                        }
+                    }
                     break;
                 }
 
-- 
2.43.0


From 892a522bcdcc7a4a542983c655a9c5eea91bc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:14 +0000
Subject: [PATCH 32/36] fix: detach the nodes of a skiplist before clear drops
 them

---
 src/skiplist/list.rs | 2 +-
 src/skiplist/map.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skiplist/list.rs b/src/skiplist/list.rs
index 2c6cea4..fa5a770 100644
--- a/src/skiplist/list.rs
+++ b/src/skiplist/list.rs
@@ -440,11 +440,11 @@ impl<T> SkipList<T> {
         self.len = 0;
         unsafe {
             let mut curr_node = (*self.head).get_pointer(0).next;
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = (*curr_node).get_pointer(0).next;
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index 25d6439..aaf8d37 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -413,11 +413,11 @@ impl<T, U> SkipMap<T, U> {
         self.len = 0;
         unsafe {
             let mut curr_node = *(*self.head).get_pointer(0);
+            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
             while !curr_node.is_null() {
                 let next_node = *(*curr_node).get_pointer(0);
                 Node::free(mem::replace(&mut curr_node, next_node));
             }
-            ptr::write_bytes((*self.head).links.as_mut_ptr(), 0, MAX_HEIGHT + 1);
         }
     }
 
-- 
2.43.0


From 33ffc5bd39195ad25e795cedd7f969784151a86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 33/36] fix: dropping a skip map that a panicking set operation
 has emptied

---
 src/skiplist/map.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skiplist/map.rs b/src/skiplist/map.rs
index aaf8d37..32afada 100644
--- a/src/skiplist/map.rs
+++ b/src/skiplist/map.rs
@@ -959,6 +959,10 @@ impl<T, U> SkipMap<T, U> {
 
 impl<T, U> Drop for SkipMap<T, U> {
     fn drop(&mut self) {
+        // all nodes are gone if a panic interrupted a set operation
+        if self.head.is_null() {
+            return;
+        }
         unsafe {
             let next_node = *(*self.head).get_pointer(0);
             Node::deallocate(mem::replace(&mut self.head, next_node));
-- 
2.43.0


From e8b9a23685cc7eaba0d27438cdcbba942ef73d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:51 +0000
Subject: [PATCH 34/36] fix: keep the in-memory tree of an LSM map until its
 table is in place

---
 src/lsm_tree/map.rs     | 11 ++++++-----
 src/lsm_tree/sstable.rs |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lsm_tree/map.rs b/src/lsm_tree/map.rs
index 395dc1f..8816717 100644
--- a/src/lsm_tree/map.rs
+++ b/src/lsm_tree/map.rs
@@ -7,7 +7,6 @@ use std::borrow::Borrow;
 use std::cmp;
 use std::collections::BTreeMap;
 use std::hash::Hash;
-use std::mem;
 
 /// An ordered map implemented using a log structured merge-tree.
 ///
@@ -88,16 +87,18 @@ where
     }
 
     fn try_compact(&mut self) -> Result<()> {
-        self.in_memory_usage = 0;
         let mut sstable_builder = SSTableBuilder::new(
             self.compaction_strategy.get_path(),
             self.in_memory_tree.len(),
         )?;
-        for entry in mem::replace(&mut self.in_memory_tree, BTreeMap::new()) {
-            sstable_builder.append(entry.0, entry.1)?;
+        for (key, value) in &self.in_memory_tree {
+            sstable_builder.append(key.clone(), value.clone())?;
         }
         let sstable = SSTable::new(sstable_builder.flush()?)?;
-        self.compaction_strategy.try_compact(sstable)
+        self.compaction_strategy.try_compact(sstable)?;
+        self.in_memory_usage = 0;
+        self.in_memory_tree.clear();
+        Ok(())
     }
 
     /// Inserts a key-value pair into the map. If the key-value pair causes the size of the
diff --git a/src/lsm_tree/sstable.rs b/src/lsm_tree/sstable.rs
index b41cccb..9aab9a3 100644
--- a/src/lsm_tree/sstable.rs
+++ b/src/lsm_tree/sstable.rs
@@ -36,7 +36,7 @@ where
     l <= r
 }
 
-#[derive(Deserialize, Serialize)]
+#[derive(Clone, Deserialize, Serialize)]
 pub struct SSTableValue<U> {
     pub data: Option<U>,
     pub logical_time: u64,
-- 
2.43.0


From fafa2a2f2b82a4d3c68b81074df039230c9eae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 35/36] fix: an LSM iterator that cannot be created keeps
 compactions from starting

---
 src/lsm_tree/compaction/leveled.rs     | 8 ++++----
 src/lsm_tree/compaction/size_tiered.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index 2fdd979..dcdfa80 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -739,10 +739,6 @@ where
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
         mut level_data_iters: Vec<VecDeque<SSTableDataIter<T, U>>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -767,6 +763,10 @@ where
             }
         }
 
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(LeveledIter {
             metadata_lock_count,
             sstable_data_iters,
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 3caf7a2..07ea7f8 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -585,10 +585,6 @@ where
         metadata_lock_count: Option<Rc<Cell<u64>>>,
         mut sstable_data_iters: Vec<SSTableDataIter<T, U>>,
     ) -> Result<Self> {
-        if let Some(ref metadata_lock_count) = metadata_lock_count {
-            metadata_lock_count.set(metadata_lock_count.get() + 1);
-        }
-
         let mut entries = BinaryHeap::new();
 
         for (index, sstable_data_iter) in sstable_data_iters.iter_mut().enumerate() {
@@ -598,6 +594,10 @@ where
             }
         }
 
+        if let Some(ref metadata_lock_count) = metadata_lock_count {
+            metadata_lock_count.set(metadata_lock_count.get() + 1);
+        }
+
         Ok(SizeTieredIter {
             metadata_lock_count,
             sstable_data_iters,
-- 
2.43.0


From 9351539139a39db8316200d316a66e862393a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 36/36] fix: LSM len counts entries that could not be read

---
 src/lsm_tree/compaction/leveled.rs     | 3 ++-
 src/lsm_tree/compaction/size_tiered.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lsm_tree/compaction/leveled.rs b/src/lsm_tree/compaction/leveled.rs
index dcdfa80..46c78a9 100644
--- a/src/lsm_tree/compaction/leveled.rs
+++ b/src/lsm_tree/compaction/leveled.rs
@@ -610,7 +610,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |len, entry| entry.map(|_| len + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
diff --git a/src/lsm_tree/compaction/size_tiered.rs b/src/lsm_tree/compaction/size_tiered.rs
index 07ea7f8..9187bd1 100644
--- a/src/lsm_tree/compaction/size_tiered.rs
+++ b/src/lsm_tree/compaction/size_tiered.rs
@@ -495,7 +495,8 @@ where
     }
 
     fn len(&mut self) -> Result<usize> {
-        Ok(self.iter()?.count())
+        self.iter()?
+            .try_fold(0, |len, entry| entry.map(|_| len + 1))
     }
 
     fn is_empty(&mut self) -> Result<bool> {
-- 
2.43.0

