From f465c55e5e11a853f1b8a0b19bda8588023d921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/19] fix: scan_prefix repeats the node prefix in keys on an
 exact match

---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..1add73c 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator will append the prefix of the tree itself
+                let n = tree.load_prefix(&store1)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - n]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 98f993d887f38b201d293637c9c3d45b61b470dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/19] fix: tree equality must distinguish an empty value from
 no value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 1add73c..070daf3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From dfe03d3c18aba822b8541edc34a079c30ed9ec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 03/19] fix: canonicalize must release and normalise an empty
 child array

---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 070daf3..9618e28 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -911,10 +911,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // an empty child array is always represented as none
+            self.set_children_id(&[]);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
     }
 
-- 
2.43.0


From cc6123697ee747ac65f2e19bc5bb2fb7c894cfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 04/19] fix: canonicalize must accept a node whose children are
 not loaded

---
 src/node/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 9618e28..2894a8f 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -892,7 +892,8 @@ impl<S: BlobStore> TreeNode<S> {
     }
 
     fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+        // children that are still in the store are nonempty and have not been modified,
+        // child_count is 2 for them, so there is nothing to do
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
             let children = self.get_children_mut().expect("children must be loaded");
-- 
2.43.0


From 551177baafdcea6b9cfa81a3fc73b4961a9cf592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:38 +0000
Subject: [PATCH 05/19] fix: canonicalize must merge prefixes that are still in
 the store

---
 src/node/mod.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 2894a8f..61edd12 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -891,19 +891,17 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
         // children that are still in the store are nonempty and have not been modified,
         // child_count is 2 for them, so there is nothing to do
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            // combine the prefix again. Either prefix can still be in the store
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
+            prefix.extend_from_slice(&children[0].load_prefix(store)?);
             let children = Arc::make_mut(children);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
-            // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -919,6 +917,7 @@ impl<S: BlobStore> TreeNode<S> {
                 self.set_prefix_owned(OwnedBlobRef::EMPTY);
             }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2079,7 +2078,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2139,6 +2138,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2173,8 +2173,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2285,7 +2284,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2416,6 +2415,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2446,8 +2446,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2551,7 +2550,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2693,6 +2692,7 @@ where
     A::Error: From<B::Error>,
     F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2721,8 +2721,7 @@ where
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2787,6 +2786,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2820,8 +2820,7 @@ where
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2886,6 +2885,7 @@ where
     F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
     A::Error: From<B::Error>,
 {
+    let store = ab.clone();
     let ap = a.load_prefix(&ab)?;
     let bp = b.load_prefix(&bb)?;
     let n = common_prefix(ap.as_ref(), bp.as_ref());
@@ -2922,8 +2922,7 @@ where
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&store)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From e96fbb4cb3e12c3fad19e5ad51cfbb6e677ebd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 06/19] fix: detaching a stored value must load it

---
 src/node/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 61edd12..4d804e3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
-        if !self.is_id() {
+        if !self.is_id() || self.is_none() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
-- 
2.43.0


From a6950f44437e8a635e79867f43496abe164d30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 07/19] fix: detaching stored children must load them

---
 src/node/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 4d804e3..98d0585 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1864,16 +1864,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
             None
         } else {
-            todo!()
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.to_owned());
+            }
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From 1b5ea30a955dbe161e5b14e60b10a58617224ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 08/19] fix: shortening the prefix of a stored node must not
 panic

---
 src/node/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 98d0585..13d0dec 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1431,7 +1431,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
-- 
2.43.0


From 7855e9a83a40c836fc53fccf332beaba0f66bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 09/19] fix: retain_prefix_with must look below a prefix
 rejected by the predicate

---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 13d0dec..4837eb4 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2817,14 +2817,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From 2a0b554bd4723073c58c253be1d2cc8f1c77d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 10/19] fix: PagedFileStore::sync must sync the file

---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..ddbf787 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -284,6 +284,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From 171a4777034f84dbc0f0067749b2839b2e26cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 11/19] fix: PagedFileStore::read must not panic on an invalid
 id

---
 src/store/paged_file_store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index ddbf787..293090a 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,8 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        // every id is the offset of the end of a block
+        anyhow::ensure!(offset > 0 && offset <= self.last_id, "invalid id");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,7 +276,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
-        let offset = u64::from_be_bytes(id.try_into().unwrap());
+        let offset = u64::from_be_bytes(id.try_into()?);
         self.0.lock().bytes(offset)
     }
 
-- 
2.43.0


From 65a47acfe8d469364f0329d63b57b8791636e491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 12/19] fix: PagedFileStore::new must reject a page size of 0

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 293090a..f87bf0e 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -120,7 +120,7 @@ fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
 
 impl Inner {
     pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
-        anyhow::ensure!((page_size as usize) % ALIGN == 0);
+        anyhow::ensure!(page_size > 0 && (page_size as usize) % ALIGN == 0);
         let end = file.seek(std::io::SeekFrom::End(0))?;
         if end == 0 {
             // write header
-- 
2.43.0


From 684300d9863dcfde483c9b9ae28ea1e11626f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:39 +0000
Subject: [PATCH 13/19] fix: build without the paged-file-store feature

---
 src/store/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index c8aeacc..3e0e1d4 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -5,7 +5,7 @@ mod blob;
 pub(crate) mod blob_store;
 #[cfg(feature = "mem-store")]
 mod mem_store;
-#[cfg(all(not(target_arch = "wasm32"), feature = "custom-store"))]
+#[cfg(all(not(target_arch = "wasm32"), feature = "paged-file-store"))]
 mod paged_file_store;
 
 #[cfg(feature = "custom-store")]
-- 
2.43.0


From bb60c3be4642c30e8648a1e8b68159b94913b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 14/19] fix: has_prefix must be false for the empty tree

---
 src/node/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 4837eb4..a9d48a0 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -824,7 +824,10 @@ impl<S: BlobStore> TreeNode<S> {
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-                FindResult::Found(_) => true,
+                // the root of an empty tree is found for the empty prefix
+                FindResult::Found(tree) => {
+                    tree.value_opt().is_some() || tree.load_children(store)?.is_some()
+                }
                 FindResult::Prefix { .. } => true,
                 FindResult::NotFound => false,
             })
-- 
2.43.0


From 1d121d4e0f4ad4385972a26165cdc3ef4a614457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 15/19] fix: malformed stored nodes must result in an error

---
 src/node/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index a9d48a0..835c813 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1307,7 +1307,8 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
     pub fn read_one(rest: &'a [u8]) -> Option<(Self, &'a [u8])> {
         let prefix_hdr = Header::from(*rest.first()?);
         let len = prefix_hdr.len() + 1;
-        if rest.len() < len {
+        // a prefix can not be none
+        if rest.len() < len || prefix_hdr.is_none() {
             return None;
         }
         let (prefix, rest) = (&rest[0], &rest[len..]);
@@ -1321,7 +1322,8 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
 
         let children_hdr = Header::from(*rest.first()?);
         let len = children_hdr.len() + 1;
-        if rest.len() < len {
+        // children are always stored as id
+        if rest.len() < len || !children_hdr.is_id() {
             return None;
         }
         let (children, rest) = (&rest[0], &rest[len..]);
@@ -1857,6 +1859,16 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
             None
         } else {
             let (record_size, data) = (id[0], store.read(&id[1..])?);
+            // a block of children must consist of at least one node, without any remainder
+            let mut rest: &[u8] = &data;
+            loop {
+                rest = BorrowedTreeNode::<S>::read_one(rest)
+                    .ok_or_else(|| anyhow::anyhow!("invalid children {}", Hex::new(id)))?
+                    .1;
+                if rest.is_empty() {
+                    break;
+                }
+            }
             Some(Self {
                 data,
                 offset: 0,
-- 
2.43.0


From a84123dbae8f3064c582ec46ec155f9108b1be6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 16/19] fix: filtering an empty tree by the empty prefix gives
 the empty tree

---
 src/node/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 835c813..0700139 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1509,6 +1509,8 @@ fn filter_prefix<S: BlobStore>(
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
                 res.set_prefix_slice(substitution);
+                // the root of an empty tree must stay empty
+                res.canonicalize(store)?;
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From 519a0a63b54bf7688bb18b77b2fa5fb47c21ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:11 +0000
Subject: [PATCH 17/19] fix: reject a page file that is shorter than its
 recorded size

---
 src/store/paged_file_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index f87bf0e..aaf2e79 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -131,6 +131,11 @@ impl Inner {
             anyhow::bail!("Incomplete header!");
         }
         let size = read_size(&mut file)?;
+        // the recorded size only covers data that has been written
+        anyhow::ensure!(
+            size <= end.saturating_sub(HEADER_SIZE),
+            "recorded size exceeds file size"
+        );
         file.set_len(size + HEADER_SIZE)?;
         file.seek(std::io::SeekFrom::End(0))?;
         Ok(Self {
-- 
2.43.0


From b182a5f8aa45a40f091ce22cd8f9ea0c8c7a3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 18/19] fix: reject blocks whose length does not fit the length
 field of a page file

---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index aaf2e79..f3ce113 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -232,7 +232,7 @@ impl Inner {
 
     fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
         anyhow::ensure!(
-            data.len() <= (self.page_size as usize) - 8,
+            data.len() <= (self.page_size as usize) - 8 && data.len() <= u32::MAX as usize,
             "block too large for this store"
         );
         // len of the data when stored, including length prefix
-- 
2.43.0


From 2d200fd95ff2858e29e46fe1b5d9d87eeea36c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 19/19] fix: slicing a blob behind the largest index panics in
 every build

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0

