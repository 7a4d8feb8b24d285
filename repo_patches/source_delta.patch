From faf9a07c808b83da5e9926d3f233e6199fa06560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:16 +0000
Subject: [PATCH 01/10] fix: traversal honours the upper bound when a key
 equals the lower bound

in_bounds accepted a key equal to an inclusive minimum without looking at the
maximum, so an empty range such as min = max with an exclusive maximum yielded it.
---
 src/traverse.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index dbb21f7..d2bc7cc 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -218,14 +218,17 @@ async fn make_child_key_index_iter(
 impl TraverseConfig {
     fn in_bounds(&self, value: &[u8]) -> bool {
         // TODO impl Ord for LimitValue and remove the expects
-        match self
+        let above_min = match self
             .min_value
             .partial_cmp(value)
             .expect("partial_cmp never returns none")
         {
             std::cmp::Ordering::Greater => false,
             std::cmp::Ordering::Equal => self.min_inclusive,
-            std::cmp::Ordering::Less => match self
+            std::cmp::Ordering::Less => true,
+        };
+        above_min
+            && match self
                 .max_value
                 .partial_cmp(value)
                 .expect("partial_cmp never returns none")
@@ -233,8 +236,7 @@ impl TraverseConfig {
                 std::cmp::Ordering::Greater => true,
                 std::cmp::Ordering::Equal => self.max_inclusive,
                 std::cmp::Ordering::Less => false,
-            },
-        }
+            }
     }
 }
 
-- 
2.43.0


From 484bc8a6e82141d3089dd33a96ba8c91946039f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:09 +0000
Subject: [PATCH 02/10] fix: accept explicitly given infinite traversal bounds

The builder rejected every configuration with an infinite minimum and/or maximum
given explicitly, even negative infinity to positive infinity.
---
 src/traverse.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/traverse.rs b/src/traverse.rs
index d2bc7cc..b7c4fcf 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -83,11 +83,8 @@ fn validate_traverse_config_builder(builder: &TraverseConfigBuilder) -> Result<(
                     return Ok(());
                 }
             }
-            (min, max) => {
-                return Err(format!(
-                    "Min limit [{min:?}] is greater than max limit [{max:?}]!"
-                ))
-            }
+            // an infinite bound on its own side is below (above) everything
+            (Infinite(Negative), _) | (_, Infinite(Positive)) => (),
         },
         (_, _) => return Ok(()),
     }
-- 
2.43.0


From 137c78c3c5d533ba95b6cfd9fde66ce11ecce26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:12 +0000
Subject: [PATCH 03/10] fix: traversing a sub yields exactly the keys of that
 sub

The lower bound lacked the seperator and the upper bound was the incremented prefix,
so keys of the parent and of other subs leaked in (cut in the wrong place, or with a
panic when shorter than prefix and seperator), and subs with an empty prefix or a
prefix ending in 0xff yielded nothing or too little. An unsatisfiable infinite bound
(minimum plus infinity, maximum minus infinity) was treated as unbounded.
---
 src/prefixed.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/prefixed.rs b/src/prefixed.rs
index 68ac21d..8d13bf1 100644
--- a/src/prefixed.rs
+++ b/src/prefixed.rs
@@ -5,9 +5,10 @@ use futures_lite::{Stream, StreamExt};
 
 use crate::{
     error::HyperbeeError,
+    keys::InfiniteKeys::{Negative, Positive},
     traverse::{
         KeyDataResult,
-        LimitValue::{Finite, Infinite},
+        LimitValue::{self, Finite, Infinite},
         TraverseConfig,
     },
     KeyValueData, Shared, Tree,
@@ -135,10 +136,12 @@ impl Prefixed {
         &self,
         conf: &TraverseConfig,
     ) -> Result<impl Stream<Item = KeyDataResult> + 'a, HyperbeeError> {
-        let end_of_prefix = increment_bytes(&self.prefix);
+        // all keys of this sub start with the prefix followed by the seperator
+        let full_prefix = [&self.prefix[..], &self.conf.seperator[..]].concat();
 
         let (min_value, min_inclusive) = match &conf.min_value {
-            Infinite(_) => (Finite(self.prefix.clone()), true),
+            Infinite(Positive) => (conf.min_value.clone(), conf.min_inclusive),
+            Infinite(Negative) => (Finite(full_prefix), true),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.min_inclusive,
@@ -146,8 +149,9 @@ impl Prefixed {
         };
 
         let (max_value, max_inclusive) = match &conf.max_value {
-            // inclusive = false because we don't want to include end_of_prefix if it is a key
-            Infinite(_) => (Finite(end_of_prefix.clone()), false),
+            Infinite(Negative) => (conf.max_value.clone(), conf.max_inclusive),
+            // inclusive = false because we don't want to include the end of the prefix if it is a key
+            Infinite(Positive) => (self.end_of_prefix(), false),
             Finite(key) => (
                 Finite(with_key_prefix!(self, key.as_slice()).to_vec()),
                 conf.max_inclusive,
@@ -174,6 +178,19 @@ impl Prefixed {
             stripped_kv
         }))
     }
+
+    /// The first value after all keys of this sub: the prefix and seperator with the last byte that
+    /// can be incremented incremented, and what follows it removed.
+    fn end_of_prefix(&self) -> LimitValue {
+        let mut full_prefix = [&self.prefix[..], &self.conf.seperator[..]].concat();
+        while full_prefix.last() == Some(&u8::MAX) {
+            full_prefix.pop();
+        }
+        if full_prefix.is_empty() {
+            return Infinite(Positive);
+        }
+        Finite(increment_bytes(&full_prefix))
+    }
 }
 
 fn increment_bytes(pref: &[u8]) -> Vec<u8> {
-- 
2.43.0


From c818819a3eee7d4c87d63dc464c9b9a63cfb23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:51 +0000
Subject: [PATCH 04/10] fix: traversal can be polled on after an error while
 building a node's iterator

---
 src/traverse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traverse.rs b/src/traverse.rs
index b7c4fcf..884dfbb 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -406,6 +406,10 @@ impl Stream for Traverse<'_> {
                             return Poll::Pending;
                         }
                         Err(e) => {
+                            // `iter_fut` is complete and must not be polled again. There is
+                            // nothing more to yield from this node.
+                            self.iter_fut = None;
+                            self.iter = Some(Box::pin(std::iter::empty()));
                             // Push error into stream
                             return Poll::Ready(Some((
                                 Err(HyperbeeError::BuildIteratorInTraverseError(Box::new(e))),
-- 
2.43.0


From 44b30932456f6cde615ae09f403230cf68f0889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 05/10] fix: put and del leave the cached nodes unchanged until
 their block is appended

---
 src/del.rs | 26 ++++++++++++++++++--------
 src/lib.rs | 19 +++++++++++++++++++
 src/put.rs |  8 ++++++--
 3 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 8327cbf..0c217f2 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -1,6 +1,7 @@
 use crate::{
-    changes::Changes, keys::InfiniteKeys, min_keys, nearest_node, put::propagate_changes_up_tree,
-    wchildren, Child, HyperbeeError, KeyValue, KeyValueData, NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, copy_path, keys::InfiniteKeys, min_keys, nearest_node,
+    put::propagate_changes_up_tree, wchildren, Child, HyperbeeError, KeyValue, KeyValueData,
+    NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 use tracing::info;
@@ -40,17 +41,19 @@ impl Side {
         let right_child_index = left_child_index + 1;
 
         let left_child = node.read().await.get_child(left_child_index).await?;
-        let (_, left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
+        let (_, mut left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
         let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();
 
         let right_child = node.read().await.get_child(right_child_index).await?;
-        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
+        let (_, mut right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
         let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
 
         let (child_index, replacement_key, mut path_to_bottom) = if num_left_keys < num_right_keys {
+            copy_path(&mut right_path).await;
             let donor = right_path.last().unwrap().0.write().await.keys.remove(0);
             (right_child_index, donor, right_path)
         } else {
+            copy_path(&mut left_path).await;
             let donor = left_path
                 .last()
                 .unwrap()
@@ -166,6 +169,7 @@ impl Side {
         let donor_child = father.read().await.get_child(donor_index).await?;
         let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
         if can_rotate {
+            let donor_child = donor_child.read().await.copy().await;
             Ok(Some((donor_index, donor_child)))
         } else {
             Ok(None)
@@ -246,6 +250,7 @@ impl Side {
         // Order donor child and deficient child from lowest to highest.
         let (left, right) = {
             let donor_child = father.read().await.get_child(donor_index).await?;
+            let donor_child = donor_child.read().await.copy().await;
             match self {
                 Right => (deficient_child, donor_child),
                 Left => (donor_child, deficient_child),
@@ -354,16 +359,16 @@ async fn repair_one(
     }
     panic!("this should never happen");
 }
-/// must be given a path who's last element has a deficient child...
-#[tracing::instrument(skip(path, changes))]
+/// must be given a path who's last element has a deficient child, and that `deficient_child`.
+#[tracing::instrument(skip(path, deficient_child, changes))]
 async fn repair(
     path: &mut NodePath,
+    mut deficient_child: SharedNode,
     order: usize,
     changes: &mut Changes,
 ) -> Result<Child, HyperbeeError> {
     let (mut father, mut deficient_index) =
         path.pop().expect("path.len() > 0 should be checked before");
-    let mut deficient_child = father.read().await.get_child(deficient_index).await?;
 
     let father_ref = loop {
         let father_with_repaired_child =
@@ -433,6 +438,11 @@ impl Tree {
                 return Ok(Some((false, seq)));
             }
         }
+
+        // Only change copies. The nodes we found are shared (through the cache), and should stay as
+        // they are if this operation does not complete.
+        copy_path(&mut path).await;
+
         // NB: js hyperbee stores the "key" the deleted "key" in the created BlockEntry. So we are
         // doing that too
         let mut changes: Changes = Changes::new(self.version().await, key, None);
@@ -460,7 +470,7 @@ impl Tree {
         let child_ref =
             if !path.is_empty() && bottom_node.read().await.keys.len() < min_keys(MAX_KEYS) {
                 info!("del requires a rebalance");
-                repair(&mut path, MAX_KEYS, &mut changes).await?
+                repair(&mut path, bottom_node, MAX_KEYS, &mut changes).await?
             } else {
                 info!("del does not require a rebalance");
                 changes.add_node(bottom_node.clone())
diff --git a/src/lib.rs b/src/lib.rs
index 4592306..bc25f08 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -190,6 +190,16 @@ impl Node {
         }
     }
 
+    /// Create a copy of this node that can be changed without affecting `self`, which may be cached
+    /// or in use by another task.
+    async fn copy(&self) -> SharedNode {
+        Arc::new(RwLock::new(Node::new(
+            self.keys.clone(),
+            self.children.children.read().await.clone(),
+            self.blocks.clone(),
+        )))
+    }
+
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
@@ -355,6 +365,15 @@ where
     Ok((None, child_index))
 }
 
+/// Replace every node in the `path` with a copy. Changes made to the nodes of the `path` are then
+/// private, until they are committed to the [`Hypercore`](hypercore::Hypercore).
+async fn copy_path(path: &mut NodePath) {
+    for (node, _) in path.iter_mut() {
+        let copied = node.read().await.copy().await;
+        *node = copied;
+    }
+}
+
 /// Descend through tree to the node nearest (or matching) the provided key
 /// Return value describes the path to the key. It looks like:
 /// `(matched, path: Vec<(node, index)>)`
diff --git a/src/put.rs b/src/put.rs
index d0bd6c2..c6aa663 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -4,8 +4,8 @@ use tokio::sync::RwLock;
 use tracing::trace;
 
 use crate::{
-    changes::Changes, nearest_node, wchildren, Child, HyperbeeError, KeyValue, KeyValueData, Node,
-    NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, copy_path, nearest_node, wchildren, Child, HyperbeeError, KeyValue,
+    KeyValueData, Node, NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 /// After making changes to a tree, this function updates parent references all the way to the
@@ -116,6 +116,10 @@ impl Tree {
                 return Ok((matched, None));
             }
 
+            // Only change copies. The nodes we found are shared (through the cache), and should
+            // stay as they are if this operation does not complete.
+            copy_path(&mut path).await;
+
             loop {
                 let (cur_node, cur_index) = match path.pop() {
                     None => break 'new_root matched,
-- 
2.43.0


From d47ba63009a5ec7d6775d2732af0c084d5320d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 06/10] fix: changes to a tree are made one at a time

---
 src/del.rs  |  2 ++
 src/put.rs  |  2 ++
 src/tree.rs | 21 ++++++++++++++++++---
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/del.rs b/src/del.rs
index 0c217f2..68f7aca 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -419,6 +419,8 @@ impl Tree {
         key: &[u8],
         compare_and_swap: impl FnOnce(&KeyValueData) -> bool,
     ) -> Result<Option<(bool, u64)>, HyperbeeError> {
+        let _write_guard = self.write_lock.lock().await;
+
         let Some(root) = self.get_root(false).await? else {
             return Ok(None);
         };
diff --git a/src/put.rs b/src/put.rs
index c6aa663..0162ae1 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -77,6 +77,8 @@ impl Tree {
         value: Option<&[u8]>,
         cas: impl FnOnce(Option<&KeyValueData>, &KeyValueData) -> bool,
     ) -> Result<(Option<u64>, Option<u64>), HyperbeeError> {
+        let _write_guard = self.write_lock.lock().await;
+
         // NB: do this before we call `version` because it can add the header block
         let maybe_root = self.get_root(true).await?;
 
diff --git a/src/tree.rs b/src/tree.rs
index b6a0f71..953bde4 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -16,7 +16,7 @@ use std::{
     path::{Path, PathBuf},
     sync::Arc,
 };
-use tokio::sync::RwLock;
+use tokio::sync::{Mutex, RwLock};
 
 /// A key/value store built on [`hypercore::Hypercore`]. It uses an append only
 /// [B-Tree](https://en.wikipedia.org/wiki/B-tree) and is compatible with the [JavaScript Hyperbee
@@ -25,6 +25,10 @@ use tokio::sync::RwLock;
 #[builder(pattern = "owned", derive(Debug))]
 pub struct Tree {
     pub blocks: Shared<Blocks>,
+    /// Held while changing the tree. A change is based on the current last block, so there can be
+    /// only one at a time.
+    #[builder(default)]
+    pub(crate) write_lock: Arc<Mutex<()>>,
 }
 
 impl Tree {
@@ -50,6 +54,7 @@ impl Tree {
     }
     /// Gets the root of the tree.
     /// When `ensure_header == true` write the hyperbee header onto the hypercore if it does not exist.
+    /// In this case the caller must hold the `write_lock`.
     pub(crate) async fn get_root(
         &self,
         ensure_header: bool,
@@ -103,9 +108,9 @@ impl Tree {
         Ok(None)
     }
 
-    /// Ensure the tree has a header
+    /// Ensure the tree has a header. The caller must hold the `write_lock`.
     async fn ensure_header(&self) -> Result<bool, HyperbeeError> {
-        match self.create_header(None).await {
+        match self.append_header(None).await {
             Ok(_) => Ok(true),
             Err(e) => match e {
                 HyperbeeError::HeaderAlreadyExists => Ok(false),
@@ -119,6 +124,15 @@ impl Tree {
     pub async fn create_header(
         &self,
         metadata: Option<Metadata>,
+    ) -> Result<AppendOutcome, HyperbeeError> {
+        let _write_guard = self.write_lock.lock().await;
+        self.append_header(metadata).await
+    }
+
+    /// Append the header. The caller must hold the `write_lock`.
+    async fn append_header(
+        &self,
+        metadata: Option<Metadata>,
     ) -> Result<AppendOutcome, HyperbeeError> {
         if self.blocks.read().await.info().await.length != 0 {
             return Err(HyperbeeError::HeaderAlreadyExists);
@@ -193,6 +207,7 @@ impl Clone for Tree {
     fn clone(&self) -> Self {
         Self {
             blocks: self.blocks.clone(),
+            write_lock: self.write_lock.clone(),
         }
     }
 }
-- 
2.43.0


From ef5e4aa83c61e17d41ec25978b0cd0372d07dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:26 +0000
Subject: [PATCH 07/10] fix: a store is released when its last handle is
 dropped

The cached nodes referred back to the Blocks that cache them. Cache what is stored instead, and make a node of it for each use, which the user of the node can then change.
---
 src/blocks.rs | 72 +++++++++++++++++++++++++--------------------------
 src/del.rs    | 18 +++----------
 src/lib.rs    | 31 ++++------------------
 src/put.rs    |  8 ++----
 src/tree.rs   |  4 +--
 5 files changed, 48 insertions(+), 85 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index daf94a1..dc1daa3 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -1,4 +1,4 @@
-use std::{collections::BTreeMap, fmt::Debug, sync::Arc};
+use std::{collections::BTreeMap, sync::Arc};
 
 use derive_builder::Builder;
 use futures_lite::{AsyncRead, AsyncWrite};
@@ -49,19 +49,15 @@ impl Blocks {
     /// # Errors
     /// when the provided `seq` is not in the Hypercore
     /// when the data in the Hypercore block cannot be decoded
-    #[tracing::instrument(skip(self, blocks))]
-    pub async fn get(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Shared<BlockEntry>, HyperbeeError> {
+    #[tracing::instrument(skip(self))]
+    pub async fn get(&self, seq: &u64) -> Result<Shared<BlockEntry>, HyperbeeError> {
         if let Some(block) = self.get_from_cache(seq).await {
             trace!("from cache");
             Ok(block)
         } else {
             trace!("from Hypercore");
             let block_entry = self
-                .get_from_core(seq, blocks)
+                .get_from_core(seq)
                 .await?
                 .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
             let block_entry = Arc::new(RwLock::new(block_entry));
@@ -73,15 +69,11 @@ impl Blocks {
         self.cache.read().await.get(seq).cloned()
     }
 
-    async fn get_from_core(
-        &self,
-        seq: &u64,
-        blocks: Shared<Self>,
-    ) -> Result<Option<BlockEntry>, HyperbeeError> {
+    async fn get_from_core(&self, seq: &u64) -> Result<Option<BlockEntry>, HyperbeeError> {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node, blocks)?))
+                Ok(Some(BlockEntry::new(node)?))
             }
             None => Ok(None),
         }
@@ -176,8 +168,16 @@ async fn reorder_nodes(seq: u64, nodes: &[SharedNode]) -> Vec<SharedNode> {
     out
 }
 
-/// Deserialize bytes from a Hypercore block into [`Node`]s.
-fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNode>, DecodeError> {
+/// The parts of a [`Node`], without the reference to the [`Blocks`] its children are looked up in.
+/// The [`Blocks`] cache these, and would never be dropped if what they cache refers back to them.
+#[derive(Debug)]
+struct NodeEntry {
+    keys: Vec<KeyValue>,
+    children: Vec<Child>,
+}
+
+/// Deserialize bytes from a Hypercore block into [`NodeEntry`]s.
+fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeEntry>, DecodeError> {
     Ok(YoloIndex::decode(buf)?
         .levels
         .iter()
@@ -187,16 +187,17 @@ fn make_node_vec<B: Buf>(buf: B, blocks: Shared<Blocks>) -> Result<Vec<SharedNod
             for i in (0..(level.children.len())).step_by(2) {
                 children.push(Child::new(level.children[i], level.children[i + 1]));
             }
-            Arc::new(RwLock::new(Node::new(keys, children, blocks.clone())))
+            NodeEntry { keys, children }
         })
         .collect())
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
 /// Hyperbee
+#[derive(Debug)]
 pub(crate) struct BlockEntry {
     /// Pointers::new(NodeSchema::new(hypercore.get(seq)).index))
-    nodes: Vec<SharedNode>,
+    nodes: Vec<NodeEntry>,
     /// NodeSchema::new(hypercore.get(seq)).key
     pub key: Vec<u8>,
     /// NodeSchema::new(hypercore.get(seq)).value
@@ -204,36 +205,33 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema, blocks: Shared<Blocks>) -> Result<Self, HyperbeeError> {
+    fn new(entry: NodeSchema) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..], blocks)?,
+            nodes: make_node_vec(&entry.index[..])?,
             key: entry.key,
             value: entry.value,
         })
     }
 
-    /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`.
+    /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`. It belongs to the caller,
+    /// who may change it. The [`BlockEntry`] always stays what is stored in the Hypercore.
     /// offset is the offset of the node within the hypercore block
-    pub fn get_tree_node(&self, offset: u64) -> Result<SharedNode, HyperbeeError> {
-        Ok(self
+    pub fn get_tree_node(
+        &self,
+        offset: u64,
+        blocks: Shared<Blocks>,
+    ) -> Result<SharedNode, HyperbeeError> {
+        let NodeEntry { keys, children } = self
             .nodes
             .get(
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node")
-            .clone())
-    }
-}
-
-impl Debug for BlockEntry {
-    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "BlockEntry {{ ")?;
-        let mut nodes = vec![];
-        for node in self.nodes.iter() {
-            nodes.push(node.try_read().unwrap());
-        }
-        f.debug_list().entries(nodes).finish()?;
-        write!(f, "}}")
+            .expect("offset *should* always point to a real node");
+        Ok(Arc::new(RwLock::new(Node::new(
+            keys.clone(),
+            children.clone(),
+            blocks,
+        ))))
     }
 }
diff --git a/src/del.rs b/src/del.rs
index 68f7aca..9b1da80 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -1,7 +1,6 @@
 use crate::{
-    changes::Changes, copy_path, keys::InfiniteKeys, min_keys, nearest_node,
-    put::propagate_changes_up_tree, wchildren, Child, HyperbeeError, KeyValue, KeyValueData,
-    NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, keys::InfiniteKeys, min_keys, nearest_node, put::propagate_changes_up_tree,
+    wchildren, Child, HyperbeeError, KeyValue, KeyValueData, NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 use tracing::info;
@@ -41,19 +40,17 @@ impl Side {
         let right_child_index = left_child_index + 1;
 
         let left_child = node.read().await.get_child(left_child_index).await?;
-        let (_, mut left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
+        let (_, left_path) = nearest_node(left_child, &InfiniteKeys::Positive).await?;
         let num_left_keys = left_path.last().unwrap().0.read().await.keys.len();
 
         let right_child = node.read().await.get_child(right_child_index).await?;
-        let (_, mut right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
+        let (_, right_path) = nearest_node(right_child, &InfiniteKeys::Negative).await?;
         let num_right_keys = right_path.last().unwrap().0.read().await.keys.len();
 
         let (child_index, replacement_key, mut path_to_bottom) = if num_left_keys < num_right_keys {
-            copy_path(&mut right_path).await;
             let donor = right_path.last().unwrap().0.write().await.keys.remove(0);
             (right_child_index, donor, right_path)
         } else {
-            copy_path(&mut left_path).await;
             let donor = left_path
                 .last()
                 .unwrap()
@@ -169,7 +166,6 @@ impl Side {
         let donor_child = father.read().await.get_child(donor_index).await?;
         let can_rotate = min_keys(order) < donor_child.read().await.keys.len();
         if can_rotate {
-            let donor_child = donor_child.read().await.copy().await;
             Ok(Some((donor_index, donor_child)))
         } else {
             Ok(None)
@@ -250,7 +246,6 @@ impl Side {
         // Order donor child and deficient child from lowest to highest.
         let (left, right) = {
             let donor_child = father.read().await.get_child(donor_index).await?;
-            let donor_child = donor_child.read().await.copy().await;
             match self {
                 Right => (deficient_child, donor_child),
                 Left => (donor_child, deficient_child),
@@ -440,11 +435,6 @@ impl Tree {
                 return Ok(Some((false, seq)));
             }
         }
-
-        // Only change copies. The nodes we found are shared (through the cache), and should stay as
-        // they are if this operation does not complete.
-        copy_path(&mut path).await;
-
         // NB: js hyperbee stores the "key" the deleted "key" in the created BlockEntry. So we are
         // doing that too
         let mut changes: Changes = Changes::new(self.version().await, key, None);
diff --git a/src/lib.rs b/src/lib.rs
index bc25f08..30c3223 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -137,13 +137,11 @@ impl Children {
             let child_ref = &self.children.read().await[index].clone();
             (child_ref.seq, child_ref.offset)
         };
-        let block = self
-            .blocks
+        let block = self.blocks.read().await.get(&seq).await?;
+        let node = block
             .read()
             .await
-            .get(&seq, self.blocks.clone())
-            .await?;
-        let node = block.read().await.get_tree_node(offset)?;
+            .get_tree_node(offset, self.blocks.clone())?;
         Ok(node)
     }
 
@@ -190,16 +188,6 @@ impl Node {
         }
     }
 
-    /// Create a copy of this node that can be changed without affecting `self`, which may be cached
-    /// or in use by another task.
-    async fn copy(&self) -> SharedNode {
-        Arc::new(RwLock::new(Node::new(
-            self.keys.clone(),
-            self.children.children.read().await.clone(),
-            self.blocks.clone(),
-        )))
-    }
-
     pub async fn n_children(&self) -> usize {
         self.children.len().await
     }
@@ -247,7 +235,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
@@ -257,7 +245,7 @@ impl Node {
             .blocks
             .read()
             .await
-            .get(&seq, self.blocks.clone())
+            .get(&seq)
             .await?
             .read()
             .await
@@ -365,15 +353,6 @@ where
     Ok((None, child_index))
 }
 
-/// Replace every node in the `path` with a copy. Changes made to the nodes of the `path` are then
-/// private, until they are committed to the [`Hypercore`](hypercore::Hypercore).
-async fn copy_path(path: &mut NodePath) {
-    for (node, _) in path.iter_mut() {
-        let copied = node.read().await.copy().await;
-        *node = copied;
-    }
-}
-
 /// Descend through tree to the node nearest (or matching) the provided key
 /// Return value describes the path to the key. It looks like:
 /// `(matched, path: Vec<(node, index)>)`
diff --git a/src/put.rs b/src/put.rs
index 0162ae1..3d31a31 100644
--- a/src/put.rs
+++ b/src/put.rs
@@ -4,8 +4,8 @@ use tokio::sync::RwLock;
 use tracing::trace;
 
 use crate::{
-    changes::Changes, copy_path, nearest_node, wchildren, Child, HyperbeeError, KeyValue,
-    KeyValueData, Node, NodePath, SharedNode, Tree, MAX_KEYS,
+    changes::Changes, nearest_node, wchildren, Child, HyperbeeError, KeyValue, KeyValueData, Node,
+    NodePath, SharedNode, Tree, MAX_KEYS,
 };
 
 /// After making changes to a tree, this function updates parent references all the way to the
@@ -118,10 +118,6 @@ impl Tree {
                 return Ok((matched, None));
             }
 
-            // Only change copies. The nodes we found are shared (through the cache), and should
-            // stay as they are if this operation does not complete.
-            copy_path(&mut path).await;
-
             loop {
                 let (cur_node, cur_index) = match path.pop() {
                     None => break 'new_root matched,
diff --git a/src/tree.rs b/src/tree.rs
index 953bde4..af5d4d3 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -68,11 +68,11 @@ impl Tree {
             return Ok(None);
         }
         let root = blocks
-            .get(&(version - 1), self.blocks.clone())
+            .get(&(version - 1))
             .await?
             .read()
             .await
-            .get_tree_node(0)?;
+            .get_tree_node(0, self.blocks.clone())?;
         Ok(Some(root))
     }
 
-- 
2.43.0


From 1280c1284d2a00f3535efd48c4570fb4ab4cf647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:19 +0000
Subject: [PATCH 08/10] fix: a traversal that is not polled anymore cannot keep
 the lock of the cache

---
 src/blocks.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index dc1daa3..4411c6f 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -1,4 +1,7 @@
-use std::{collections::BTreeMap, sync::Arc};
+use std::{
+    collections::BTreeMap,
+    sync::{Arc, PoisonError, RwLock as SyncRwLock},
+};
 
 use derive_builder::Builder;
 use futures_lite::{AsyncRead, AsyncWrite};
@@ -23,7 +26,9 @@ use crate::{
 pub struct Blocks {
     #[builder(default)]
     // TODO make the cache smarter. Allow setting max size and strategy
-    cache: Shared<BTreeMap<u64, Shared<BlockEntry>>>,
+    /// Not an async lock: waiting in the queue of an async lock, a task that is not polled anymore
+    /// (like the one of a traversal that is put aside) would be handed the lock and keep it.
+    cache: Arc<SyncRwLock<BTreeMap<u64, Shared<BlockEntry>>>>,
     #[builder(setter(custom))]
     core: ReplicatingCore,
 }
@@ -51,7 +56,7 @@ impl Blocks {
     /// when the data in the Hypercore block cannot be decoded
     #[tracing::instrument(skip(self))]
     pub async fn get(&self, seq: &u64) -> Result<Shared<BlockEntry>, HyperbeeError> {
-        if let Some(block) = self.get_from_cache(seq).await {
+        if let Some(block) = self.get_from_cache(seq) {
             trace!("from cache");
             Ok(block)
         } else {
@@ -61,12 +66,19 @@ impl Blocks {
                 .await?
                 .ok_or(HyperbeeError::NoBlockAtSeqError(*seq))?;
             let block_entry = Arc::new(RwLock::new(block_entry));
-            self.cache.write().await.insert(*seq, block_entry.clone());
+            self.cache
+                .write()
+                .unwrap_or_else(PoisonError::into_inner)
+                .insert(*seq, block_entry.clone());
             Ok(block_entry)
         }
     }
-    async fn get_from_cache(&self, seq: &u64) -> Option<Shared<BlockEntry>> {
-        self.cache.read().await.get(seq).cloned()
+    fn get_from_cache(&self, seq: &u64) -> Option<Shared<BlockEntry>> {
+        self.cache
+            .read()
+            .unwrap_or_else(PoisonError::into_inner)
+            .get(seq)
+            .cloned()
     }
 
     async fn get_from_core(&self, seq: &u64) -> Result<Option<BlockEntry>, HyperbeeError> {
-- 
2.43.0


From cf0a0c743938b9974f0e4b84594a3965dc5ddab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:29 +0000
Subject: [PATCH 09/10] fix: blocks that do not hold valid nodes are reported
 as errors

---
 src/blocks.rs   | 42 ++++++++++++++++++++++++++++--------------
 src/del.rs      |  2 +-
 src/error.rs    |  6 ++++++
 src/traverse.rs |  2 +-
 4 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/src/blocks.rs b/src/blocks.rs
index 4411c6f..d83800a 100644
--- a/src/blocks.rs
+++ b/src/blocks.rs
@@ -9,7 +9,7 @@ use hypercore::{
     replication::{CoreInfo, CoreMethods},
     AppendOutcome,
 };
-use prost::{bytes::Buf, DecodeError, Message};
+use prost::{bytes::Buf, Message};
 use replicator::ReplicatingCore;
 use tokio::sync::RwLock;
 use tracing::trace;
@@ -85,7 +85,7 @@ impl Blocks {
         match self.core.get(*seq).await? {
             Some(core_block) => {
                 let node = NodeSchema::decode(&core_block[..])?;
-                Ok(Some(BlockEntry::new(node)?))
+                Ok(Some(BlockEntry::new(node, *seq)?))
             }
             None => Ok(None),
         }
@@ -188,20 +188,32 @@ struct NodeEntry {
     children: Vec<Child>,
 }
 
-/// Deserialize bytes from a Hypercore block into [`NodeEntry`]s.
-fn make_node_vec<B: Buf>(buf: B) -> Result<Vec<NodeEntry>, DecodeError> {
-    Ok(YoloIndex::decode(buf)?
+/// Deserialize bytes from the Hypercore block at `seq` into [`NodeEntry`]s.
+/// # Errors
+/// when a node is not one that could be part of a Hyperbee, so what is read can be relied on
+fn make_node_vec<B: Buf>(buf: B, seq: u64) -> Result<Vec<NodeEntry>, HyperbeeError> {
+    YoloIndex::decode(buf)?
         .levels
         .iter()
         .map(|level| {
-            let keys = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
-            let mut children = vec![];
-            for i in (0..(level.children.len())).step_by(2) {
-                children.push(Child::new(level.children[i], level.children[i + 1]));
+            let refs = level.children.chunks_exact(2);
+            if !refs.remainder().is_empty() {
+                return Err(HyperbeeError::MalformedBlockError(seq));
             }
-            NodeEntry { keys, children }
+            let children: Vec<Child> = refs.map(|c| Child::new(c[0], c[1])).collect();
+            let keys: Vec<KeyValue> = level.keys.iter().map(|k| KeyValue::new(*k)).collect();
+            // an internal node has a child on either side of each of its keys
+            let is_internal = !children.is_empty();
+            if is_internal && (keys.is_empty() || children.len() != keys.len() + 1) {
+                return Err(HyperbeeError::MalformedBlockError(seq));
+            }
+            // nothing can be in a block that comes later
+            if keys.iter().any(|k| k.seq > seq) || children.iter().any(|c| c.seq > seq) {
+                return Err(HyperbeeError::MalformedBlockError(seq));
+            }
+            Ok(NodeEntry { keys, children })
         })
-        .collect())
+        .collect()
 }
 
 /// A "block" from a [`Hypercore`](hypercore::Hypercore) deserialized into the form used in
@@ -217,9 +229,9 @@ pub(crate) struct BlockEntry {
 }
 
 impl BlockEntry {
-    fn new(entry: NodeSchema) -> Result<Self, HyperbeeError> {
+    fn new(entry: NodeSchema, seq: u64) -> Result<Self, HyperbeeError> {
         Ok(BlockEntry {
-            nodes: make_node_vec(&entry.index[..])?,
+            nodes: make_node_vec(&entry.index[..], seq)?,
             key: entry.key,
             value: entry.value,
         })
@@ -228,6 +240,8 @@ impl BlockEntry {
     /// Get a [`Node`] from this [`BlockEntry`] at the provided `offset`. It belongs to the caller,
     /// who may change it. The [`BlockEntry`] always stays what is stored in the Hypercore.
     /// offset is the offset of the node within the hypercore block
+    /// # Errors
+    /// when there is no node at `offset`
     pub fn get_tree_node(
         &self,
         offset: u64,
@@ -239,7 +253,7 @@ impl BlockEntry {
                 usize::try_from(offset)
                     .map_err(|e| HyperbeeError::U64ToUsizeConversionError(offset, e))?,
             )
-            .expect("offset *should* always point to a real node");
+            .ok_or(HyperbeeError::NoNodeAtOffsetError(offset))?;
         Ok(Arc::new(RwLock::new(Node::new(
             keys.clone(),
             children.clone(),
diff --git a/src/del.rs b/src/del.rs
index 9b1da80..3876aed 100644
--- a/src/del.rs
+++ b/src/del.rs
@@ -59,7 +59,7 @@ impl Side {
                 .await
                 .keys
                 .pop()
-                .unwrap();
+                .ok_or(HyperbeeError::EmptyNodeError)?;
             (left_child_index, donor, left_path)
         };
         node.write().await.keys.insert(key_index, replacement_key);
diff --git a/src/error.rs b/src/error.rs
index 6da12f9..a207985 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -21,6 +21,12 @@ pub enum HyperbeeError {
     DecodeError(#[from] DecodeError),
     #[error("No block at seq  `{0}`")]
     NoBlockAtSeqError(u64),
+    #[error("The block at seq `{0}` does not hold valid nodes")]
+    MalformedBlockError(u64),
+    #[error("No node at offset `{0}` of the block")]
+    NoNodeAtOffsetError(u64),
+    #[error("A node without keys was found below the root")]
+    EmptyNodeError,
     #[error("There was an error building `crate::Hyperbee` from `crate::tree::Tree`")]
     TreeBuilderError(#[from] TreeBuilderError),
     #[error(
diff --git a/src/traverse.rs b/src/traverse.rs
index 884dfbb..dc3da0a 100644
--- a/src/traverse.rs
+++ b/src/traverse.rs
@@ -462,7 +462,7 @@ pub(crate) async fn print(node: SharedNode) -> Result<String, HyperbeeError> {
     tokio::pin!(stream);
     while let Some((key_data, node)) = stream.next().await {
         let h = node.read().await.height().await?;
-        out += &LEADER.repeat(starting_height - h);
+        out += &LEADER.repeat(starting_height.saturating_sub(h));
         let k = key_data?.key;
         let decoded_k = String::from_utf8(k)?;
         out += &decoded_k;
-- 
2.43.0


From 67ee213eea14bd09917ea0ce8db4ea50e7a2584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:10 +0000
Subject: [PATCH 10/10] fix: hb_get calls back for absent keys, absent values
 and errors

---
 src/external.rs | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/external.rs b/src/external.rs
index 137ce7a..519a151 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -18,7 +18,11 @@ type HyperbeePointer = *mut Hyperbee;
 type HbDiskPointer = HyperbeePointer;
 
 /// Type of callback we pass results to
+/// error_code != 0 means the lookup failed, error_message says why
 /// seq == 0 means the key was not found
+/// value_buff == NULL means there is no value
+/// The callee must pass error_message to `deallocate_rust_string` and value_buff, when it is not
+/// NULL, to `deallocate_rust_buffer`
 pub type HbGetResultCallback = unsafe extern "C" fn(
     error_code: i64,
     error_message: *const c_char,
@@ -48,6 +52,9 @@ unsafe extern "C" fn deallocate_rust_string(ptr: *mut c_char) {
 /// https://stackoverflow.com/questions/39224904/how-to-expose-a-rust-vect-to-ffi/39270881#39270881
 #[no_mangle]
 unsafe extern "C" fn deallocate_rust_buffer(ptr: *mut u8, len: size_t) {
+    if ptr.is_null() {
+        return;
+    }
     drop(Vec::from_raw_parts(ptr, len, len));
 }
 
@@ -117,6 +124,10 @@ pub extern "C" fn hyperbee_from_storage_directory(
 }
 
 fn vec_from_c_vec(bytes: *const c_uchar, bytes_length: size_t) -> Vec<u8> {
+    // C code may pass NULL for an empty array
+    if bytes_length == 0 {
+        return vec![];
+    }
     let bytes = unsafe { slice::from_raw_parts(bytes, bytes_length) };
     Vec::from(bytes)
 }
@@ -134,17 +145,23 @@ pub extern "C" fn hb_get(
     let rkey = vec_from_c_vec(key_buff, key_size);
 
     rt.spawn(async move {
-        match hb.get(&rkey).await {
-            Ok(Some((seq, Some(value)))) => {
-                let (vec, size) = c_vec_from_vec(value);
-                let no_error_msg = CString::new("").unwrap().into_raw();
-                unsafe {
-                    callback(0, no_error_msg, seq, vec, size);
-                }
-            }
-            Ok(_) => todo!(),
-            Err(_e) => todo!(),
+        let (error_code, error_message, seq, value) = match hb.get(&rkey).await {
+            Ok(Some((seq, value))) => (0, String::new(), seq, value),
+            // not found
+            Ok(None) => (0, String::new(), 0, None),
+            Err(e) => (1, e.to_string(), 0, None),
         };
+        // nul bytes cannot be part of a C string
+        let error_message = CString::new(error_message.replace('\0', ""))
+            .unwrap_or_default()
+            .into_raw();
+        let (vec, size) = match value {
+            Some(value) => c_vec_from_vec(value),
+            None => (ptr::null_mut(), 0),
+        };
+        unsafe {
+            callback(error_code, error_message, seq, vec, size);
+        }
     });
     0
 }
-- 
2.43.0

