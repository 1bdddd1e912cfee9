From 82034619014e5da5b043d1bfbc940c266848a56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:29 +0000
Subject: [PATCH 01/21] fix: return a value on lookup only for exactly the
 stored key

Lookups compared the key with a leaf only up to the shorter of the two, so
a prefix or an extension of a stored key returned its value. A key ending
inside of an extension node made the lookup panic.
---
 src/trie_ops.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..4aec1a5 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,16 +311,22 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // A key that ends inside of the extension can not be in the trie.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
-                match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
+                match r == *nibbles {
                     false => None,
                     true => child.trie_get_intern(curr_nibbles),
                 }
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 9e2d490267173bd30e87c17deb1824c7d1da1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:11:54 +0000
Subject: [PATCH 02/21] fix: split an extension node when an inserted key ends
 inside of it

A key that is a proper prefix of an extension's path was treated as if it
continued through the whole extension, so its value was stored in the
branch below, under a longer key.
---
 src/trie_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 4aec1a5..da5a10f 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,9 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // Only descend if the entire extension is part of the key. A key that ends
+            // inside of the extension needs to split it.
+            if info.existing_postfix.is_empty() {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 4f985b2b209fe71399582149dc371f36d247517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:03 +0000
Subject: [PATCH 03/21] fix: ignore a delete whose key ends inside of an
 extension node

Such a key was treated as if it continued through the whole extension, so
the value of a different, longer key was deleted.
---
 src/trie_ops.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index da5a10f..25ef880 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -515,6 +515,11 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
+            // A key that ends inside of the extension can not be in the trie.
+            if curr_k.count < ext_nibbles.count {
+                return None;
+            }
+
             ext_nibbles
                 .nibbles_are_identical_up_to_smallest_count(&curr_k)
                 .then(|| {
-- 
2.43.0


From 5c5bac3589b765ae52b16cdeadb6c12da9627890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:03 +0000
Subject: [PATCH 04/21] fix: keep the value of a branch when deleting one of
 its children

Deleting a child of a branch with two children dropped the value stored in
the branch, and with one child it panicked. The branch now stays, or
becomes a leaf if only its value is left.
---
 src/trie_ops.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 25ef880..785e2fd 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -481,8 +481,16 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
+                        && value.is_empty()
                         && get_num_non_empty_children(children) <= 2
                     {
+                        // Only the value of the branch is left.
+                        false
+                            if node_is_empty(&updated_child)
+                                && get_num_non_empty_children(children) == 1 =>
+                        {
+                            leaf(Nibbles::default(), value.clone())
+                        }
                         false => {
                             // Branch stays.
                             let mut updated_children = children.clone();
-- 
2.43.0


From 1fbf1554bde90396dfcbb38d7f97d18dfb3f677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:28 +0000
Subject: [PATCH 05/21] fix: report nothing when deleting a branch value that
 is not set

Deleting a key that ends at a branch without a value returned an empty
value as if there had been one.
---
 src/trie_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 785e2fd..f26fea3 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -470,6 +470,10 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
+                if value.is_empty() {
+                    return None;
+                }
+
                 return Some((branch(children.clone(), Vec::new()), value.clone()));
             }
 
-- 
2.43.0


From ae9ad2f93797a360d43c7f6ebd5ec0f85914cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:53 +0000
Subject: [PATCH 06/21] fix: collapse a branch whose value was deleted and that
 has one child

A branch with a single child and no value is not part of a valid Ethereum
trie, so the root hash after the deletion differed from the root of a trie
that never held the deleted key.
---
 src/partial_trie.rs |  7 +++----
 src/trie_ops.rs     | 11 ++++++++++-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..12b8bc1 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,10 +76,9 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
+    /// To agree with Ethereum specs, nodes that are redundant after deletion are
+    /// removed or merged. For example, a `Branch` node that is left with a
+    /// single child and no value is replaced. Also note:
     /// - Deleted leaves are replaced with `Empty` nodes.
     /// - Deleted branch values are replaced with empty `Vec`s.
     ///
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index f26fea3..63b9935 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -474,7 +474,16 @@ fn delete_intern<N: PartialTrie>(
                     return None;
                 }
 
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                let mut non_empty = (0..16).filter(|i| !node_is_empty(&children[*i as usize]));
+                let updated_node = match (non_empty.next(), non_empty.next()) {
+                    // Extension may be collapsed one level above.
+                    (Some(nib), None) => {
+                        extension(Nibbles::from_nibble(nib), children[nib as usize].clone())
+                    }
+                    _ => branch(children.clone(), Vec::new()),
+                };
+
+                return Some((updated_node, value.clone()));
             }
 
             let nibble = curr_k.pop_next_nibble_front();
-- 
2.43.0


From bc7e23b94f4c81b849a7c89ffdb2f7051a4bec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:02 +0000
Subject: [PATCH 07/21] fix: do not share the cached hash between clones of a
 trie

A clone shared the cache of the trie it was cloned from. After modifying
one of the two, a hash cached through one was reported by the other.
---
 src/partial_trie.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 12b8bc1..7726392 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -283,12 +283,23 @@ where
 /// A partial trie that lazily caches hashes for each node as needed.
 /// If you are doing frequent hashing of node, you probably want to use this
 /// `Trie` variant.
-#[derive(Clone, Debug, Default, Deserialize, Serialize)]
+#[derive(Debug, Default, Deserialize, Serialize)]
 pub struct HashedPartialTrie {
     pub(crate) node: Node<HashedPartialTrie>,
     pub(crate) hash: Arc<RwLock<Option<H256>>>,
 }
 
+// Manual impl since a clone must not share its cached hash with the original,
+// as both can be modified independently afterwards.
+impl Clone for HashedPartialTrie {
+    fn clone(&self) -> Self {
+        Self {
+            node: self.node.clone(),
+            hash: Arc::new(RwLock::new(*self.hash.read())),
+        }
+    }
+}
+
 impl_from_for_trie_type!(HashedPartialTrie);
 
 impl HashedPartialTrie {
-- 
2.43.0


From b94bce1d3066b51d05176001f5d6d1ef53631a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:30 +0000
Subject: [PATCH 08/21] fix: drop the cached hash when handing out mutable
 access to a node

Replacing the node of a trie through a mutable reference left the cached
hash of the old node in place.
---
 src/partial_trie.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 7726392..3cfb1e1 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -406,6 +406,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The node may get replaced through the reference that we hand out.
+        self.set_hash(None);
         &mut self.node
     }
 }
-- 
2.43.0


From 3cf84e5b8769fdc1cbbee8b746741ea5ca46d50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:58 +0000
Subject: [PATCH 09/21] fix: drop the cached hash before extending a trie

If an insertion panicked, the entries inserted before it stayed in the trie
while the hash cached earlier was kept.
---
 src/partial_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index 3cfb1e1..b4242f0 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -341,8 +341,9 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes);
+        // Before the insertions, since entries may stay inserted if a later one panics.
         self.set_hash(None);
+        self.node.trie_extend(nodes);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
-- 
2.43.0


From 24149fb066e9eb75c134cfbcc29d950a0205ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:16 +0000
Subject: [PATCH 10/21] fix: reset the whole tracked trie between the subsets
 of a batch

Only one level of nodes was reset, so a subset also contained nodes that
were requested for earlier subsets of the same batch.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..7ce0d24 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -330,14 +330,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From 65582321cbda87f508610ca651c33fb1905c3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:35 +0000
Subject: [PATCH 11/21] fix: accept subset keys that end inside of an extension
 node

Creating a subset panicked for such keys, although keys that are not in the
trie are allowed.
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 7ce0d24..f1842f1 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // A key that ends inside of the extension does not go any further.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 5444578f2ce0ad06f5edff51fd838d97510a912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:53 +0000
Subject: [PATCH 12/21] fix: convert U128 and U512 values with a buffer of
 their own size

Both were written to a 32 byte buffer, which does not fit a U512 and left
the value of a U128 padded with trailing zeros.
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 63b9935..5a772d5 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From a7570e439b0966342eb24a1c08de826acb965a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:50 +0000
Subject: [PATCH 13/21] fix: panic on out of range nibble requests in release
 builds too

Popping from the back of empty nibbles, ranges past the end and splitting
past the end are documented to panic, but did so only in builds with
overflow checks. Release builds returned made up nibbles.
---
 src/nibbles.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..81f8aed 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -285,6 +285,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -368,6 +370,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.start <= range.end && range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -479,6 +483,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
-- 
2.43.0


From f853a5284cb8f1aa3025f0800dfcd1aad5378b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:08 +0000
Subject: [PATCH 14/21] fix: return an error when decoding an empty hex prefix
 encoding

Decoding an empty byte string panicked with an out of bounds index.
---
 src/nibbles.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 81f8aed..d424637 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -61,6 +61,9 @@ pub enum FromHexPrefixError {
 
     #[error("Tried to convert a hex prefix byte string into `Nibbles` that was longer than 64 bytes: (length: {0}, bytes: {1})")]
     TooLong(String, usize),
+
+    #[error("Tried to convert an empty hex prefix byte string into `Nibbles`")]
+    Empty,
 }
 
 #[derive(Debug, Error)]
@@ -662,6 +665,10 @@ impl Nibbles {
             ));
         }
 
+        if hex_prefix_bytes.is_empty() {
+            return Err(FromHexPrefixError::Empty);
+        }
+
         let flag_bits = (hex_prefix_bytes[0] & 0b11110000) >> 4;
 
         // is_odd --> 0b01
-- 
2.43.0


From d09a767cda1a84786585e3ec4eb3df14de7c3f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:25 +0000
Subject: [PATCH 15/21] fix: report a node difference only for nodes that
 differ

The comparison of node type and key piece was inverted: nodes of the same
type were reported as a node difference without looking any further, and
nodes of different types reached an unreachable!().
---
 src/debug_tools/diff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..540ba05 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
-- 
2.43.0


From d63c33d2681fae8c5217b6b7387156880d07c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:41 +0000
Subject: [PATCH 16/21] fix: report tries that only differ in the value of a
 branch

The hash check of a branch ran only if a child differed instead of only if
no child differed, so a difference in nothing but a branch value was not
reported. The order of the detection states was inverted as well.
---
 src/debug_tools/diff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 540ba05..40fed9b 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -55,9 +55,9 @@ impl Display for TrieDiff {
 
 #[derive(Copy, Clone, Debug)]
 enum DiffDetectionState {
-    NodeTypesDiffer = 0, // Also implies that hashes differ.
+    NoDiffDetected = 0,
     HashDiffDetected,
-    NoDiffDetected,
+    NodeTypesDiffer, // Also implies that hashes differ.
 }
 
 impl DiffDetectionState {
@@ -340,10 +340,10 @@ fn find_latest_diff_point_between_tries_rec(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-                    most_significant_diff_found
-                } else {
                     // Also run a hash check if we haven't picked anything up yet.
                     create_diff_detection_state_based_from_hash_and_gen_hashes(state, depth_state)
+                } else {
+                    most_significant_diff_found
                 }
             }
             (
-- 
2.43.0


From 5e8fdb78bbc00956fbfca4f42cac9ac91136a234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:28 +0000
Subject: [PATCH 17/21] fix: do not panic on path queries whose key ends at a
 branch

The branch was asked for a nibble of the key although none was left.
---
 src/debug_tools/common.rs | 14 +++++++++-----
 src/debug_tools/query.rs  |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..a2f3846 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// Holds no nibble if the key ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -41,7 +43,7 @@ impl PathSegment {
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
             PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Branch(nib) => nib.map(Nibbles::from_nibble),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +77,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..606429f 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -277,6 +277,7 @@ fn get_path_from_query_rec<T: PartialTrie>(
 
     match node {
         Node::Empty | Node::Hash(_) => (),
+        Node::Branch { .. } if curr_key.is_empty() => (),
         Node::Branch { children, value: _ } => {
             let nib = curr_key.pop_next_nibble_front();
 
-- 
2.43.0


From 976b246a9f5fbdf424765790e17517b25ff502b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:21:48 +0000
Subject: [PATCH 18/21] fix: follow an extension node in a path query only if
 it matches the key

The nibbles of the extension were not removed from the key, and the child
was visited even if the key took a different path.
---
 src/debug_tools/query.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index 606429f..effc0d9 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -284,8 +284,13 @@ fn get_path_from_query_rec<T: PartialTrie>(
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
+            let curr_key_next_nibs =
+                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+
+            if *nibbles == curr_key_next_nibs {
+                curr_key.pop_nibbles_front(nibbles.count);
+                get_path_from_query_rec(child, curr_key, query_out);
+            }
         }
         Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
-- 
2.43.0


From bec863ba98003486dd83d7ee8d9c7b2287835301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:04 +0000
Subject: [PATCH 19/21] fix: report a queried key as found only if there is an
 entry for it

A key was reported as found whenever all of its nibbles were used up, even
if the path ended at an empty node or at a branch without a value.
---
 src/debug_tools/query.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index effc0d9..afffe3a 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,8 +276,11 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
-        Node::Branch { .. } if curr_key.is_empty() => (),
+        Node::Empty => (),
+        Node::Hash(_) => query_out.node_found = curr_key.is_empty(),
+        Node::Branch { value, .. } if curr_key.is_empty() => {
+            query_out.node_found = !value.is_empty()
+        }
         Node::Branch { children, value: _ } => {
             let nib = curr_key.pop_next_nibble_front();
 
@@ -292,18 +295,7 @@ fn get_path_from_query_rec<T: PartialTrie>(
                 get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-        Node::Leaf { nibbles, value: _ } => {
-            let curr_key_next_nibs =
-                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-
-            if *nibbles == curr_key_next_nibs {
-                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
-            }
-        }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => query_out.node_found = nibbles == curr_key,
     }
 }
 
-- 
2.43.0


From 950a8cb7adadfabef9e2b9d4180bec80cb82ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:12 +0000
Subject: [PATCH 20/21] fix: panic on any out of range nibble index in release
 builds

Looking up or splitting at an index far past the end wrapped around in
builds without overflow checks, so get_nibble, split_at_idx and
split_at_idx_postfix returned nibbles instead of panicking as documented.
---
 src/nibbles.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index d424637..0bdb466 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -263,6 +263,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -463,6 +465,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -502,6 +506,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From 30463b44214e586b47683b3f646270378ed7b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:04:36 +0000
Subject: [PATCH 21/21] fix: report the depth of a difference between two tries

The depth of a reported difference was always 0. The search already tracks
the depth of the nodes that it compares, so pass it on.
---
 src/debug_tools/diff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index 40fed9b..446b797 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -89,13 +89,14 @@ impl DiffPoint {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
+        depth: usize,
         path: NodePath,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -195,6 +196,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -205,6 +207,7 @@ impl DepthNodeDiffState {
             &state.curr_key,
             state.a,
             state.b,
+            state.curr_depth,
             state.curr_path.clone(),
         );
     }
@@ -214,13 +217,14 @@ impl DepthNodeDiffState {
         parent_k: &Nibbles,
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
+        depth: usize,
         path: NodePath,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, depth, path));
         }
     }
 }
-- 
2.43.0

