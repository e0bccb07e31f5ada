From d4c59f7f545cf57126e32fb559b16fed3c7e8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 01/18] fix: relate keys only through the comparator

Keys were compared with ==/!= in dense_map and btree, so equivalent keys
under a comparator coarser than == were stored twice and not found.
---
 include/fast_containers/btree.ipp     | 12 ++++++------
 include/fast_containers/dense_map.ipp | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 74975f6..6d6dea0 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -366,7 +366,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     auto it = node->internal_children.lower_bound(key);
 
     if (it != node->internal_children.begin() &&
-        (it == node->internal_children.end() || it->first != key)) {
+        (it == node->internal_children.end() || comp_(key, it->first))) {
       --it;
     }
 
@@ -377,7 +377,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto it = node->leaf_children.lower_bound(key);
 
   if (it != node->leaf_children.begin() &&
-      (it == node->leaf_children.end() || it->first != key)) {
+      (it == node->leaf_children.end() || comp_(key, it->first))) {
     --it;
   }
 
@@ -689,7 +689,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Erase elements one by one until we reach 'last'
   while (first != end()) {
     // Check if we've reached the 'last' position by comparing keys
-    if (last_key.has_value() && (*first).first == *last_key) {
+    if (last_key.has_value() && !comp_((*first).first, *last_key)) {
       break;
     }
     first = erase(first);
@@ -927,7 +927,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   auto pos = leaf->data.lower_bound(key);
 
   // Check if key already exists - delegate to on_exists callback
-  if (pos != leaf->data.end() && pos->first == key) {
+  if (pos != leaf->data.end() && !comp_(key, pos->first)) {
     return std::forward<OnExists>(on_exists)(leaf, pos);
   }
 
@@ -1112,7 +1112,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   if (it != children.end() && it->second == child) {
     // Found it at lower_bound position
     is_leftmost = (it == children.begin());
-    if (it->first != new_min) {
+    if (comp_(new_min, it->first)) {
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
       children.unsafe_update_key(it, new_min);
@@ -1120,7 +1120,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   } else if (it != children.begin()) {
     // Check the previous entry
     --it;
-    if (it->second == child && it->first != new_min) {
+    if (it->second == child && comp_(it->first, new_min)) {
       is_leftmost = (it == children.begin());
       // Update key in place - position doesn't change since new_min is still
       // within this child's range (between left and right sibling mins)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 1d96e72..f1d4f5f 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -367,7 +367,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(const Key& key) {
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return iterator(this, idx);
   }
   return end();
@@ -388,7 +388,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::find(
   const auto pos = lower_bound_key(key);
   const size_type idx = pos - keys_.begin();
 
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return const_iterator(this, idx);
   }
   return end();
@@ -442,7 +442,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -462,7 +462,7 @@ typename dense_map<Key, Value, Length, Compare, SearchModeT>::const_iterator
 dense_map<Key, Value, Length, Compare, SearchModeT>::upper_bound(
     const Key& key) const {
   auto it = lower_bound(key);
-  if (it != end() && it->first == key) {
+  if (it != end() && !comp_(key, it->first)) {
     ++it;
   }
   return it;
@@ -697,7 +697,7 @@ std::pair<
 dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     size_type idx, const Key& key, OnExists&& on_exists, OnInsert&& on_insert) {
   // Check if key exists at this position
-  if (idx < size_ && keys_[idx] == key) {
+  if (idx < size_ && !comp_(key, keys_[idx])) {
     return std::forward<OnExists>(on_exists)(
         idx);  // Let caller decide what to do (return or assign)
   }
-- 
2.43.0


From 65eb21466e86e329f720cb0959144a54e5189af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 02/18] fix: dense_map obtains the value to insert before
 shifting elements

A value aliasing an element of the map was read after the shift had
overwritten it, try_emplace constructed over a live value without
destroying it, and a throwing value left a duplicated element.
---
 include/fast_containers/dense_map.ipp | 41 ++++++++++++++-------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index f1d4f5f..5af3da3 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -145,9 +145,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> Value {
+        // Copy the value to insert
+        return value;
       });
 }
 
@@ -190,9 +190,9 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_hint(
         // Key exists - don't modify, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &value](size_type idx) {
-        // Insert value via assignment
-        values_[idx] = value;
+      [&value]() -> Value {
+        // Copy the value to insert
+        return value;
       });
 }
 
@@ -223,10 +223,10 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::try_emplace(
         // Key exists - CRITICAL: don't construct value, just return
         return std::pair{iterator(this, idx), false};
       },
-      [this, &args...](size_type idx) {
-        // Construct value IN-PLACE using provided arguments
-        // This is the key difference from insert() - no temporary value!
-        std::construct_at(&values_[idx], std::forward<Args>(args)...);
+      [&args...]() -> Value {
+        // Construct the value from the arguments, only if it is inserted.
+        // The slot already holds a live object, so it must be assigned to.
+        return Value(std::forward<Args>(args)...);
       });
 }
 
@@ -254,9 +254,11 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_or_assign(
         values_[idx] = std::forward<M>(value);
         return std::pair{iterator(this, idx), false};  // false = assignment
       },
-      [this, &value](size_type idx) {
-        // Insert new value
-        values_[idx] = std::forward<M>(value);
+      [&value]() -> Value {
+        // New element - assign the forwarded value to a fresh one
+        Value inserted{};
+        inserted = std::forward<M>(value);
+        return inserted;
       });
 }
 
@@ -683,8 +685,7 @@ void dense_map<Key, Value, Length, Compare, SearchModeT>::transfer_suffix_from(
  * @param key Key to insert
  * @param on_exists Callback for when key exists: (size_type) -> pair<iterator,
  * bool> Can modify the existing value (insert_or_assign) or just return
- * @param on_insert Callback to insert value: (size_type) -> void
- *                  Uses assignment (insert) or construct_at (try_emplace)
+ * @param on_insert Callback producing the value to insert: () -> Value
  * @return Pair of iterator to element and bool indicating insertion success
  */
 template <typename Key, typename Value, std::size_t Length, typename Compare,
@@ -707,17 +708,19 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::insert_impl(
     throw std::runtime_error("Cannot insert: array is full");
   }
 
+  // Obtain the value before shifting: it may alias an element of this array,
+  // and constructing it may throw
+  Value value = std::forward<OnInsert>(on_insert)();
+
   // Shift elements to the right to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
   std::move_backward(values_.data() + idx, values_.data() + size_,
                      values_.data() + size_ + 1);
 
-  // Insert the key
+  // Insert the key and the value
   keys_[idx] = key;
-
-  // Let caller insert the value (assignment vs construct_at)
-  std::forward<OnInsert>(on_insert)(idx);
+  values_[idx] = std::move(value);
 
   ++size_;
 
-- 
2.43.0


From 6500f9c3b8f8cba601529dda322350deb03bb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 03/18] fix: compute the inserted value before splitting a leaf

The value was read after its element may have been moved out of the leaf,
and a throwing value left the tree split without the new leaf's parent entry.
---
 include/fast_containers/btree.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 6d6dea0..b5073c3 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -846,6 +846,10 @@ std::pair<typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::split_leaf_and_insert(leaf_node* leaf, const Key& key,
                                         GetValue&& get_value) {
+  // Get value on-demand before changing anything: it may alias an element of
+  // the leaf, and constructing it may throw
+  auto value = std::forward<GetValue>(get_value)();
+
   // Create new leaf for right half
   leaf_node* new_leaf = allocate_leaf_node();
 
@@ -876,10 +880,6 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Determine target leaf
   leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
 
-  // Get value on-demand after determining target leaf
-  // This preserves try_emplace's optimization
-  auto value = std::forward<GetValue>(get_value)();
-
   // Insert the new key-value pair into appropriate leaf
   auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
 
-- 
2.43.0


From 2864fa77298df839a94a46abefcf0e7d94e6acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 04/18] fix: copy constructor releases its nodes when copying
 an element throws

---
 include/fast_containers/btree.ipp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index b5073c3..70f7015 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -58,8 +58,13 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Always allocate an empty root leaf, then copy all elements
 
   // Copy all elements using insert (use const iterators)
-  for (const_iterator it = other.begin(); it != other.end(); ++it) {
-    insert(it->first, it->second);
+  try {
+    for (const_iterator it = other.begin(); it != other.end(); ++it) {
+      insert(it->first, it->second);
+    }
+  } catch (...) {
+    deallocate_tree();
+    throw;
   }
 }
 
-- 
2.43.0


From 5061869a74d4154203299a7d00c654b6c7d1b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 05/18] fix: clear() allocates the new root before releasing
 the tree

---
 include/fast_containers/btree.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index 70f7015..e618d52 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -779,11 +779,13 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     // Just clear the root leaf's data
     leaf_root_->data.clear();
   } else {
+    // Allocate the new empty leaf root first, so that a failing allocation
+    // leaves the tree intact
+    leaf_node* new_root = allocate_leaf_node();
+
     // Deallocate internal tree and reset to empty leaf root
     deallocate_internal_subtree(internal_root_);
-
-    // Allocate new empty leaf root
-    leaf_root_ = allocate_leaf_node();
+    leaf_root_ = new_root;
     root_is_leaf_ = true;
     leftmost_leaf_ = leaf_root_;
     rightmost_leaf_ = leaf_root_;
-- 
2.43.0


From 3088f4d53362be3bf5a5f748cf5ca9326b3d060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:24 +0000
Subject: [PATCH 06/18] fix: allocate every node a split needs before modifying
 the tree

---
 include/fast_containers/btree.hpp | 17 ++++++--
 include/fast_containers/btree.ipp | 71 ++++++++++++++++++++++++++-----
 2 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/include/fast_containers/btree.hpp b/include/fast_containers/btree.hpp
index 1618cd6..ed5a464 100644
--- a/include/fast_containers/btree.hpp
+++ b/include/fast_containers/btree.hpp
@@ -1040,18 +1040,29 @@ class btree {
    * If node has no parent, creates a new root.
    *
    * Templated to handle both leaf_node and internal_node children.
+   *
+   * @param spare Chain of nodes from allocate_split_path(), consumed as needed
    */
   template <typename NodeType>
   void insert_into_parent(NodeType* left_child, const Key& key,
-                          NodeType* right_child);
+                          NodeType* right_child, internal_node* spare);
+
+  /**
+   * Allocate all internal nodes that splitting the given leaf will need: one
+   * for each full ancestor, and one for a new root if all of them are full.
+   * Returns them chained through their parent pointers, lowest level first.
+   * Allocating up front keeps the tree intact if an allocation fails.
+   */
+  internal_node* allocate_split_path(const leaf_node* leaf);
 
   /**
    * Split a full internal node.
-   * Creates a new internal node and moves half the children to it.
+   * Moves half the children to new_node, which must be empty.
    * Returns a reference to the promoted key and pointer to the new node.
    * The key reference points to the first key in the new node's children.
    */
-  std::pair<const Key&, internal_node*> split_internal(internal_node* node);
+  std::pair<const Key&, internal_node*> split_internal(internal_node* node,
+                                                       internal_node* new_node);
 
   /**
    * Update parent's key for a child node to match its current minimum.
diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index e618d52..c3b7802 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -857,8 +857,15 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // the leaf, and constructing it may throw
   auto value = std::forward<GetValue>(get_value)();
 
-  // Create new leaf for right half
+  // Create new leaf for right half, and the internal nodes needed above it
   leaf_node* new_leaf = allocate_leaf_node();
+  internal_node* spare = nullptr;
+  try {
+    spare = allocate_split_path(leaf);
+  } catch (...) {
+    deallocate_leaf_node(new_leaf);
+    throw;
+  }
 
   // Calculate split point (ceil(LeafNodeSize / 2))
   const size_type split_point = (LeafNodeSize + 1) / 2;
@@ -896,7 +903,7 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   size_++;
 
   // Insert promoted key into parent
-  insert_into_parent(leaf, promoted_key, new_leaf);
+  insert_into_parent(leaf, promoted_key, new_leaf, spare);
 
   // If we inserted into the left half, update parent key if necessary
   if (target_leaf == leaf) {
@@ -960,6 +967,48 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   return {iterator(leaf, leaf_it), true};
 }
 
+// allocate_split_path
+template <typename Key, typename Value, std::size_t LeafNodeSize,
+          std::size_t InternalNodeSize, typename Compare,
+          SearchMode SearchModeT, typename Allocator>
+  requires ComparatorCompatible<Key, Compare>
+typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+               Allocator>::internal_node*
+btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
+      Allocator>::allocate_split_path(const leaf_node* leaf) {
+  internal_node* head = nullptr;
+  internal_node** tail = &head;
+  const internal_node* node = leaf->parent;
+  bool leaf_children = true;
+  try {
+    while (true) {
+      if (node != nullptr) {
+        const size_type node_size = node->children_are_leaves
+                                        ? node->leaf_children.size()
+                                        : node->internal_children.size();
+        if (node_size < InternalNodeSize) {
+          break;  // This ancestor has room, nothing above it changes
+        }
+      }
+      *tail = allocate_internal_node(leaf_children);
+      tail = &(*tail)->parent;
+      if (node == nullptr) {
+        break;  // That was the new root
+      }
+      node = node->parent;
+      leaf_children = false;
+    }
+  } catch (...) {
+    while (head != nullptr) {
+      internal_node* next = head->parent;
+      deallocate_internal_node(head);
+      head = next;
+    }
+    throw;
+  }
+  return head;
+}
+
 // insert_into_parent
 template <typename Key, typename Value, std::size_t LeafNodeSize,
           std::size_t InternalNodeSize, typename Compare,
@@ -968,7 +1017,8 @@ template <typename Key, typename Value, std::size_t LeafNodeSize,
 template <typename NodeType>
 void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
            Allocator>::insert_into_parent(NodeType* left_child, const Key& key,
-                                          NodeType* right_child) {
+                                          NodeType* right_child,
+                                          internal_node* spare) {
   // Helper lambda to get appropriate children array reference
   auto get_children = [](internal_node* node) -> auto& {
     if constexpr (std::is_same_v<NodeType, leaf_node>) {
@@ -992,8 +1042,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 
   // Case 1: left_child is root - create new root
   if (left_child->parent == nullptr) {
-    constexpr bool children_are_leaves = std::is_same_v<NodeType, leaf_node>;
-    internal_node* new_root = allocate_internal_node(children_are_leaves);
+    internal_node* new_root = spare;
 
     auto& children = get_children(new_root);
     auto [it, inserted] = children.insert(get_left_key(left_child), left_child);
@@ -1016,7 +1065,9 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Check if parent is full
   if (parent_children.size() >= InternalNodeSize) {
     // Need to split parent
-    auto [promoted_key, new_parent] = split_internal(parent);
+    internal_node* next_spare = spare->parent;
+    spare->parent = nullptr;
+    auto [promoted_key, new_parent] = split_internal(parent, spare);
 
     // Determine which parent to insert into
     internal_node* target_parent =
@@ -1028,7 +1079,7 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     assert(inserted && "Insert into non-full parent should succeed");
 
     // Recursively insert promoted key into grandparent
-    insert_into_parent(parent, promoted_key, new_parent);
+    insert_into_parent(parent, promoted_key, new_parent, next_spare);
   } else {
     // Parent has space - insert normally
     right_child->parent = parent;
@@ -1046,10 +1097,8 @@ std::pair<const Key&,
           typename btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare,
                          SearchModeT, Allocator>::internal_node*>
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
-      Allocator>::split_internal(internal_node* node) {
-  // Create new internal node
-  internal_node* new_node = allocate_internal_node(node->children_are_leaves);
-
+      Allocator>::split_internal(internal_node* node,
+                                 internal_node* new_node) {
   // Calculate split point
   const size_type split_point = (InternalNodeSize + 1) / 2;
 
-- 
2.43.0


From 51c54b889267cec63c7bf892dabc5a4569e26ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:59 +0000
Subject: [PATCH 07/18] fix: move assignment hands over the allocators together
 with the nodes

---
 include/fast_containers/btree.ipp             | 22 +++++++++++++++++++
 .../policy_based_hugepage_allocator.hpp       |  2 +-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index c3b7802..fd17eb8 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -127,9 +127,31 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
 btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::operator=(btree&& other) noexcept {
   if (this != &other) {
+    using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
+    constexpr bool propagate =
+        leaf_alloc_traits::propagate_on_container_move_assignment::value;
+    if constexpr (!propagate && !leaf_alloc_traits::is_always_equal::value) {
+      if (leaf_alloc_ != other.leaf_alloc_ ||
+          internal_alloc_ != other.internal_alloc_) {
+        // This tree could not release other's nodes: move the elements instead
+        clear();
+        for (iterator it = other.begin(); it != other.end(); ++it) {
+          try_emplace(it->first, std::move(it->second));
+        }
+        other.clear();
+        return *this;
+      }
+    }
+
     // Deallocate existing tree (including root)
     deallocate_tree();
 
+    // The nodes being taken over belong to other's allocators
+    if constexpr (propagate) {
+      leaf_alloc_ = std::move(other.leaf_alloc_);
+      internal_alloc_ = std::move(other.internal_alloc_);
+    }
+
     // Move other's resources to this
     root_is_leaf_ = other.root_is_leaf_;
     if (root_is_leaf_) {
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 055cdcf..3ebefd1 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -264,7 +264,7 @@ class PolicyBasedHugePageAllocator {
   [[nodiscard]] const PoolPolicy& get_policy() const { return policy_; }
 
  private:
-  const PoolPolicy policy_;  // NOLINT(readability-identifier-naming)
+  PoolPolicy policy_;
 
   // Allow rebind to access policy_
   template <typename, typename>
-- 
2.43.0


From 4b7a3e815592e46f2457c22bc48d3b5e429f9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 08/18] fix: swap exchanges the allocators together with the
 nodes

---
 include/fast_containers/btree.ipp                          | 7 +++++++
 include/fast_containers/hugepage_allocator.hpp             | 1 +
 include/fast_containers/multi_size_hugepage_allocator.hpp  | 1 +
 .../fast_containers/policy_based_hugepage_allocator.hpp    | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index fd17eb8..dea04a0 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -226,6 +226,13 @@ void btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
     }
   }
 
+  // The nodes stay with the allocators they came from
+  if constexpr (std::allocator_traits<decltype(leaf_alloc_)>::
+                    propagate_on_container_swap::value) {
+    std::swap(leaf_alloc_, other.leaf_alloc_);
+    std::swap(internal_alloc_, other.internal_alloc_);
+  }
+
   // Swap other members
   std::swap(root_is_leaf_, other.root_is_leaf_);
   std::swap(size_, other.size_);
diff --git a/include/fast_containers/hugepage_allocator.hpp b/include/fast_containers/hugepage_allocator.hpp
index 34b58fa..bb6dd99 100644
--- a/include/fast_containers/hugepage_allocator.hpp
+++ b/include/fast_containers/hugepage_allocator.hpp
@@ -52,6 +52,7 @@ class HugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Since n==1 is required, these are compile-time constants
diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index c6cfb0e..7526a76 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -61,6 +61,7 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;  // Stateful allocator
 
   /**
diff --git a/include/fast_containers/policy_based_hugepage_allocator.hpp b/include/fast_containers/policy_based_hugepage_allocator.hpp
index 3ebefd1..83e3d4d 100644
--- a/include/fast_containers/policy_based_hugepage_allocator.hpp
+++ b/include/fast_containers/policy_based_hugepage_allocator.hpp
@@ -131,6 +131,7 @@ class PolicyBasedHugePageAllocator {
   using size_type = std::size_t;
   using difference_type = std::ptrdiff_t;
   using propagate_on_container_move_assignment = std::true_type;
+  using propagate_on_container_swap = std::true_type;
   using is_always_equal = std::false_type;
 
   // Cache line size for alignment (typical x86-64 cache line)
-- 
2.43.0


From 36788d91863d6e1c2c81f414dee841196c977237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 09/18] fix: a moved-from MultiSizeHugePageAllocator keeps its
 pool

---
 .../fast_containers/multi_size_hugepage_allocator.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 7526a76..98c7920 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -73,6 +73,17 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       std::shared_ptr<MultiSizeHugePagePool> pool)
       : pool_(std::move(pool)) {}
 
+  /**
+   * Copy constructor and assignment (share pool with other allocator).
+   * Declaring them also keeps the pool of a moved-from allocator in place, so
+   * that a moved-from container can still allocate.
+   */
+  MultiSizeHugePageAllocator(const MultiSizeHugePageAllocator& other) = default;
+  MultiSizeHugePageAllocator& operator=(
+      const MultiSizeHugePageAllocator& other) = default;
+
+  ~MultiSizeHugePageAllocator() = default;
+
   /**
    * Copy constructor (different type).
    *
-- 
2.43.0


From bac81a82ee7b7ddbc43adeba30eb2d82f4fd6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 10/18] fix: MultiSizeHugePageAllocator rejects element counts
 that overflow

---
 include/fast_containers/multi_size_hugepage_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_allocator.hpp b/include/fast_containers/multi_size_hugepage_allocator.hpp
index 98c7920..62daf92 100644
--- a/include/fast_containers/multi_size_hugepage_allocator.hpp
+++ b/include/fast_containers/multi_size_hugepage_allocator.hpp
@@ -5,7 +5,9 @@
 #pragma once
 
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 
 #include "multi_size_hugepage_pool.hpp"
 
@@ -108,6 +110,10 @@ class MultiSizeHugePageAllocator {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    if (n > std::numeric_limits<difference_type>::max() / sizeof(T)) {
+      throw std::bad_array_new_length();
+    }
+
     const size_type bytes = n * sizeof(T);
     void* ptr = pool_->allocate(bytes, alignof(T));
 
-- 
2.43.0


From 65b8c90342bb46e06ff02d0f4b608fc6f2f0a449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 11/18] fix: HugePagePool grows by at least the size of the
 request

---
 include/fast_containers/hugepage_pool.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index ff35ce7..9d73694 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -6,8 +6,11 @@
 
 #include <sys/mman.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdint>
+#include <limits>
+#include <new>
 #include <stdexcept>
 #include <vector>
 
@@ -192,8 +195,11 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type padding = aligned - current;
 
     // Grow pool if needed
-    if (bytes_remaining_ < bytes + padding) {
-      grow();
+    if (bytes_remaining_ < padding || bytes_remaining_ - padding < bytes) {
+      if (bytes > std::numeric_limits<size_type>::max() - alignment) {
+        throw std::bad_alloc();
+      }
+      grow(bytes + alignment);
       // After growth, recalculate alignment from new next_free_
       current = reinterpret_cast<uintptr_t>(next_free_);
       aligned =
@@ -302,20 +308,22 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
 
  private:
   /**
-   * Grow the pool by allocating a new region of growth_size_.
+   * Grow the pool by allocating a new region of growth_size_, or of min_size
+   * if that is larger.
    * Called when current region is exhausted.
    */
-  void grow() {
+  void grow(size_type min_size) {
+    const size_type size = std::max(growth_size_, min_size);
     memory_region new_region;
 
     if (using_hugepages_) {
-      new_region = allocate_hugepages_region(growth_size_);
+      new_region = allocate_hugepages_region(size);
       if (new_region.base == nullptr) {
         // Hugepages no longer available, fall back to regular
-        new_region = allocate_regular_region(growth_size_);
+        new_region = allocate_regular_region(size);
       }
     } else {
-      new_region = allocate_regular_region(growth_size_);
+      new_region = allocate_regular_region(size);
     }
 
     regions_.push_back(new_region);
-- 
2.43.0


From 30c0410c9ad68af4df183b1f5bbe0bcad2af41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 12/18] fix: HugePagePool reuses a freed block only for its own
 size and alignment

---
 include/fast_containers/hugepage_pool.hpp | 39 +++++++++++++++++++----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index 9d73694..2bc6acc 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -61,6 +61,12 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     size_type size = 0;
   };
 
+  // Intrusive free list holding blocks of one size
+  struct free_list {
+    size_type block_size = 0;
+    void* head = nullptr;
+  };
+
   /**
    * Statistics tracked by the pool.
    * Only populated when allocator_stats_enabled is true.
@@ -107,7 +113,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   const size_type initial_size_;  // NOLINT(readability-identifier-naming)
   const size_type growth_size_;   // NOLINT(readability-identifier-naming)
   bool using_hugepages_ = false;
-  void* free_list_head_ = nullptr;  // Head of intrusive free list
+  std::vector<free_list> free_lists_;  // One per block size in use
   stats stats_;
 
  public:
@@ -176,9 +182,14 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Try to allocate from free list first
-    if (free_list_head_ != nullptr) {
-      void* ptr = free_list_head_;
-      free_list_head_ = *reinterpret_cast<void**>(ptr);
+    free_list* list = find_free_list(bytes);
+    if (list == nullptr) {
+      // First block of this size; deallocate() must not have to allocate
+      free_lists_.push_back({.block_size = bytes, .head = nullptr});
+    } else if (list->head != nullptr &&
+               (reinterpret_cast<uintptr_t>(list->head) & (alignment - 1)) == 0) {
+      void* ptr = list->head;
+      list->head = *reinterpret_cast<void**>(ptr);
 
       stats_.record_allocation(bytes);
 
@@ -223,7 +234,7 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
    * Deallocate raw memory.
    *
    * @param ptr Pointer to memory to deallocate
-   * @param bytes Number of bytes (for statistics tracking)
+   * @param bytes Number of bytes, as passed to allocate()
    */
   void deallocate(void* ptr, size_type bytes) {
     if (ptr == nullptr || bytes == 0) {
@@ -231,8 +242,10 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     }
 
     // Add to intrusive free list
-    *reinterpret_cast<void**>(ptr) = free_list_head_;
-    free_list_head_ = ptr;
+    if (free_list* list = find_free_list(bytes)) {
+      *reinterpret_cast<void**>(ptr) = list->head;
+      list->head = ptr;
+    }
 
     stats_.record_deallocation(bytes);
   }
@@ -307,6 +320,18 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
   [[nodiscard]] size_type get_peak_usage() const { return stats_.peak_usage; }
 
  private:
+  /**
+   * Find the free list for blocks of the given size, nullptr if there is none.
+   */
+  free_list* find_free_list(size_type bytes) {
+    for (free_list& list : free_lists_) {
+      if (list.block_size == bytes) {
+        return &list;
+      }
+    }
+    return nullptr;
+  }
+
   /**
    * Grow the pool by allocating a new region of growth_size_, or of min_size
    * if that is larger.
-- 
2.43.0


From a2eaf0a7500f0a5b093d618aaf4b6cac71f1af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 13/18] fix: dense_map releases erased, cleared and overwritten
 elements

---
 include/fast_containers/dense_map.hpp | 21 ++++++++++++++++++++-
 include/fast_containers/dense_map.ipp |  5 +++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.hpp b/include/fast_containers/dense_map.hpp
index af04266..6c6e100 100644
--- a/include/fast_containers/dense_map.hpp
+++ b/include/fast_containers/dense_map.hpp
@@ -369,7 +369,11 @@ class dense_map {
   [[nodiscard]] bool empty() const { return size_ == 0; }
   [[nodiscard]] bool full() const { return size_ == Length; }
 
-  void clear() { size_ = 0; }
+  void clear() {
+    const size_type old_size = size_;
+    size_ = 0;
+    release_slots(0, old_size);
+  }
 
   /**
    * Split this array at the given position, moving elements to output array.
@@ -447,6 +451,21 @@ class dense_map {
                                         OnExists&& on_exists,
                                         OnInsert&& on_insert);
 
+  /**
+   * Reset the unoccupied slots [first, last), so that they do not hold on to
+   * the resources of elements that are no longer in the array.
+   */
+  void release_slots(size_type first, size_type last) {
+    for (size_type i = first; i < last; ++i) {
+      if constexpr (!std::is_trivially_destructible_v<Key>) {
+        keys_[i] = Key();
+      }
+      if constexpr (!std::is_trivially_destructible_v<Value>) {
+        values_[i] = Value();
+      }
+    }
+  }
+
 #ifdef __AVX2__
   /**
    * SIMD-accelerated linear search for 8-bit keys (int8_t, uint8_t)
diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index 5af3da3..dceb196 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -69,6 +69,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     const dense_map& other) {
   if (this != &other) {
+    const size_type old_size = size_;
     size_ = other.size_;
     // Copy only the active elements
     if (size_ > 0) {
@@ -77,6 +78,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
       std::copy(other.values_.begin(), other.values_.begin() + size_,
                 values_.begin());
     }
+    release_slots(size_, old_size);
   }
   return *this;
 }
@@ -96,6 +98,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>&
 dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
     dense_map&& other) noexcept {
   if (this != &other) {
+    const size_type old_size = size_;
     size_ = other.size_;
     // Move the active elements
     if (size_ > 0) {
@@ -103,6 +106,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::operator=(
       std::move(other.values_.data(), other.values_.data() + size_,
                 values_.data());
     }
+    release_slots(size_, old_size);
     // Leave other in valid empty state
     other.size_ = 0;
   }
@@ -282,6 +286,7 @@ dense_map<Key, Value, Length, Compare, SearchModeT>::erase(iterator pos) {
   std::move(values_.data() + idx + 1, values_.data() + size_,
             values_.data() + idx);
   --size_;
+  release_slots(size_, size_ + 1);
 
   // Return iterator to element following the erased element
   // (same index, since everything shifted left)
-- 
2.43.0


From f7c310143af54a0ab837eb978f5566fcdd0c92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 14/18] fix: release a node's memory when constructing it
 throws

---
 include/fast_containers/btree.ipp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index dea04a0..a7f981c 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -748,7 +748,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
       Allocator>::allocate_leaf_node() {
   using leaf_alloc_traits = std::allocator_traits<decltype(leaf_alloc_)>;
   leaf_node* node = leaf_alloc_.allocate(1);
-  leaf_alloc_traits::construct(leaf_alloc_, node);
+  try {
+    leaf_alloc_traits::construct(leaf_alloc_, node);
+  } catch (...) {
+    leaf_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
@@ -764,7 +769,12 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   using internal_alloc_traits =
       std::allocator_traits<decltype(internal_alloc_)>;
   internal_node* node = internal_alloc_.allocate(1);
-  internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  try {
+    internal_alloc_traits::construct(internal_alloc_, node, leaf_children);
+  } catch (...) {
+    internal_alloc_.deallocate(node, 1);
+    throw;
+  }
   return node;
 }
 
-- 
2.43.0


From bbdf93432fffa5ca8a277f1663bd83effcdf19e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 15/18] fix: dense_map::operator[] constructs the default value
 before shifting elements

---
 include/fast_containers/dense_map.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fast_containers/dense_map.ipp b/include/fast_containers/dense_map.ipp
index dceb196..5db7e6c 100644
--- a/include/fast_containers/dense_map.ipp
+++ b/include/fast_containers/dense_map.ipp
@@ -342,6 +342,9 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
   const auto pos = lower_bound_key(key);
   size_type idx = pos - keys_.begin();
 
+  // Construct the default value before shifting: it may throw
+  Value value{};
+
   // Shift elements to make space in both arrays
   std::move_backward(keys_.data() + idx, keys_.data() + size_,
                      keys_.data() + size_ + 1);
@@ -350,7 +353,7 @@ Value& dense_map<Key, Value, Length, Compare, SearchModeT>::operator[](
 
   // Insert with default-constructed value
   keys_[idx] = key;
-  values_[idx] = Value{};
+  values_[idx] = std::move(value);
   ++size_;
 
   return values_[idx];
-- 
2.43.0


From 1b60ae3fc9aa623d335850a4108ed5c2dd9f1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:06 +0000
Subject: [PATCH 16/18] fix: a leaf split moves the value in instead of copying
 it again

---
 include/fast_containers/btree.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fast_containers/btree.ipp b/include/fast_containers/btree.ipp
index a7f981c..325ecf9 100644
--- a/include/fast_containers/btree.ipp
+++ b/include/fast_containers/btree.ipp
@@ -933,8 +933,10 @@ btree<Key, Value, LeafNodeSize, InternalNodeSize, Compare, SearchModeT,
   // Determine target leaf
   leaf_node* target_leaf = comp_(key, promoted_key) ? leaf : new_leaf;
 
-  // Insert the new key-value pair into appropriate leaf
-  auto [leaf_it, inserted] = target_leaf->data.insert(key, std::move(value));
+  // Insert the new key-value pair into appropriate leaf. The leaf is already
+  // split, so the value must be moved in: copying it again may throw.
+  auto [leaf_it, inserted] =
+      target_leaf->data.try_emplace(key, std::move(value));
 
   // Key is guaranteed not to exist (checked by insert_impl before calling)
   assert(inserted && "split_leaf_and_insert: key should not exist in tree");
-- 
2.43.0


From 8cf19f235188ba5edc118d4d980b0a0b38bdac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:30 +0000
Subject: [PATCH 17/18] fix: do not lose a mapped region when recording it
 fails

regions_.push_back() could throw after mmap() had succeeded, leaving a region
that nobody unmaps.  Make room for the record before mapping.
---
 include/fast_containers/hugepage_pool.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fast_containers/hugepage_pool.hpp b/include/fast_containers/hugepage_pool.hpp
index 2bc6acc..ab7daaa 100644
--- a/include/fast_containers/hugepage_pool.hpp
+++ b/include/fast_containers/hugepage_pool.hpp
@@ -133,6 +133,9 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
                         bool use_hugepages = true,
                         size_type growth_size = 64UL * 1024 * 1024)
       : initial_size_(initial_size), growth_size_(growth_size) {
+    // Recording the region must not fail once it is mapped
+    regions_.reserve(1);
+
     // Allocate initial region
     memory_region initial_region;
 
@@ -341,6 +344,11 @@ class HugePagePool {  // NOLINT(readability-identifier-naming)
     const size_type size = std::max(growth_size_, min_size);
     memory_region new_region;
 
+    // Recording the region must not fail once it is mapped
+    if (regions_.size() == regions_.capacity()) {
+      regions_.reserve(2 * regions_.size());
+    }
+
     if (using_hugepages_) {
       new_region = allocate_hugepages_region(size);
       if (new_region.base == nullptr) {
-- 
2.43.0


From dc615de161de7d5947750dcca3804c07f6541590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 18/18] fix: reject multi-size pool requests above the largest
 size class

std::bit_ceil() is undefined when the result is not representable; a request of
more than 2^63 bytes was served with a null pointer or a tiny block instead of
std::bad_alloc.
---
 include/fast_containers/multi_size_hugepage_pool.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fast_containers/multi_size_hugepage_pool.hpp b/include/fast_containers/multi_size_hugepage_pool.hpp
index c8cde2a..0fdfe27 100644
--- a/include/fast_containers/multi_size_hugepage_pool.hpp
+++ b/include/fast_containers/multi_size_hugepage_pool.hpp
@@ -6,7 +6,9 @@
 
 #include <bit>
 #include <cstddef>
+#include <limits>
 #include <memory>
+#include <new>
 #include <unordered_map>
 
 #include "hugepage_pool.hpp"
@@ -122,6 +124,11 @@ class MultiSizeHugePagePool {  // NOLINT(readability-identifier-naming)
       return nullptr;
     }
 
+    // No size class is that large: std::bit_ceil() cannot represent it
+    if (bytes > std::numeric_limits<size_type>::max() / 2 + 1) {
+      throw std::bad_alloc();
+    }
+
     const size_type size_class = get_size_class(bytes);
 
     // Get or create pool for this size class
-- 
2.43.0

