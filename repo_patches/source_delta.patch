From cf31499647d2245802ad935e2a7b4a42f6d64b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:34 +0000
Subject: [PATCH 01/13] fix: CompareInt orders every pair of ints, also those
 whose difference overflows

---
 common_api.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common_api.go b/common_api.go
index 3693788..e31fc09 100644
--- a/common_api.go
+++ b/common_api.go
@@ -28,7 +28,13 @@ func CompareInt(key1 Key, key2 Key) (result int, err error) {
 		return
 	}
 
-	result = key1Int - key2Int
+	if key1Int < key2Int {
+		result = -1
+	} else if key1Int == key2Int {
+		result = 0
+	} else { // key1Int > key2Int
+		result = 1
+	}
 	err = nil
 
 	return
-- 
2.43.0


From b9905defb3b40aec8ab5330426705503346193a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 02/13] fix: PatchByKey of an absent key leaves the tree
 unmodified

It marked the path to the leaf as modified although nothing changed, so a
following Prune() discarded the nodes of the last flushed root.
---
 btree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree.go b/btree.go
index 89e92d0..ca36355 100644
--- a/btree.go
+++ b/btree.go
@@ -699,6 +699,7 @@ func (tree *btreeTreeStruct) PatchByKey(key Key, value Value) (ok bool, err erro
 	for {
 		if node.loaded {
 			tree.incCacheHits()
+			tree.markNodeUsed(node)
 		} else {
 			tree.incCacheMisses()
 			err = tree.loadNode(node) // will also mark node clean/used in LRU
@@ -708,8 +709,10 @@ func (tree *btreeTreeStruct) PatchByKey(key Key, value Value) (ok bool, err erro
 		}
 
 		if node.leaf {
-			tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
 			ok, err = node.kvLLRB.PatchByKey(key, value)
+			if (nil == err) && ok {
+				tree.touchLoadedNodeToRoot(node) // will also mark node dirty/used in LRU
+			}
 			return
 		}
 
-- 
2.43.0


From fd17e9108a0e4fe055f428323dd9b3d2f57bea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 03/13] fix: LLRB Reset() takes the tree lock like every other
 call

Reset() cleared the root while another caller could be in the middle of an
operation, so that operation could panic, or resurrect the old contents.
---
 llrb_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llrb_tree.go b/llrb_tree.go
index ab11e50..45ff200 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -454,6 +454,9 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *llrbTreeStruct) Reset() {
+	tree.Lock()
+	defer tree.Unlock()
+
 	tree.root = nil
 }
 
-- 
2.43.0


From dde556f76da3af0d178de51b1d6eb56ef282f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 04/13] fix: FetchLocation() takes the tree lock like every
 other call

Without it, a location fetched while another caller modifies or flushes the
tree could be a mixture of the old and the new root location.
---
 btree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btree.go b/btree.go
index ca36355..d8a8e30 100644
--- a/btree.go
+++ b/btree.go
@@ -821,6 +821,9 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 }
 
 func (tree *btreeTreeStruct) FetchLocation() (rootObjectNumber uint64, rootObjectOffset uint64, rootObjectLength uint64) {
+	tree.Lock()
+	defer tree.Unlock()
+
 	rootObjectNumber = tree.root.objectNumber
 	rootObjectOffset = tree.root.objectOffset
 	rootObjectLength = tree.root.objectLength
-- 
2.43.0


From 42db88707063ca342db252775741b39afac46e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 05/13] fix: a prune retried after a failure does not discard
 nodes twice

When a DiscardNode() callback failed, the references already discarded stayed
on the list, so the next Prune() or Discard() discarded them again.
---
 btree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree.go b/btree.go
index d8a8e30..1374ff7 100644
--- a/btree.go
+++ b/btree.go
@@ -1083,6 +1083,10 @@ func (tree *btreeTreeStruct) pruneWhileLocked() (err error) {
 			if nil != err {
 				return
 			}
+
+			// Forget it now, so that retrying after a subsequent failure won't discard it again
+
+			delete(tree.staleOnDiskReferencesList, staleOnDiskReference)
 		}
 
 		tree.staleOnDiskReferencesList = nil
-- 
2.43.0


From 4114c59e932263567ae0ab6101a3981a1a710f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 06/13] fix: a failed Discard() leaves the tree usable and can
 be retried

Discard() ignored the failure to load a node (leaking every node not reached,
while reporting success), and a failed DiscardNode() callback left nodes already
removed from the node cache, so that the next call panicked.
---
 btree.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/btree.go b/btree.go
index 1374ff7..7b7d8d7 100644
--- a/btree.go
+++ b/btree.go
@@ -1018,17 +1018,27 @@ func (tree *btreeTreeStruct) Discard() (err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
-	// Discard every node in tree
+	// Make every node in tree loaded & dirty such that, should any callback fail, the tree remains usable & Discard() retryable
 
-	tree.discardNode(tree.root)
+	err = tree.touchNode(tree.root)
+	if nil != err {
+		return
+	}
 
-	// Prune again to pick up now stale nodes added in discardNode()
+	// Prune to pick up stale nodes... including all those added by touchNode()
 
 	err = tree.pruneWhileLocked()
 	if nil != err {
 		return
 	}
 
+	// Discard every node in tree
+
+	err = tree.discardNode(tree.root)
+	if nil != err {
+		return
+	}
+
 	// Reset btreeTreeStruct to trigger Golang Garbage Collection now (and prevent further use)
 
 	tree.Compare = nil
-- 
2.43.0


From f13a71f5a0f7eeb2141868be0a943fd32f7f0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:13 +0000
Subject: [PATCH 07/13] fix: Validate() checks the whole prefix sum tree

validatePrefixSum() visited the left child twice instead of both children and
dropped the error of the first visit, so wrong item counts recorded for children
that cancel out in total went unnoticed.
---
 btree_validate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree_validate.go b/btree_validate.go
index b1816ed..56cbbf0 100644
--- a/btree_validate.go
+++ b/btree_validate.go
@@ -153,6 +153,9 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 		}
 
 		err = node.prefixSumLeftChild.validatePrefixSum()
+		if nil != err {
+			return
+		}
 	}
 
 	if nil != node.prefixSumRightChild {
@@ -163,7 +166,7 @@ func (node *btreeNodeStruct) validatePrefixSum() (err error) {
 			return
 		}
 
-		err = node.prefixSumLeftChild.validatePrefixSum()
+		err = node.prefixSumRightChild.validatePrefixSum()
 		if nil != err {
 			return
 		}
-- 
2.43.0


From 56b4c72b711752148622e50fc1dbfc16e915ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:16 +0000
Subject: [PATCH 08/13] fix: Dump() reports the failure to dump a child node

The error was dropped, so an incomplete dump was reported as a success.
---
 btree_dump.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btree_dump.go b/btree_dump.go
index 4d28a68..9f11e33 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -127,7 +127,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	if !node.leaf {
 		if nil != node.nonLeafLeftChild {
 			fmt.Printf("%v  .nonLeafLeftChild    = %p\n", indent, node.nonLeafLeftChild)
-			tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			err = tree.dumpNode(node.nonLeafLeftChild, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
@@ -158,7 +161,10 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 		} else {
 			childNode := value.(*btreeNodeStruct)
 			fmt.Printf("%v  .kvLLRB[%v].Value     = %p\n", indent, i, childNode)
-			tree.dumpNode(childNode, "    "+indent)
+			err = tree.dumpNode(childNode, "    "+indent)
+			if nil != err {
+				return
+			}
 		}
 	}
 
-- 
2.43.0


From 63bd2204d08c2cc7115cb5b866cfd0f69f56f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:56 +0000
Subject: [PATCH 09/13] fix: a delete that fails to load a sibling node changes
 nothing

DeleteByKey() & DeleteByIndex() removed the item before loading the siblings
needed to rebalance, so a failing callback left an underfull or half merged tree
that later calls reported as corrupt or panicked upon.
---
 btree.go | 98 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/btree.go b/btree.go
index 7b7d8d7..660a938 100644
--- a/btree.go
+++ b/btree.go
@@ -376,6 +376,10 @@ func (tree *btreeTreeStruct) DeleteByIndex(index int) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			err = tree.loadRebalanceSiblings(node, parentIndexStack) // fail, if at all, before anything has been modified
+			if nil != err {
+				return
+			}
 			_, err = node.kvLLRB.DeleteByIndex(int(netIndex))
 			if nil != err {
 				return
@@ -438,6 +442,15 @@ func (tree *btreeTreeStruct) DeleteByKey(key Key) (ok bool, err error) {
 		}
 
 		if node.leaf {
+			_, ok, err = node.kvLLRB.GetByKey(key)
+			if (nil != err) || !ok {
+				return
+			}
+			err = tree.loadRebalanceSiblings(node, parentIndexStack) // fail, if at all, before anything has been modified
+			if nil != err {
+				ok = false
+				return
+			}
 			ok, err = node.kvLLRB.DeleteByKey(key)
 			if nil != err {
 				return
@@ -1329,6 +1342,91 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 	return
 }
 
+// loadRebalanceSiblings ensures that each sibling node rebalanceHere() is going to examine once leafNode has lost one
+// of its keys is loaded. As that is the only step of a delete operation that may still fail once leafNode has been
+// loaded, performing it up front guarantees that a delete operation that fails has not modified the tree.
+func (tree *btreeTreeStruct) loadRebalanceSiblings(leafNode *btreeNodeStruct, parentIndexStack []int) (err error) {
+	var (
+		childNodeAsValue Value
+		llrbLen          int
+		node             *btreeNodeStruct
+		ok               bool
+		parentNode       *btreeNodeStruct
+		parentNodeIndex  int
+		siblingIndex     int
+		siblingNode      *btreeNodeStruct
+	)
+
+	node = leafNode
+
+	for len(parentIndexStack) > 0 {
+		llrbLen, err = node.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+		if uint64(llrbLen) > tree.minKeysPerNode {
+			// node can give up a key without needing to be rebalanced
+
+			return
+		}
+
+		parentNode = node.parentNode
+		parentNodeIndex = parentIndexStack[len(parentIndexStack)-1]
+		parentIndexStack = parentIndexStack[:len(parentIndexStack)-1]
+
+		llrbLen, err = parentNode.kvLLRB.Len()
+		if nil != err {
+			return
+		}
+
+		for _, siblingIndex = range []int{parentNodeIndex - 1, parentNodeIndex + 1} {
+			if (siblingIndex < -1) || (siblingIndex >= llrbLen) {
+				continue // no such sibling
+			}
+
+			if -1 == siblingIndex {
+				siblingNode = parentNode.nonLeafLeftChild
+			} else {
+				_, childNodeAsValue, ok, err = parentNode.kvLLRB.GetByIndex(siblingIndex)
+				if nil != err {
+					return
+				}
+				if !ok {
+					err = fmt.Errorf("Logic error: loadRebalanceSiblings() had indexing problem in kvLLRB")
+					return
+				}
+				siblingNode = childNodeAsValue.(*btreeNodeStruct)
+			}
+
+			if !siblingNode.loaded {
+				tree.incCacheMisses()
+				err = tree.loadNode(siblingNode) // will also mark siblingNode clean/used in LRU
+				if nil != err {
+					return
+				}
+			}
+
+			numKeysInSibling, nonShadowingErr := siblingNode.kvLLRB.Len()
+			if nil != nonShadowingErr {
+				err = nonShadowingErr
+				return
+			}
+			if uint64(numKeysInSibling) > tree.minKeysPerNode {
+				// siblingNode can give up a key, so parentNode won't lose one
+
+				return
+			}
+		}
+
+		// node is going to be merged with a sibling, so parentNode is going to lose a key
+
+		node = parentNode
+	}
+
+	err = nil
+	return
+}
+
 func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, parentIndexStack []int) (err error) {
 	var (
 		i                                          int
-- 
2.43.0


From d0b45775fb6380da9384eb84cc75421c08aeaefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 10/13] fix: Put() of a key the comparator rejects fails on an
 empty map too

---
 btree.go     | 7 +++++--
 llrb_tree.go | 9 +++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/btree.go b/btree.go
index 660a938..00ed1f1 100644
--- a/btree.go
+++ b/btree.go
@@ -791,7 +791,7 @@ func (tree *btreeTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 				ok = false
 			} else {
 				err = tree.insertHere(node, key, value) // will also mark affected nodes dirty/used in LRU
-				ok = true
+				ok = (nil == err)
 				return
 			}
 
@@ -1181,7 +1181,10 @@ func (tree *btreeTreeStruct) insertHere(insertNode *btreeNodeStruct, key Key, va
 		splitValueAsNode    *btreeNodeStruct
 	)
 
-	insertNode.kvLLRB.Put(key, value)
+	_, err = insertNode.kvLLRB.Put(key, value)
+	if nil != err {
+		return
+	}
 
 	if insertNode.leaf {
 		tree.updatePrefixSumTreeLeafToRoot(insertNode) // will also mark affected nodes dirty/used in LRU
diff --git a/llrb_tree.go b/llrb_tree.go
index 45ff200..e2682a5 100644
--- a/llrb_tree.go
+++ b/llrb_tree.go
@@ -437,6 +437,15 @@ func (tree *llrbTreeStruct) Put(key Key, value Value) (ok bool, err error) {
 	tree.Lock()
 	defer tree.Unlock()
 
+	if nil == tree.root {
+		// insert() would have nothing to compare key with, so check here that it may be compared at all
+
+		_, err = tree.Compare(key, key)
+		if nil != err {
+			return
+		}
+	}
+
 	updatedRoot, ok, err := tree.insert(tree.root, key, value)
 	if nil != err {
 		return
-- 
2.43.0


From e89e20c476df6afc11598a8f78a57312fd5a8fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 11/13] fix: take the node cache's lock while Dump reads it

---
 btree_dump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btree_dump.go b/btree_dump.go
index 9f11e33..429f3e6 100644
--- a/btree_dump.go
+++ b/btree_dump.go
@@ -10,6 +10,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 	defer tree.Unlock()
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		fmt.Printf("B+Tree @ %p has Node Cache @ %p\n", tree, tree.nodeCache)
 		fmt.Printf("  .evictLowLimit  = %v\n", tree.nodeCache.evictLowLimit)
 		fmt.Printf("  .evictHighLimit = %v\n", tree.nodeCache.evictHighLimit)
@@ -36,6 +37,7 @@ func (tree *btreeTreeStruct) Dump() (err error) {
 		}
 		fmt.Printf("  .dirtyLRUItems  = %v\n", tree.nodeCache.dirtyLRUItems)
 		fmt.Printf("  .drainerActive  = %v\n", tree.nodeCache.drainerActive)
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("B+Tree @ %p has Root Node @ %p\n", tree, tree.root)
@@ -56,6 +58,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 	}
 
 	if nil != tree.nodeCache {
+		tree.nodeCache.Lock()
 		switch node.btreeNodeCacheElement.btreeNodeCacheTag {
 		case noLRU:
 			fmt.Printf("%v  .btreeNodeCacheTag   = noLRU (%v)\n", indent, noLRU)
@@ -79,6 +82,7 @@ func (tree *btreeTreeStruct) dumpNode(node *btreeNodeStruct, indent string) (err
 				fmt.Printf("%v  .prevBTreeNode       = %p\n", indent, node.btreeNodeCacheElement.prevBTreeNode)
 			}
 		}
+		tree.nodeCache.Unlock()
 	}
 
 	fmt.Printf("%v  .objectNumber        = 0x%016x\n", indent, node.objectNumber)
-- 
2.43.0


From afad1922cb30e30f46c8c14eccbb18e69574f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 12/13] fix: a node becoming the root keeps no links to its
 former siblings

When a merge reduced the height of the tree, the surviving child became the
root but kept its prefix-sum links, which only apply to children. Through them
the merged-away sibling, the former root and in turn their contents stayed
referenced: a tree of 50000 items that was then emptied kept up to 15000
values from being garbage collected.
---
 btree.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/btree.go b/btree.go
index 00ed1f1..8ee6616 100644
--- a/btree.go
+++ b/btree.go
@@ -1851,6 +1851,10 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 
 			leftSiblingNode.root = true
 			leftSiblingNode.parentNode = nil
+			leftSiblingNode.prefixSumItems = 0        // Not applicable to root node
+			leftSiblingNode.prefixSumParent = nil     // Not applicable to root node
+			leftSiblingNode.prefixSumLeftChild = nil  // Not applicable to root node
+			leftSiblingNode.prefixSumRightChild = nil // Not applicable to root node
 			tree.root = leftSiblingNode
 
 			if !leftSiblingNode.leaf {
@@ -1946,6 +1950,10 @@ func (tree *btreeTreeStruct) rebalanceHere(rebalanceNode *btreeNodeStruct, paren
 
 			rebalanceNode.root = true
 			rebalanceNode.parentNode = nil
+			rebalanceNode.prefixSumItems = 0        // Not applicable to root node
+			rebalanceNode.prefixSumParent = nil     // Not applicable to root node
+			rebalanceNode.prefixSumLeftChild = nil  // Not applicable to root node
+			rebalanceNode.prefixSumRightChild = nil // Not applicable to root node
 			tree.root = rebalanceNode
 
 			if !rebalanceNode.leaf {
-- 
2.43.0


From 153ec32c02a3cbc04c931d88565715dd96211456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 13/13] fix: a node that failed to load keeps nothing of what
 was unpacked

---
 btree.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/btree.go b/btree.go
index 8ee6616..664794b 100644
--- a/btree.go
+++ b/btree.go
@@ -2857,6 +2857,16 @@ func (tree *btreeTreeStruct) loadNode(node *btreeNodeStruct) (err error) {
 		return
 	}
 
+	defer func() {
+		if nil != err {
+			// Drop what has been unpacked so far as node is not loaded (i.e. never to be evicted)
+
+			node.kvLLRB = nil
+			node.nonLeafLeftChild = nil
+			node.rootPrefixSumChild = nil
+		}
+	}()
+
 	node.kvLLRB = NewLLRBTree(node.tree.Compare, node.tree.BPlusTreeCallbacks)
 
 	_, err = cstruct.Unpack(nodeByteSlice, &onDiskNode, OnDiskByteOrder)
-- 
2.43.0

