From 4a1d1ac286c254957aff10a623aeae613c20f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:39 +0000
Subject: [PATCH 01/25] fix: deleting an absent key removed other keys

When the search for the key ended at a node without a matching child,
recursiveDelete reported the node itself as deleted. The parent then
dropped the whole subtree. Return the node unchanged instead, also when
the key ends inside a compressed path.
---
 txn.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index ad6c6be..d9f2c14 100644
--- a/txn.go
+++ b/txn.go
@@ -324,9 +324,12 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	}
 
 	// Find child node
+	if depth >= len(key) {
+		return node, nil, false
+	}
 	child, idx := t.findChild(node, key[depth])
 	if child == nil {
-		return nil, nil, false
+		return node, nil, false
 	}
 
 	// Recurse
-- 
2.43.0


From c8da10df0722ea8d0d0aeba0d90fcda70e5da769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:47 +0000
Subject: [PATCH 02/25] fix: report updates of keys that are prefixes of other
 keys

Overwriting a key stored on an inner node returned no previous value and
increased Len as if the key were new.
---
 txn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txn.go b/txn.go
index d9f2c14..3274703 100644
--- a/txn.go
+++ b/txn.go
@@ -163,11 +163,13 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	if node.getNodeLeaf() != nil && leafMatches(node.getNodeLeaf().getKey(), key) == 0 {
+		*old = 1
+		oldVal := node.getNodeLeaf().getValue()
 		newLeaf := t.writeNode(node.getNodeLeaf(), true)
 		newLeaf.setValue(value)
 		node = t.writeNode(node, true)
 		node.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-		return node, zero, true
+		return node, oldVal, true
 	}
 
 	// Check if given node has a prefix
-- 
2.43.0


From 520edfcb62ebe67f790334c908a29ec9f0d948cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:19 +0000
Subject: [PATCH 03/25] fix: count 256 children correctly

The number of children was kept in a uint8, so a node with a child for
every byte value counted zero children and its subtree was lost.
---
 node.go      | 4 ++--
 node_16.go   | 6 +++---
 node_256.go  | 6 +++---
 node_4.go    | 6 +++---
 node_48.go   | 6 +++---
 node_leaf.go | 4 ++--
 txn.go       | 2 +-
 7 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/node.go b/node.go
index b62b386..552f89c 100644
--- a/node.go
+++ b/node.go
@@ -9,8 +9,8 @@ type Node[T any] interface {
 	getPartialLen() uint32
 	setPartialLen(uint32)
 	getArtNodeType() nodeType
-	getNumChildren() uint8
-	setNumChildren(uint8)
+	getNumChildren() uint16
+	setNumChildren(uint16)
 	getPartial() []byte
 	setPartial([]byte)
 	isLeaf() bool
diff --git a/node_16.go b/node_16.go
index b230a54..b9d8fc8 100644
--- a/node_16.go
+++ b/node_16.go
@@ -12,7 +12,7 @@ import (
 type Node16[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [16]byte
 	children    [16]Node[T]
@@ -40,11 +40,11 @@ func (n *Node16[T]) getArtNodeType() nodeType {
 	return node16
 }
 
-func (n *Node16[T]) getNumChildren() uint8 {
+func (n *Node16[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node16[T]) setNumChildren(numChildren uint8) {
+func (n *Node16[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_256.go b/node_256.go
index 5ad5db3..f465bbd 100644
--- a/node_256.go
+++ b/node_256.go
@@ -10,7 +10,7 @@ import (
 type Node256[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	children    [256]Node[T]
 	mutateCh    atomic.Pointer[chan struct{}]
@@ -45,11 +45,11 @@ func (n *Node256[T]) getArtNodeType() nodeType {
 	return node256
 }
 
-func (n *Node256[T]) getNumChildren() uint8 {
+func (n *Node256[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node256[T]) setNumChildren(numChildren uint8) {
+func (n *Node256[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_4.go b/node_4.go
index a5f818c..024a51b 100644
--- a/node_4.go
+++ b/node_4.go
@@ -12,7 +12,7 @@ import (
 type Node4[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [4]byte
 	children    [4]Node[T]
@@ -40,11 +40,11 @@ func (n *Node4[T]) getArtNodeType() nodeType {
 	return node4
 }
 
-func (n *Node4[T]) getNumChildren() uint8 {
+func (n *Node4[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node4[T]) setNumChildren(numChildren uint8) {
+func (n *Node4[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_48.go b/node_48.go
index 5a6949c..1e3af26 100644
--- a/node_48.go
+++ b/node_48.go
@@ -11,7 +11,7 @@ import (
 type Node48[T any] struct {
 	id          uint64
 	partialLen  uint32
-	numChildren uint8
+	numChildren uint16
 	partial     []byte
 	keys        [256]byte
 	children    [48]Node[T]
@@ -39,11 +39,11 @@ func (n *Node48[T]) getArtNodeType() nodeType {
 	return node48
 }
 
-func (n *Node48[T]) getNumChildren() uint8 {
+func (n *Node48[T]) getNumChildren() uint16 {
 	return n.numChildren
 }
 
-func (n *Node48[T]) setNumChildren(numChildren uint8) {
+func (n *Node48[T]) setNumChildren(numChildren uint16) {
 	n.numChildren = numChildren
 }
 
diff --git a/node_leaf.go b/node_leaf.go
index 0039e6d..346b7e3 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -36,11 +36,11 @@ func (n *NodeLeaf[T]) getArtNodeType() nodeType {
 	return leafType
 }
 
-func (n *NodeLeaf[T]) getNumChildren() uint8 {
+func (n *NodeLeaf[T]) getNumChildren() uint16 {
 	return 0
 }
 
-func (n *NodeLeaf[T]) setNumChildren(numChildren uint8) {
+func (n *NodeLeaf[T]) setNumChildren(numChildren uint16) {
 	// no-op
 }
 
diff --git a/txn.go b/txn.go
index 3274703..118ae93 100644
--- a/txn.go
+++ b/txn.go
@@ -516,7 +516,7 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	for itr := slow; itr < len(node.getChildren()); itr++ {
 		node.setChild(itr, nil)
 	}
-	node.setNumChildren(uint8(numCh))
+	node.setNumChildren(uint16(numCh))
 
 	return node, numDel
 }
-- 
2.43.0


From 24156766aa5b816f7d7fc449e4b3ee7d163f196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:25 +0000
Subject: [PATCH 04/25] fix: clear the last child slot when removing a child

After removing a child from a node4 or node16 the last slot kept a second
reference to the last child. Walk visited that child twice.
---
 helpers.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/helpers.go b/helpers.go
index 9cb0cd5..35ac063 100644
--- a/helpers.go
+++ b/helpers.go
@@ -385,11 +385,8 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 
 	n.setNumChildren(n.getNumChildren() - 1)
@@ -436,11 +433,8 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		n.setChild(slow, children[itr])
 		slow += 1
 	}
-	for ; itr < len(n.getChildren()); itr++ {
-		if n.getChild(itr) != nil {
-			t.trackChannel(n.getChild(itr))
-		}
-		n.setChild(itr, nil)
+	for ; slow < len(n.getChildren()); slow++ {
+		n.setChild(slow, nil)
 	}
 	n.setNumChildren(n.getNumChildren() - 1)
 
-- 
2.43.0


From 61e1a49bd0c8d75344118b2bb316a98bbb9b0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:23 +0000
Subject: [PATCH 05/25] fix: make SeekLowerBound honour the bound

The seek skipped keys that are greater than the bound, returned keys that
are smaller than it, and indexed a node48 with -1. It now compares the
whole compressed path of each node with the bound and pushes exactly the
siblings that follow it.
---
 helpers.go              |  37 ++++++
 lower_bound_iterator.go | 265 ++++------------------------------------
 2 files changed, 63 insertions(+), 239 deletions(-)

diff --git a/helpers.go b/helpers.go
index 35ac063..f5354ce 100644
--- a/helpers.go
+++ b/helpers.go
@@ -197,6 +197,43 @@ func prefixMismatch[T any](n Node[T], key []byte, keyLen, depth int) int {
 	return idx
 }
 
+// comparePrefix compares the whole compressed path of an inner node with the
+// key starting at depth. A path that continues past the end of the key is
+// greater than it. Zero means that the key starts with the path.
+func comparePrefix[T any](n Node[T], key []byte, depth int) int {
+	idx := prefixMismatch[T](n, key, len(key), depth)
+	if idx >= int(n.getPartialLen()) {
+		return 0
+	}
+	if depth+idx >= len(key) {
+		return 1
+	}
+	if l := minimum(n); l != nil && l.key[depth+idx] < key[depth+idx] {
+		return -1
+	}
+	return 1
+}
+
+// orderedChildren returns the children of a node, and the key byte of each,
+// in ascending order.
+func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
+	var keys []byte
+	var children []Node[T]
+	switch n.getArtNodeType() {
+	case node4, node16:
+		nCh := int(n.getNumChildren())
+		return n.getKeys()[:nCh], n.getChildren()[:nCh]
+	case node48, node256:
+		for c := 0; c < 256; c++ {
+			if child, _ := findChild(n, byte(c)); child != nil {
+				keys = append(keys, byte(c))
+				children = append(children, child)
+			}
+		}
+	}
+	return keys, children
+}
+
 // minimum finds the minimum leaf under a node.
 func minimum[T any](node Node[T]) *NodeLeaf[T] {
 	// Handle base cases
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index c8b8e97..d560e27 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -11,12 +11,11 @@ import (
 // down to a specified path. This will iterate over the same values that
 // the Node.WalkPath method will.
 type LowerBoundIterator[T any] struct {
-	path         []byte
-	node         Node[T]
-	stack        []Node[T]
-	depth        int
-	pos          Node[T]
-	seenMismatch bool
+	path  []byte
+	node  Node[T]
+	stack []Node[T]
+	depth int
+	pos   Node[T]
 }
 
 // Front returns the current node that has been iterated to.
@@ -97,28 +96,8 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	return nil, zero, false
 }
 
-func (i *LowerBoundIterator[T]) recurseMin(n Node[T]) Node[T] {
-	// Traverse to the minimum child
-	if n.isLeaf() {
-		return n
-	}
-	nCh := n.getNumChildren()
-	if nCh > 1 {
-		// Add all the other edges to the stack (the min node will be added as
-		// we recurse)
-		var allCh []Node[T]
-		for itr := nCh - 1; itr >= 1; itr-- {
-			allCh = append(allCh, n.getChild(int(itr)))
-		}
-		i.stack = append(allCh, i.stack...)
-	}
-	if nCh > 0 {
-		return i.recurseMin(n.getChild(0))
-	}
-	// Shouldn't be possible
-	return nil
-}
-
+// SeekLowerBound is used to seek the iterator to the smallest key that is
+// greater or equal to the given key.
 func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	node := i.node
 
@@ -129,230 +108,38 @@ func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 		return
 	}
 
-	prefix := getTreeKey(prefixKey)
-
-	found := func(n Node[T]) {
-		nL := n.getNodeLeaf()
-		if nL == nil {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-		if bytes.Compare(nL.key, i.path) >= 0 {
-			i.stack = append(
-				i.stack,
-				n,
-			)
-			return
-		}
-	}
-
-	findMin := func(n Node[T]) {
-		if n != nil {
-			found(n)
-			return
-		}
-		n = i.recurseMin(n)
-	}
-
-	i.path = prefix
-
+	// Copy, the caller may reuse its buffer while we are iterating
+	key := append([]byte{}, prefixKey...)
+	i.path = key
 	depth := 0
-	i.node = node
-	i.seenMismatch = false
-
-	var parent Node[T]
-
-	for {
-
-		// Check if the node matches the prefix
-
-		if node == nil {
-			if parent != nil && parent.getNodeLeaf() != nil {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			return
-		}
-
-		var prefixCmp int
-		if !node.isLeaf() {
-			if int(node.getPartialLen()) < len(prefix) {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:min(len(prefix), depth+int(node.getPartialLen()))])
-			} else {
-				prefixCmp = bytes.Compare(node.getPartial()[:node.getPartialLen()], prefix[depth:])
-			}
-		}
-
-		if prefixCmp > 0 && !i.seenMismatch {
-			// Prefix is larger, that means the lower bound is greater than the search
-			// and from now on we need to follow the minimum path to the smallest
-			// leaf under this subtree.
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.key, i.path) >= 0 {
-					findMin(node)
-				}
-			} else {
-				findMin(node)
-			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-				return
-			}
-			return
-		}
-
-		if prefixCmp < 0 && !i.seenMismatch {
-			// Prefix is smaller than search prefix, that means there is no lower
-			// bound
-			i.node = nil
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		if node.isLeaf() && node.getNodeLeaf() != nil && bytes.Compare(node.getNodeLeaf().getKey(), prefix) >= 0 {
-			found(node)
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		// Determine the child index to proceed based on the next byte of the prefix
-		// If the node has a prefix, compare it with the prefix
-		if node.getArtNodeType() != leafType {
-			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
-			if mismatchIdx < int(node.getPartialLen()) && !i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				node = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				i.seenMismatch = true
-			}
-			depth += int(node.getPartialLen())
-		}
 
-		if depth >= len(prefix) {
-			nL := node.getNodeLeaf()
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
+	for node != nil {
+		if node.isLeaf() {
+			if nL := minimum(node); bytes.Compare(getKey(nL.getKey()), key) >= 0 {
 				i.stack = append(i.stack, node)
 			}
-			if parent != nil && parent.getNodeLeaf() != nil {
-				if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, parent.getNodeLeaf())
-				}
-			}
-			return
-		}
-
-		idx := node.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 && !i.seenMismatch {
 			return
 		}
 
-		if i.seenMismatch && idx != -1 {
-			idx = 0
-		}
-
-		if idx == -1 {
-			if node.getNodeLeaf() != nil {
-				if bytes.Compare(node.getNodeLeaf().getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-				}
-			} else {
-				for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-					nCh := node.getChild(itr)
-					nChL := nCh.getNodeLeaf()
-					if nChL == nil {
-						i.stack = append(i.stack, node.getChild(itr))
-					} else {
-						if bytes.Compare(nChL.key, i.path) >= 0 {
-							i.stack = append(i.stack, node.getChild(itr))
-						}
-					}
-				}
-			}
-			if parent.getNodeLeaf() != nil && bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
-			node = nil
+		prefixCmp := comparePrefix(node, key, depth)
+		if prefixCmp < 0 {
+			// Everything under this node is smaller than the search key.
 			return
 		}
-
-		if i.seenMismatch && parent != nil && parent.getNodeLeaf() != nil {
-			nL := node.getNodeLeaf()
-			addedNode := false
-			if nL != nil {
-				if bytes.Compare(nL.getKey(), i.path) >= 0 {
-					i.stack = append(i.stack, node)
-					addedNode = true
-				}
-			}
-			if !addedNode {
-				for itr := int(node.getNumChildren()) - 1; itr >= 0; itr-- {
-					if node.getChild(itr) != nil {
-						nCh := node.getChild(itr)
-						nChL := nCh.getNodeLeaf()
-						if nChL == nil {
-							i.stack = append(i.stack, node.getChild(itr))
-						} else {
-							if bytes.Compare(nChL.key, i.path) >= 0 {
-								i.stack = append(i.stack, node.getChild(itr))
-							}
-						}
-					}
-				}
-			}
-			if bytes.Compare(parent.getNodeLeaf().getKey(), i.path) >= 0 {
-				i.stack = append(i.stack, parent.getNodeLeaf())
-			}
+		depth += int(node.getPartialLen())
+		if prefixCmp > 0 || depth >= len(key) {
+			// Everything under this node is greater or equal.
+			i.stack = append(i.stack, node)
 			return
 		}
 
-		for itr := int(node.getNumChildren()) - 1; itr >= idx+1; itr-- {
-			if node.getChild(itr) != nil {
-				nCh := node.getChild(itr)
-				nChL := nCh.getNodeLeaf()
-				if nChL == nil {
-					i.stack = append(i.stack, node.getChild(itr))
-				} else {
-					if bytes.Compare(nChL.key, i.path) >= 0 {
-						i.stack = append(i.stack, node.getChild(itr))
-					}
-				}
-			}
-		}
-
-		if idx >= 0 && node.getKeyAtIdx(idx) != prefix[depth] {
-			i.seenMismatch = true
-		}
-
-		if idx == -1 {
-			return
+		// A leaf stored at this node is a proper prefix of the search key, so it
+		// is smaller. Larger siblings come after the child we descend into.
+		keys, children := orderedChildren(node)
+		for itr := len(children) - 1; itr >= 0 && keys[itr] > key[depth]; itr-- {
+			i.stack = append(i.stack, children[itr])
 		}
-
-		parent = node
-		// Move to the next level in the tree
-		node = node.getChild(idx)
-
+		node, _ = findChild(node, key[depth])
 		depth++
-
 	}
-
 }
-- 
2.43.0


From eab09561300d525150d939d59ffeebc1877b8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:50 +0000
Subject: [PATCH 06/25] fix: an empty tree has no entries

The root of an empty tree carried a leaf with an empty key. Iterators,
Walk, LongestPrefix, Minimum and Maximum reported it as an entry that was
never inserted.
---
 helpers.go |  5 +++++
 tree.go    |  6 +-----
 txn.go     | 18 ++++--------------
 3 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/helpers.go b/helpers.go
index f5354ce..1dfe53f 100644
--- a/helpers.go
+++ b/helpers.go
@@ -295,6 +295,11 @@ func maximum[T any](node Node[T]) *NodeLeaf[T] {
 		return nil
 	}
 
+	// Handle the root of an empty tree
+	if node.getArtNodeType() != leafType && node.getNumChildren() == 0 {
+		return node.getNodeLeaf()
+	}
+
 	if isLeaf[T](node) {
 		if node.getArtNodeType() == leafType {
 			return node.(*NodeLeaf[T])
diff --git a/tree.go b/tree.go
index b844df6..acabc35 100644
--- a/tree.go
+++ b/tree.go
@@ -34,12 +34,8 @@ type WalkFn[T any] func(k []byte, v T) bool
 
 func NewRadixTree[T any]() *RadixTree[T] {
 	rt := &RadixTree[T]{size: 0, maxNodeId: 0}
-	rt.root = &Node4[T]{
-		leaf: &NodeLeaf[T]{},
-	}
+	rt.root = &Node4[T]{}
 	rt.root.setId(rt.maxNodeId)
-	rt.root.getNodeLeaf().setId(rt.maxNodeId + 1)
-	rt.maxNodeId++
 	return rt
 }
 
diff --git a/txn.go b/txn.go
index 118ae93..f3c920b 100644
--- a/txn.go
+++ b/txn.go
@@ -268,13 +268,8 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 	newRoot, l, _ := t.recursiveDelete(t.tree.root, getTreeKey(key), 0)
 
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
+		t.tree.root.setPartialLen(0)
 	} else {
 		t.tree.root = newRoot
 	}
@@ -425,13 +420,8 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 	key := getTreeKey(prefix)
 	newRoot, numDeletions := t.deletePrefix(t.tree.root, key, 0)
 	if newRoot == nil {
-		t.tree.root = &Node4[T]{
-			leaf: &NodeLeaf[T]{
-				id: t.tree.maxNodeId + 1,
-			},
-			id: t.tree.maxNodeId,
-		}
-		t.tree.maxNodeId += 2
+		t.tree.root = t.allocNode(node4)
+		t.tree.root.setPartialLen(0)
 	} else {
 		t.tree.root = newRoot
 	}
-- 
2.43.0


From 5221b3b44047bfc01f243cf8d3555ea9f302085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:16 +0000
Subject: [PATCH 07/25] fix: make reverse iteration complete and ordered

SeekReverseLowerBound and Previous returned keys out of order, twice, or
not at all when keys were stored on inner nodes or in large nodes, and
ignored the prefix given to SeekPrefix. The seek now pushes exactly the
keys within the bound, and a node's own key follows its children.
---
 iterator.go         |  11 +-
 reverse_iterator.go | 239 +++++++-------------------------------------
 2 files changed, 41 insertions(+), 209 deletions(-)

diff --git a/iterator.go b/iterator.go
index d88db14..73e1373 100644
--- a/iterator.go
+++ b/iterator.go
@@ -7,12 +7,11 @@ package adaptive
 // down to a specified path. This will iterate over the same values that
 // the Node.WalkPath method will.
 type Iterator[T any] struct {
-	path         []byte
-	node         Node[T]
-	stack        []Node[T]
-	depth        int
-	pos          Node[T]
-	seenMismatch bool
+	path  []byte
+	node  Node[T]
+	stack []Node[T]
+	depth int
+	pos   Node[T]
 }
 
 // Front returns the current node that has been iterated to.
diff --git a/reverse_iterator.go b/reverse_iterator.go
index a0708cb..44ad7a3 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -8,16 +8,6 @@ import (
 // in reverse in-order
 type ReverseIterator[T any] struct {
 	i *Iterator[T]
-
-	// expandedParents stores the set of parent nodes whose relevant children have
-	// already been pushed into the stack. This can happen during seek or during
-	// iteration.
-	//
-	// Unlike forward iteration we need to recurse into children before we can
-	// output the value stored in an internal leaf since all children are greater.
-	// We use this to track whether we have already ensured all the children are
-	// in the stack.
-	expandedParents map[Node[T]]struct{}
 }
 
 // SeekPrefixWatch is used to seek the iterator to a given prefix
@@ -42,156 +32,74 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// node should both be nil to prevent the iterator from assuming it is just
 	// iterating the whole tree from the root node. Either way this needs to end
 	// up as nil so just set it here.
-	ri.i.seenMismatch = false
 	ri.i.stack = make([]Node[T], 0)
 	n := ri.i.node
 	ri.i.node = nil
-	prefix := getTreeKey(key)
-	ri.i.path = prefix
+	// The stack only ever holds keys within the bound, there is nothing left to
+	// filter while iterating.
+	ri.i.path = nil
 	depth := 0
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
-	found := func(n Node[T]) {
-		ri.i.stack = append(
-			ri.i.stack,
-			n,
-		)
-	}
-
-	for {
-		if n == nil {
-			break
+	for n != nil {
+		if n.isLeaf() {
+			if nL := minimum(n); bytes.Compare(getKey(nL.getKey()), key) <= 0 {
+				ri.i.stack = append(ri.i.stack, n)
+			}
+			return
 		}
+
 		// Compare current prefix with the search key's same-length prefix.
-		var prefixCmp int
-		if int(n.getPartialLen()) < len(prefix) {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:depth+int(n.getPartialLen())])
-		} else {
-			prefixCmp = bytes.Compare(n.getPartial()[:n.getPartialLen()], prefix[depth:])
-		}
+		prefixCmp := comparePrefix(n, key, depth)
 
 		if prefixCmp < 0 {
 			// Prefix is smaller than search prefix, that means there is no exact
 			// match for the search key. But we are looking in reverse, so the reverse
 			// lower bound will be the largest leaf under this subtree, since it is
 			// the value that would come right before the current search key if it
-			// were in the tree. So we need to follow the maximum path in this subtree
-			// to find it. Note that this is exactly what the iterator will already do
-			// if it finds a node in the stack that has _not_ been marked as expanded
-			// so in this one case we don't call `found` and instead let the iterator
-			// do the expansion and recursion through all the children.
+			// were in the tree. Iterating over this node yields it first.
 			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
-		if prefixCmp > 0 && !ri.i.seenMismatch {
+		if prefixCmp > 0 {
 			// Prefix is larger than search prefix, or there is no prefix but we've
 			// also exhausted the search key. Either way, that means there is no
 			// reverse lower bound since nothing comes before our current search
 			// prefix.
-			if n.getNodeLeaf() != nil {
-				ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-			}
-			return
-		}
-
-		// If this is a leaf, something needs to happen! Note that if it's a leaf
-		// and prefixCmp was zero (which it must be to get here) then the leaf value
-		// is either an exact match for the search, or it's lower. It can't be
-		// greater.
-		if n.isLeaf() {
-
-			nL := n.getNodeLeaf()
-			// Firstly, if it's an exact match, we're done!
-			if bytes.Equal(getKey(nL.getKey()), key) {
-				found(n)
-				return
-			}
-
-			// It's not so this node's leaf value must be lower and could still be a
-			// valid contender for reverse lower bound.
-
-			// If it has no children then we are also done.
-			if bytes.Compare(getKey(nL.getKey()), key) <= 0 {
-				// This leaf is the lower bound.
-				found(n)
-				return
-			}
-		}
-
-		// Consume the search prefix. Note that this is safe because if n.prefix is
-		// longer than the search slice prefixCmp would have been > 0 above and the
-		// method would have already returned.
-		// Determine the child index to proceed based on the next byte of the prefix
-		if n.getPartialLen() > 0 {
-			// If the node has a prefix, compare it with the prefix
-			mismatchIdx := prefixMismatch[T](n, prefix, len(prefix), depth)
-			if mismatchIdx < int(n.getPartialLen()) && !ri.i.seenMismatch {
-				// If there's a mismatch, set the node to nil to break the loop
-				if n.getNodeLeaf() != nil {
-					ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
-				}
-				n = nil
-				return
-			}
-			if mismatchIdx > 0 {
-				ri.i.seenMismatch = true
-			}
-			depth += int(n.getPartialLen())
-		}
-
-		if depth >= len(prefix) {
-			ri.i.stack = append(ri.i.stack, n)
 			return
 		}
 
+		// The leaf stored at this node is lower or equal, and comes after all the
+		// relevant children.
 		if n.getNodeLeaf() != nil {
-			ri.i.stack = append(ri.i.stack, n)
+			ri.i.stack = append(ri.i.stack, n.getNodeLeaf())
 		}
 
-		idx := n.getLowerBoundCh(prefix[depth])
-
-		if idx == -1 || depth == len(prefix)-1 {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		if idx >= 0 && n.getKeyAtIdx(idx) != prefix[depth] {
-			ri.i.seenMismatch = true
-		}
-
-		if ri.i.seenMismatch {
-			idx = int(n.getNumChildren()) - 1
-		}
-
-		for itr := 0; itr < idx; itr++ {
-			if n.getChild(itr) != nil {
-				ri.i.stack = append(ri.i.stack, n.getChild(itr))
+		depth += int(n.getPartialLen())
+		if depth >= len(key) {
+			// An exact match can also be stored under its terminator.
+			child, _ := findChild(n, '$')
+			if isLeaf(child) && bytes.Equal(getKey(minimum(child).getKey()), key) {
+				ri.i.stack = append(ri.i.stack, child)
 			}
+			return
 		}
 
-		if idx == -1 {
-			break
+		keys, children := orderedChildren(n)
+		for itr := 0; itr < len(children) && keys[itr] < key[depth]; itr++ {
+			ri.i.stack = append(ri.i.stack, children[itr])
 		}
 
 		// Move to the next level in the tree
-		ri.expandedParents[n] = struct{}{}
-		n = n.getChild(idx)
+		n, _ = findChild(n, key[depth])
 		depth++
 	}
-
 }
 
 // Previous returns the previous node in reverse order
 func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 	var zero T
 
-	if ri.expandedParents == nil {
-		ri.expandedParents = make(map[Node[T]]struct{})
-	}
-
 	if ri.i.stack == nil && ri.i.node != nil {
 		ri.i.stack = []Node[T]{ri.i.node}
 	}
@@ -205,94 +113,19 @@ func (ri *ReverseIterator[T]) Previous() ([]byte, T, bool) {
 			return nil, zero, false
 		}
 
-		switch node.(type) {
-		case *NodeLeaf[T]:
-			leafCh := node.(*NodeLeaf[T])
-			if bytes.Compare(getKey(leafCh.key), getKey(ri.i.path)) <= 0 {
+		// Children are greater than the leaf stored at their parent, so that leaf
+		// goes below them on the stack.
+		if leafCh, ok := node.(*NodeLeaf[T]); ok {
+			if hasPrefix(getKey(leafCh.key), ri.i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case *Node4[T]:
-			n4 := node.(*Node4[T])
-			if n4.leaf != nil {
-				if bytes.Compare(n4.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n4.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n4.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n4.children[itr])
-			}
-			if n4.leaf != nil && hasPrefix(getKey(n4.leaf.key), ri.i.path) {
-				return getKey(n4.leaf.key), n4.leaf.value, true
-			}
-		case *Node16[T]:
-			n16 := node.(*Node16[T])
-			if n16.leaf != nil {
-				if bytes.Compare(n16.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n16.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < int(n16.numChildren); itr++ {
-				ri.i.stack = append(ri.i.stack, n16.children[itr])
-			}
-			if n16.leaf != nil && hasPrefix(getKey(n16.leaf.key), ri.i.path) {
-				return getKey(n16.leaf.key), n16.leaf.value, true
-			}
-		case *Node48[T]:
-			n48 := node.(*Node48[T])
-			if n48.leaf != nil {
-				if bytes.Compare(n48.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n48.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n48.leaf != nil && hasPrefix(getKey(n48.leaf.key), ri.i.path) {
-				return getKey(n48.leaf.key), n48.leaf.value, true
-			}
-		case *Node256[T]:
-			n256 := node.(*Node256[T])
-			if n256.leaf != nil {
-				if bytes.Compare(n256.leaf.key, ri.i.path) <= 0 || len(ri.i.path) == 0 {
-					ri.i.stack = append(ri.i.stack, n256.leaf)
-				}
-			}
-			_, ok := ri.expandedParents[node]
-			if ok {
-				continue
-			}
-			for itr := 0; itr < 256; itr++ {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				ri.i.stack = append(ri.i.stack, nodeCh)
-			}
-			if n256.leaf != nil && hasPrefix(getKey(n256.leaf.key), ri.i.path) {
-				return getKey(n256.leaf.key), n256.leaf.value, true
-			}
 		}
+		if node.getNodeLeaf() != nil {
+			ri.i.stack = append(ri.i.stack, node.getNodeLeaf())
+		}
+		_, children := orderedChildren(node)
+		ri.i.stack = append(ri.i.stack, children...)
 	}
 	return nil, zero, false
 }
-- 
2.43.0


From 8924d30c2e0ba04eafd5be14bae2d36010f9eb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:41 +0000
Subject: [PATCH 08/25] fix: store keys as they are instead of appending '$'

The terminator was written into the spare capacity of the caller's slice.
It sorted keys wrongly relative to bytes smaller than '$', and made keys
that contain '$' collide with it. A key that ends at an inner node is now
kept as the leaf of that node, and keys are copied on the way in.
---
 helpers.go          | 14 ++++++++------
 node_leaf.go        | 10 ----------
 reverse_iterator.go |  5 -----
 txn.go              | 42 +++++++++++++++++-------------------------
 4 files changed, 25 insertions(+), 46 deletions(-)

diff --git a/helpers.go b/helpers.go
index 1dfe53f..b992077 100644
--- a/helpers.go
+++ b/helpers.go
@@ -384,16 +384,18 @@ func findChild[T any](n Node[T], c byte) (Node[T], int) {
 	return nil, 0
 }
 
+// getTreeKey returns the key as it is stored in the tree. It is a copy, the
+// tree must not share memory with the caller.
 func getTreeKey(key []byte) []byte {
-	return append(key, '$')
+	treeKey := make([]byte, len(key))
+	copy(treeKey, key)
+	return treeKey
 }
 
+// getKey returns a stored key as it is handed out. Its capacity is limited so
+// that appending to it cannot write into the tree.
 func getKey(key []byte) []byte {
-	keyLen := len(key)
-	if keyLen == 0 {
-		return key
-	}
-	return key[:keyLen-1]
+	return key[:len(key):len(key)]
 }
 
 func (t *Txn[T]) removeChild(n Node[T], c byte) Node[T] {
diff --git a/node_leaf.go b/node_leaf.go
index 346b7e3..aad765d 100644
--- a/node_leaf.go
+++ b/node_leaf.go
@@ -82,13 +82,6 @@ func (n *NodeLeaf[T]) setPartial(partial []byte) {
 }
 
 func (l *NodeLeaf[T]) prefixContainsMatch(key []byte) bool {
-	if len(key) == 0 || len(l.key) == 0 {
-		return false
-	}
-	if key == nil {
-		return false
-	}
-
 	return bytes.HasPrefix(getKey(key), getKey(l.key))
 }
 
@@ -108,9 +101,6 @@ func (n *NodeLeaf[T]) PathIterator(path []byte) *PathIterator[T] {
 }
 
 func (n *NodeLeaf[T]) matchPrefix(prefix []byte) bool {
-	if len(n.key) == 0 {
-		return false
-	}
 	return bytes.HasPrefix(n.key, prefix)
 }
 
diff --git a/reverse_iterator.go b/reverse_iterator.go
index 44ad7a3..2a11996 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -77,11 +77,6 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 
 		depth += int(n.getPartialLen())
 		if depth >= len(key) {
-			// An exact match can also be stored under its terminator.
-			child, _ := findChild(n, '$')
-			if isLeaf(child) && bytes.Equal(getKey(minimum(child).getKey()), key) {
-				ri.i.stack = append(ri.i.stack, child)
-			}
 			return
 		}
 
diff --git a/txn.go b/txn.go
index f3c920b..74cf977 100644
--- a/txn.go
+++ b/txn.go
@@ -192,24 +192,15 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			newLeafL := newLeaf.getNodeLeaf()
-			nL := node.getNodeLeaf()
-			if nL != nil && nL.getKeyLen() != 0 {
-				if bytes.HasPrefix(getKey(nL.getKey()), getKey(newLeafL.getKey())) {
-					t.trackChannel(node)
-					node = t.writeNode(node, false)
-					newNode := t.allocNode(node4)
-					newNode.setNodeLeaf(newLeaf.(*NodeLeaf[T]))
-					newNode = t.addChild(newNode, key[depth], node)
-					return newNode, zero, true
-				}
-			}
 			t.trackChannel(node)
 			node = t.writeNode(node, false)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
 				// newNode was created
+			} else {
+				// The key ends at this node
+				node.setNodeLeaf(newLeaf.getNodeLeaf())
 			}
 			return node, zero, true
 		}
@@ -238,10 +229,21 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newLeaf := t.makeLeaf(key, value)
 		if depth+prefixDiff < len(key) {
 			newNode = t.addChild(newNode, key[depth+prefixDiff], newLeaf)
+		} else {
+			// The key ends at the new node
+			newNode.setNodeLeaf(newLeaf.getNodeLeaf())
 		}
 		return newNode, zero, true
 	}
 
+	if depth >= len(key) {
+		// The key ends at this node
+		t.trackChannel(node)
+		node = t.writeNode(node, false)
+		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
+		return node, zero, true
+	}
+
 	// Find a child to recurse to
 	child, idx := t.findChild(node, key[depth])
 	if child != nil {
@@ -255,12 +257,9 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	if depth < len(key) {
-		t.trackChannel(node)
-		node = t.writeNode(node, false)
-		return t.addChild(node, key[depth], newLeaf), zero, true
-	}
-	return node, zero, false
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
 func (t *Txn[T]) Delete(key []byte) (T, bool) {
@@ -290,13 +289,6 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 		return nil, nil, false
 	}
 
-	if node.isLeaf() {
-		t.trackChannel(node)
-		if leafMatches(node.getKey(), key) == 0 {
-			return nil, node, true
-		}
-	}
-
 	// Handle hitting a leaf node
 	if node.getNodeLeaf() != nil {
 		nodeL := node.getNodeLeaf()
-- 
2.43.0


From b5effc4d6fba3631d7cbb3823a97d0ee58ae2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:47 +0000
Subject: [PATCH 09/25] fix: keep a copy of the prefix given to SeekPrefix

The iterator compared keys with the caller's slice while iterating, so
reusing that buffer changed the result.
---
 iterator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 73e1373..bac076b 100644
--- a/iterator.go
+++ b/iterator.go
@@ -105,7 +105,8 @@ func (i *Iterator[T]) SeekPrefixWatch(prefix []byte) (watch <-chan struct{}) {
 func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	node := i.node
 
-	i.path = prefix
+	// Copy, the caller may reuse its buffer while we are iterating
+	i.path = append([]byte{}, prefix...)
 
 	i.stack = nil
 	depth := 0
-- 
2.43.0


From 5050b7a263b571ef8dfcc60d0e49f036347a6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:53 +0000
Subject: [PATCH 10/25] fix: return the longest matching prefix from
 LongestPrefix

The key on the root was returned even when it is not a prefix, and a match
was missed when the search key ends at the node that holds it.
---
 tree.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/tree.go b/tree.go
index acabc35..76211f6 100644
--- a/tree.go
+++ b/tree.go
@@ -90,10 +90,10 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 
 	n := t.root
 	last = nil
-	if n.getNodeLeaf() != nil {
-		last = n.getNodeLeaf()
-	}
 	for {
+		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
+			last = n.getNodeLeaf()
+		}
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
@@ -108,18 +108,6 @@ func (t *RadixTree[T]) LongestPrefix(k []byte) ([]byte, T, bool) {
 			break
 		}
 
-		if n.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(n.getNodeLeaf().getKey())) {
-			last = n.getNodeLeaf()
-		}
-
-		for _, ch := range n.getChildren() {
-			if ch != nil {
-				if ch.getNodeLeaf() != nil && bytes.HasPrefix(getKey(key), getKey(ch.getNodeLeaf().getKey())) {
-					last = ch.getNodeLeaf()
-				}
-			}
-		}
-
 		// Recursively search
 		child, _ = t.findChild(n, key[depth])
 		if child == nil {
-- 
2.43.0


From 1596b68505ce6601ca860cabc04d515023305ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:59 +0000
Subject: [PATCH 11/25] fix: visit every key in order, with its value, in Walk
 and DFS

Walk skipped keys stored on inner nodes, passed zero values, and visited
the children of a node48 in insertion order. DFS missed children of nodes
whose child slots are not contiguous.
---
 tree.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/tree.go b/tree.go
index 76211f6..8c3d2de 100644
--- a/tree.go
+++ b/tree.go
@@ -366,16 +366,15 @@ func (t *RadixTree[T]) DFSPrintTree() {
 // recursively. Returns true if the walk should be aborted
 func recursiveWalk[T any](n Node[T], fn WalkFn[T]) bool {
 	// Visit the leaf values if any
-	if n.isLeaf() && n.getNodeLeaf() != nil && fn(getKey(n.getNodeLeaf().getKey()), n.getValue()) {
+	if nL := n.getNodeLeaf(); nL != nil && fn(getKey(nL.getKey()), nL.getValue()) {
 		return true
 	}
 
 	// Recurse on the children
-	for _, e := range n.getChildren() {
-		if e != nil {
-			if recursiveWalk(e, fn) {
-				return true
-			}
+	_, children := orderedChildren(n)
+	for _, e := range children {
+		if recursiveWalk(e, fn) {
+			return true
 		}
 	}
 	return false
@@ -390,10 +389,8 @@ func (t *RadixTree[T]) DFSNode(n Node[T], fn DfsFn[T]) {
 	fn(n)
 
 	// Recurse on the children
-	for itr := 0; itr < int(n.getNumChildren()); itr++ {
-		e := n.getChild(itr)
-		if e != nil {
-			t.DFSNode(e, fn)
-		}
+	_, children := orderedChildren(n)
+	for _, e := range children {
+		t.DFSNode(e, fn)
 	}
 }
-- 
2.43.0


From 3f3593e8a888d628f8e1dfd85f6f7ed41fc746b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:28 +0000
Subject: [PATCH 12/25] fix: remove exactly the keys with the prefix in
 DeletePrefix

The children of a node were compacted without their key bytes, and the
slots of large nodes were renumbered, so lookups of unrelated keys failed
after the call. Keys stored on inner nodes were counted but not removed.
Descend along the prefix and drop the matching subtree instead.
---
 txn.go | 89 ++++++++++++++++++++++++++++------------------------------
 1 file changed, 43 insertions(+), 46 deletions(-)

diff --git a/txn.go b/txn.go
index 74cf977..2348571 100644
--- a/txn.go
+++ b/txn.go
@@ -444,65 +444,62 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
-	// Bail if the prefix does not match
-	if node.getPartialLen() > 0 {
-		prefixLen := checkPrefix(node.getPartial(), int(node.getPartialLen()), key, depth)
-		if prefixLen < min(maxPrefixLen, len(getKey(key))) {
-			depth += prefixLen
+	if depth < len(key) && node.getPartialLen() > 0 {
+		mismatchIdx := prefixMismatch[T](node, key, len(key), depth)
+		if mismatchIdx < int(node.getPartialLen()) && depth+mismatchIdx < len(key) {
+			// Bail if the prefix does not match
+			return node, 0
 		}
+		depth += int(node.getPartialLen())
 	}
 
-	numDel := 0
-
-	if node.getNodeLeaf() != nil {
-		if bytes.HasPrefix(getKey(node.getNodeLeaf().getKey()), getKey(key)) {
-			t.trackChannel(node.getNodeLeaf())
-			numDel++
+	if depth >= len(key) {
+		// Everything under this node has the prefix
+		if numDel := t.trackSubtree(node); numDel > 0 {
+			return nil, numDel
 		}
+		return node, 0
 	}
 
-	// Recurse on the children
-	var newChIndxMap = make(map[int]Node[T])
-	for idx, ch := range node.getChildren() {
-		if ch != nil {
-			newCh, del := t.deletePrefix(ch, key, depth+1)
-			newChIndxMap[idx] = newCh
-			numDel += del
-			if del > 0 && t.trackMutate {
-				t.trackChannel(ch)
-			}
-		}
+	// Recurse on the only child that can have the prefix
+	child, idx := t.findChild(node, key[depth])
+	if child == nil {
+		return node, 0
+	}
+	newChild, numDel := t.deletePrefix(child, key, depth+1)
+	if numDel == 0 {
+		return node, 0
 	}
 
-	slow := 0
-	numCh := 0
-
-	node = t.writeNode(node, true)
-
-	for itr := 0; itr < int(node.getNumChildren()); itr++ {
-		newCh, ok := newChIndxMap[itr]
-		if ok {
-			if newCh == nil {
-				continue
-			} else {
-				numCh++
-				node.setChild(slow, newCh)
-				slow++
-			}
-		} else {
-			numCh++
-			node.setChild(slow, node.getChild(itr))
-			slow++
-		}
+	t.trackChannel(node)
+	node = t.writeNode(node, false)
+	node.setChild(idx, newChild)
+	if newChild == nil {
+		node = t.removeChild(node, key[depth])
 	}
-	for itr := slow; itr < len(node.getChildren()); itr++ {
-		node.setChild(itr, nil)
+	if node.getNumChildren() == 0 && node.getNodeLeaf() == nil {
+		return nil, numDel
 	}
-	node.setNumChildren(uint16(numCh))
-
 	return node, numDel
 }
 
+// trackSubtree tracks the channels of everything under a node that is about to
+// be removed, and returns the number of leaves.
+func (t *Txn[T]) trackSubtree(node Node[T]) int {
+	numLeaves := 0
+	t.trackChannel(node)
+	if nL := node.getNodeLeaf(); nL != nil {
+		t.trackChannel(nL)
+		numLeaves++
+	}
+	for _, ch := range node.getChildren() {
+		if ch != nil {
+			numLeaves += t.trackSubtree(ch)
+		}
+	}
+	return numLeaves
+}
+
 func (t *Txn[T]) makeLeaf(key []byte, value T) Node[T] {
 	// Allocate memory for the leaf node
 	l := t.allocNode(leafType)
-- 
2.43.0


From b20287a61f4491d53f03dc8026806d8eddf5d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:35 +0000
Subject: [PATCH 13/25] fix: iterate over all keys without a seek

Next on a fresh iterator returned nothing unless SeekPrefix was called
first, unlike Previous on a fresh reverse iterator.
---
 iterator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iterator.go b/iterator.go
index bac076b..7f486bf 100644
--- a/iterator.go
+++ b/iterator.go
@@ -26,6 +26,11 @@ func (i *Iterator[T]) Path() string {
 func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	var zero T
 
+	// Start at the node if the iterator has not been moved by a seek
+	if i.stack == nil && i.node != nil {
+		i.stack = []Node[T]{i.node}
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
-- 
2.43.0


From be86589d308c0fb743cfeccae2960ed7e7c94498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:07 +0000
Subject: [PATCH 14/25] fix: do not modify committed or cloned trees through a
 transaction

After CommitOnly or Clone the transaction still treated the nodes it had
written as its own. Later writes changed them in place, and with them the
committed tree or the cloned transaction.
---
 txn.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txn.go b/txn.go
index 2348571..7b45365 100644
--- a/txn.go
+++ b/txn.go
@@ -66,6 +66,8 @@ func (t *Txn[T]) Clone() *Txn[T] {
 		tree:         newTree,
 		oldMaxNodeId: t.tree.maxNodeId,
 	}
+	// The nodes written so far are now shared with the clone
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return txn
 }
 
@@ -386,6 +388,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 		t.size,
 		t.tree.maxNodeId,
 	}
+	// The nodes written so far now belong to the committed tree
+	t.oldMaxNodeId = t.tree.maxNodeId
 	return nt
 
 }
-- 
2.43.0


From 4d70e321b60ed2f42f8769b69049fcdaa7d52578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:12 +0000
Subject: [PATCH 15/25] fix: do not notify watchers of keys that did not change

Growing or shrinking a node, or inserting a prefix of an existing key,
replaced and closed the watch channel of a key that was only moved.
---
 helpers.go | 19 +++++--------------
 txn.go     |  2 --
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/helpers.go b/helpers.go
index b992077..c20a3c3 100644
--- a/helpers.go
+++ b/helpers.go
@@ -79,8 +79,7 @@ func (t *Txn[T]) addChild4(n Node[T], c byte, child Node[T]) Node[T] {
 		newNode := t.allocNode(node16)
 		// Copy the child pointers and the key map
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
 		copy(newNode.getKeys()[:], n.getKeys()[:n.getNumChildren()])
@@ -108,8 +107,7 @@ func (t *Txn[T]) addChild16(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node48)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		// Copy the child pointers and populate the key map
 		copy(newNode.getChildren()[:], n.getChildren()[:n.getNumChildren()])
@@ -135,8 +133,7 @@ func (t *Txn[T]) addChild48(n Node[T], c byte, child Node[T]) Node[T] {
 	} else {
 		newNode := t.allocNode(node256)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		for i := 0; i < 256; i++ {
 			if n.getKeyAtIdx(i) != 0 {
@@ -489,10 +486,6 @@ func (t *Txn[T]) removeChild16(n Node[T], c byte) Node[T] {
 		t.copyHeader(newNode, n)
 		copy(n4.keys[:], n.getKeys()[:4])
 		copy(n4.children[:], n.getChildren()[:4])
-		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
-		}
 		newNode.setNodeLeaf(n.getNodeLeaf())
 		return newNode
 	}
@@ -511,8 +504,7 @@ func (t *Txn[T]) removeChild48(n Node[T], c uint8) Node[T] {
 		t.trackChannel(n)
 		t.copyHeader(newNode, n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		child := 0
 		for i := 0; i < 256; i++ {
@@ -539,8 +531,7 @@ func (t *Txn[T]) removeChild256(n Node[T], c uint8) Node[T] {
 		t.copyHeader(newNode, n)
 		t.trackChannel(n)
 		if n.getNodeLeaf() != nil {
-			nL := t.writeNode(n.getNodeLeaf(), true)
-			newNode.setNodeLeaf(nL.(*NodeLeaf[T]))
+			newNode.setNodeLeaf(n.getNodeLeaf())
 		}
 		pos := 0
 		for i := 0; i < 256; i++ {
diff --git a/txn.go b/txn.go
index 7b45365..ed9a125 100644
--- a/txn.go
+++ b/txn.go
@@ -140,8 +140,6 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		copy(newNode.getPartial()[:], key[depth:depth+min(maxPrefixLen, longestPrefix)])
 
 		if bytes.HasPrefix(getKey(nodeLeaf.getKey()), getKey(newLeaf2L.getKey())) {
-
-			t.trackChannel(nodeLeaf)
 			newNode.setNodeLeaf(newLeaf2L)
 			newNode = t.addChild(newNode, nodeLeaf.getKey()[depth+longestPrefix], node)
 
-- 
2.43.0


From 7d0edbea3dbe78e8b54bc2f3903bba3b59a50527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:18 +0000
Subject: [PATCH 16/25] fix: keep the watch channels of older trees intact

Tracking a mutation replaced the channel on a node that readers of the
previous tree still use. A watch taken from that tree afterwards was never
closed, not even by the transaction that was in progress. An abandoned
transaction lost notifications in the same way. Only nodes written by the
transaction itself get a new channel now.
---
 txn.go | 43 ++++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/txn.go b/txn.go
index ed9a125..1c7e6ca 100644
--- a/txn.go
+++ b/txn.go
@@ -22,18 +22,18 @@ type Txn[T any] struct {
 }
 
 func (t *Txn[T]) writeNode(n Node[T], trackCh bool) Node[T] {
+	nc := n
+	if n.getId() <= t.oldMaxNodeId {
+		nc = n.clone(true)
+		t.tree.maxNodeId++
+		nc.setId(t.tree.maxNodeId)
+	}
 	if trackCh {
-		t.trackChannel(n)
+		t.trackChannel(nc)
 		if n.getNodeLeaf() != nil {
 			t.trackChannel(n.getNodeLeaf())
 		}
 	}
-	if n.getId() > t.oldMaxNodeId {
-		return n
-	}
-	nc := n.clone(!trackCh)
-	t.tree.maxNodeId++
-	nc.setId(t.tree.maxNodeId)
 	return nc
 }
 
@@ -130,8 +130,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 		nodeLeaf := node.getNodeLeaf()
 
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 
 		// Determine longest prefix
 		longestPrefix := longestCommonPrefix[T](newLeaf2L, nodeLeaf, depth)
@@ -183,8 +183,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 				if child != nil {
 					newChild, val, mutatedSubTree := t.recursiveInsert(child, key, value, depth+1, old)
 					if mutatedSubTree || newChild != child {
-						t.trackChannel(node)
 						node = t.writeNode(node, false)
+						t.trackChannel(node)
 						node.setChild(idx, newChild)
 					}
 					return node, val, mutatedSubTree
@@ -192,8 +192,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 			}
 
 			newLeaf := t.makeLeaf(key, value)
-			t.trackChannel(node)
 			node = t.writeNode(node, false)
+			t.trackChannel(node)
 			if depth < len(key) {
 				// No child, node goes within us
 				node = t.addChild(node, key[depth], newLeaf)
@@ -209,8 +209,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 		newNode := t.allocNode(node4)
 		newNode.setPartialLen(uint32(prefixDiff))
 		copy(newNode.getPartial()[:], node.getPartial()[:min(maxPrefixLen, prefixDiff)])
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 
 		// Adjust the prefix of the old node
 		if node.getPartialLen() <= maxPrefixLen {
@@ -238,8 +238,8 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 
 	if depth >= len(key) {
 		// The key ends at this node
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 		node.setNodeLeaf(t.makeLeaf(key, value).getNodeLeaf())
 		return node, zero, true
 	}
@@ -249,16 +249,16 @@ func (t *Txn[T]) recursiveInsert(node Node[T], key []byte, value T, depth int, o
 	if child != nil {
 		newChild, val, mutatedSubtree := t.recursiveInsert(child, key, value, depth+1, old)
 		if mutatedSubtree || newChild != child {
-			t.trackChannel(node)
 			node = t.writeNode(node, false)
+			t.trackChannel(node)
 			node.setChild(idx, newChild)
 		}
 		return node, val, mutatedSubtree
 	}
 
 	newLeaf := t.makeLeaf(key, value)
-	t.trackChannel(node)
 	node = t.writeNode(node, false)
+	t.trackChannel(node)
 	return t.addChild(node, key[depth], newLeaf), zero, true
 }
 
@@ -273,7 +273,6 @@ func (t *Txn[T]) Delete(key []byte) (T, bool) {
 		t.tree.root = newRoot
 	}
 	if l != nil {
-		t.trackChannel(t.tree.root)
 		t.size--
 		t.tree.size--
 		old := l.getValue()
@@ -325,8 +324,8 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 	newChild, val, mutate := t.recursiveDelete(child, key, depth+1)
 
 	if newChild != child || val != nil {
-		t.trackChannel(node)
 		node = t.writeNode(node, false)
+		t.trackChannel(node)
 		node.setChild(idx, newChild)
 		if newChild == nil {
 			node = t.removeChild(node, key[depth])
@@ -420,9 +419,6 @@ func (t *Txn[T]) DeletePrefix(prefix []byte) bool {
 		t.tree.root = newRoot
 	}
 	if numDeletions != 0 {
-		if t.trackMutate {
-			t.trackChannel(t.tree.root)
-		}
 		t.tree.size = t.tree.size - uint64(numDeletions)
 		t.size = t.tree.size
 		return true
@@ -473,8 +469,8 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 		return node, 0
 	}
 
-	t.trackChannel(node)
 	node = t.writeNode(node, false)
+	t.trackChannel(node)
 	node.setChild(idx, newChild)
 	if newChild == nil {
 		node = t.removeChild(node, key[depth])
@@ -571,7 +567,12 @@ func (t *Txn[T]) trackChannel(node Node[T]) {
 		t.trackChnSlice = make([]chan struct{}, 0)
 	}
 	t.trackChnSlice = append(t.trackChnSlice, ch)
-	node.setMutateCh(make(chan struct{}))
+	// A node written by this transaction stays in the tree and needs a channel
+	// for later watchers. Other nodes still belong to older trees, whose watchers
+	// must keep getting the channel that is going to be closed.
+	if node.getId() > t.oldMaxNodeId {
+		node.setMutateCh(make(chan struct{}))
+	}
 }
 
 // isClosed returns true if the given channel is closed.
-- 
2.43.0


From be2101513f28c2b80266db380305a31736f096ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:24 +0000
Subject: [PATCH 17/25] fix: watch the right node for an absent key below a
 long path

GetWatch compared only the first bytes of a long compressed path and went
on into a subtree the key does not belong to. Inserting the key did not
close the returned channel.
---
 tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 8c3d2de..94875b0 100644
--- a/tree.go
+++ b/tree.go
@@ -250,8 +250,8 @@ func (t *RadixTree[T]) iterativeSearchWithWatch(key []byte) (T, bool, <-chan str
 
 		// Bail if the prefix does not match
 		if n.getPartialLen() > 0 {
-			prefixLen := checkPrefix(n.getPartial(), int(n.getPartialLen()), key, depth)
-			if prefixLen != min(maxPrefixLen, int(n.getPartialLen())) {
+			// Compare the whole path, a key that leaves it is inserted at this node
+			if prefixMismatch[T](n, key, len(key), depth) < int(n.getPartialLen()) {
 				if n.getNodeLeaf() != nil {
 					if leafMatches(n.getNodeLeaf().getKey(), key) == 0 {
 						return n.getNodeLeaf().getValue(), true, n.getNodeLeaf().getMutateCh()
-- 
2.43.0


From 87cc9686833d23e79508329287b3e640e67c1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:21 +0000
Subject: [PATCH 18/25] fix: DeletePrefix on an empty tree notifies nobody

It marked the root as changed although nothing was deleted.
---
 txn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/txn.go b/txn.go
index 1c7e6ca..4739c9e 100644
--- a/txn.go
+++ b/txn.go
@@ -452,11 +452,11 @@ func (t *Txn[T]) deletePrefix(node Node[T], key []byte, depth int) (Node[T], int
 	}
 
 	if depth >= len(key) {
-		// Everything under this node has the prefix
-		if numDel := t.trackSubtree(node); numDel > 0 {
-			return nil, numDel
+		// Everything under this node has the prefix, if there is anything
+		if node.getNumChildren() == 0 {
+			return node, 0
 		}
-		return node, 0
+		return nil, t.trackSubtree(node)
 	}
 
 	// Recurse on the only child that can have the prefix
-- 
2.43.0


From fd3d7287e4c84894034b3e9c41ad30dc5a795f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:00 +0000
Subject: [PATCH 19/25] fix: transactions committing at the same time no longer
 close a channel twice

---
 txn.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/txn.go b/txn.go
index 4739c9e..615e657 100644
--- a/txn.go
+++ b/txn.go
@@ -5,10 +5,15 @@ package adaptive
 
 import (
 	"bytes"
+	"sync"
 )
 
 const defaultModifiedCache = 8192
 
+// notifyLock serializes notification, because transactions started from the
+// same tree may have tracked the same channels.
+var notifyLock sync.Mutex
+
 type Txn[T any] struct {
 	tree *RadixTree[T]
 
@@ -395,6 +400,8 @@ func (t *Txn[T]) CommitOnly() *RadixTree[T] {
 // to trigger notifications. This doesn't require any additional state but it
 // is very expensive to compute.
 func (t *Txn[T]) slowNotify() {
+	notifyLock.Lock()
+	defer notifyLock.Unlock()
 	for _, ch := range t.trackChnSlice {
 		if ch != nil && !isClosed(ch) {
 			close(ch)
-- 
2.43.0


From 334044775df9224cef7ead0f485bd4fa74c2d991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:31 +0000
Subject: [PATCH 20/25] fix: do not scan the tree for a prefix that no key has

---
 helpers.go  | 25 +++++++++++++++++++++++++
 iterator.go | 14 ++++----------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/helpers.go b/helpers.go
index c20a3c3..4222178 100644
--- a/helpers.go
+++ b/helpers.go
@@ -231,6 +231,31 @@ func orderedChildren[T any](n Node[T]) ([]byte, []Node[T]) {
 	return keys, children
 }
 
+// nodeDepth returns the number of bytes that the keys below a node have before
+// its compressed path, which is zero for the root of a tree.
+func nodeDepth[T any](n Node[T]) int {
+	first, last := minimum(n), maximum(n)
+	if first == nil || first == last {
+		return 0
+	}
+	depth := longestCommonPrefix[T](first, last, 0) - int(n.getPartialLen())
+	for n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
+		_, children := orderedChildren(n)
+		n = children[0]
+		depth -= int(n.getPartialLen()) + 1
+	}
+	return depth
+}
+
+// matchingNodes returns what is left to iterate over where the search for a
+// prefix ended: the node if its keys start with the prefix, otherwise nothing.
+func matchingNodes[T any](n Node[T], prefix []byte) []Node[T] {
+	if l := minimum(n); l != nil && hasPrefix(l.key, prefix) {
+		return []Node[T]{n}
+	}
+	return []Node[T]{}
+}
+
 // minimum finds the minimum leaf under a node.
 func minimum[T any](node Node[T]) *NodeLeaf[T] {
 	// Handle base cases
diff --git a/iterator.go b/iterator.go
index 7f486bf..f3c1382 100644
--- a/iterator.go
+++ b/iterator.go
@@ -113,11 +113,7 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 	// Copy, the caller may reuse its buffer while we are iterating
 	i.path = append([]byte{}, prefix...)
 
-	i.stack = nil
-	depth := 0
-
-	i.stack = []Node[T]{node}
-	i.node = node
+	depth := nodeDepth(node)
 
 	for {
 		// Check if the node matches the prefix
@@ -127,9 +123,9 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 			// If the node has a prefix, compare it with the prefix
 			mismatchIdx := prefixMismatch[T](node, prefix, len(prefix), depth)
 			if mismatchIdx < int(node.getPartialLen()) {
-				// If there's a mismatch, set the node to nil to break the loop
+				// If there's a mismatch, break the loop
 				i.node = node
-				i.stack = []Node[T]{node}
+				i.stack = matchingNodes(node, prefix)
 				return node
 			}
 			depth += int(node.getPartialLen())
@@ -147,12 +143,10 @@ func (i *Iterator[T]) SeekPrefix(prefix []byte) Node[T] {
 		if child == nil {
 			// If the child node doesn't exist, break the loop
 			i.node = node
-			i.stack = []Node[T]{node}
+			i.stack = matchingNodes(node, prefix)
 			return node
 		}
 
-		i.stack = []Node[T]{node}
-		i.node = node
 		i.depth = depth
 
 		node = child
-- 
2.43.0


From 81106313ad11d56222dd07afa2f13a2dbc9bbd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:13 +0000
Subject: [PATCH 21/25] fix: follow only the given path in PathIterator

---
 path_iter.go | 90 ++++++++++++----------------------------------------
 1 file changed, 21 insertions(+), 69 deletions(-)

diff --git a/path_iter.go b/path_iter.go
index 94e942c..2ece85a 100644
--- a/path_iter.go
+++ b/path_iter.go
@@ -21,88 +21,40 @@ func (i *PathIterator[T]) Next() ([]byte, T, bool) {
 		return nil, zero, false
 	}
 
+	if i.node != nil {
+		i.depth = nodeDepth(*i.node)
+		i.node = nil
+	}
+
 	// Iterate through the stack until it's empty
 	for len(i.stack) > 0 {
 		nodeCur := i.stack[0]
 		i.stack = i.stack[1:]
 		currentNode := nodeCur.(Node[T])
 
-		switch currentNode.getArtNodeType() {
-		case leafType:
+		if currentNode.getArtNodeType() == leafType {
 			leafCh := currentNode.(*NodeLeaf[T])
 			if leafCh.prefixContainsMatch(i.path) {
 				return getKey(leafCh.key), leafCh.value, true
 			}
 			continue
-		case node4:
-			n4 := currentNode.(*Node4[T])
-			for itr := int(n4.getNumChildren()) - 1; itr >= 0; itr-- {
-				nodeCh := n4.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				child := (n4.children[itr]).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n4.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n4.getNodeLeaf()}, i.stack...)
-			}
-		case node16:
-			n16 := currentNode.(*Node16[T])
-			for itr := int(n16.getNumChildren()) - 1; itr >= 0; itr-- {
-				nodeCh := n16.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				child := (nodeCh).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n16.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n16.getNodeLeaf()}, i.stack...)
-			}
-		case node48:
-			n48 := currentNode.(*Node48[T])
-			for itr := 255; itr >= 0; itr-- {
-				idx := n48.keys[itr]
-				if idx == 0 {
-					continue
-				}
-				nodeCh := n48.children[idx-1]
-				if nodeCh == nil {
-					continue
-				}
-				child := (nodeCh).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n48.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n48.getNodeLeaf()}, i.stack...)
-			}
-		case node256:
-			n256 := currentNode.(*Node256[T])
-			for itr := 255; itr >= 0; itr-- {
-				nodeCh := n256.children[itr]
-				if nodeCh == nil {
-					continue
-				}
-				child := (n256.children[itr]).(Node[T])
-				newStack := make([]Node[T], len(i.stack)+1)
-				copy(newStack[1:], i.stack)
-				newStack[0] = child
-				i.stack = newStack
-			}
-			if n256.getNodeLeaf() != nil {
-				i.stack = append([]Node[T]{n256.getNodeLeaf()}, i.stack...)
+		}
+
+		// Only the leaf stored here and the child that the path continues with can
+		// hold keys on the path
+		if currentNode.getNodeLeaf() != nil {
+			i.stack = append(i.stack, currentNode.getNodeLeaf())
+		}
+		i.depth += int(currentNode.getPartialLen())
+		if currentNode.getNumChildren() == 1 {
+			_, children := orderedChildren(currentNode)
+			i.stack = append(i.stack, children[0])
+		} else if i.depth < len(i.path) {
+			if child, _ := findChild(currentNode, i.path[i.depth]); child != nil {
+				i.stack = append(i.stack, child)
 			}
 		}
+		i.depth++
 	}
 	return nil, zero, false
 }
-- 
2.43.0


From 98b07f697a6c4e0d36eab42c48b6de4ef0dd406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:59:49 +0000
Subject: [PATCH 22/25] fix: seek bounds from inner nodes

Lower bound and reverse lower bound seeks assumed that the node they start
from is the root, and compared the key with the wrong bytes below any other
node, for example one visited by DFS.
---
 lower_bound_iterator.go | 14 +++++++++++++-
 reverse_iterator.go     | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index d560e27..821d729 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -111,7 +111,19 @@ func (i *LowerBoundIterator[T]) SeekLowerBound(prefixKey []byte) {
 	// Copy, the caller may reuse its buffer while we are iterating
 	key := append([]byte{}, prefixKey...)
 	i.path = key
-	depth := 0
+
+	first, last := minimum(node), maximum(node)
+	if first == nil || bytes.Compare(getKey(last.getKey()), key) < 0 {
+		return
+	}
+	if bytes.Compare(getKey(first.getKey()), key) >= 0 {
+		i.stack = append(i.stack, node)
+		return
+	}
+
+	// The search key lies between two keys of this node, which may be an inner
+	// node, so they have the bytes before it in common.
+	depth := nodeDepth(node)
 
 	for node != nil {
 		if node.isLeaf() {
diff --git a/reverse_iterator.go b/reverse_iterator.go
index 2a11996..e5abcb6 100644
--- a/reverse_iterator.go
+++ b/reverse_iterator.go
@@ -38,7 +38,19 @@ func (ri *ReverseIterator[T]) SeekReverseLowerBound(key []byte) {
 	// The stack only ever holds keys within the bound, there is nothing left to
 	// filter while iterating.
 	ri.i.path = nil
-	depth := 0
+
+	first, last := minimum(n), maximum(n)
+	if first == nil || bytes.Compare(getKey(first.getKey()), key) > 0 {
+		return
+	}
+	if bytes.Compare(getKey(last.getKey()), key) <= 0 {
+		ri.i.stack = append(ri.i.stack, n)
+		return
+	}
+
+	// The search key lies between two keys of this node, which may be an inner
+	// node, so they have the bytes before it in common.
+	depth := nodeDepth(n)
 
 	for n != nil {
 		if n.isLeaf() {
-- 
2.43.0


From 3306408b21969939702ff81a7d17da1e62311bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:03 +0000
Subject: [PATCH 23/25] fix: report the current node in Front

Front never returned anything, because iterators did not record the node they
had reached.
---
 iterator.go             | 2 ++
 lower_bound_iterator.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/iterator.go b/iterator.go
index f3c1382..0136809 100644
--- a/iterator.go
+++ b/iterator.go
@@ -35,6 +35,7 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
 		i.stack = i.stack[:len(i.stack)-1]
+		i.pos = node
 
 		if node == nil {
 			return nil, zero, false
@@ -99,6 +100,7 @@ func (i *Iterator[T]) Next() ([]byte, T, bool) {
 			}
 		}
 	}
+	i.pos = nil
 	return nil, zero, false
 }
 
diff --git a/lower_bound_iterator.go b/lower_bound_iterator.go
index 821d729..34a74f7 100644
--- a/lower_bound_iterator.go
+++ b/lower_bound_iterator.go
@@ -34,6 +34,7 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 	for len(i.stack) > 0 {
 		node := i.stack[len(i.stack)-1]
 		i.stack = i.stack[:len(i.stack)-1]
+		i.pos = node
 
 		if node == nil {
 			return nil, zero, false
@@ -93,6 +94,7 @@ func (i *LowerBoundIterator[T]) Next() ([]byte, T, bool) {
 			return getKey(leafCh.key), leafCh.value, true
 		}
 	}
+	i.pos = nil
 	return nil, zero, false
 }
 
-- 
2.43.0


From f9812c962f84fc81359adcc8475318ecd285a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:01 +0000
Subject: [PATCH 24/25] fix: merge a node that lost its key with its only child

Deleting a key that is a prefix of other keys left a node with one child and
no key of its own. A tree that once held a long chain of prefixes kept a node
for every one of them. Such a node is now merged with its child, as it is when
a sibling is deleted.
---
 helpers.go | 5 +++++
 txn.go     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 4222178..05df6a4 100644
--- a/helpers.go
+++ b/helpers.go
@@ -457,6 +457,11 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 
 	n.setNumChildren(n.getNumChildren() - 1)
 
+	return t.collapse(n)
+}
+
+// collapse merges a node that has a single child and no leaf with that child.
+func (t *Txn[T]) collapse(n Node[T]) Node[T] {
 	if n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
 		nodeToReturn := t.writeNode(n.getChild(0), false)
 		// Is not leaf
diff --git a/txn.go b/txn.go
index 615e657..e4ef59e 100644
--- a/txn.go
+++ b/txn.go
@@ -300,7 +300,7 @@ func (t *Txn[T]) recursiveDelete(node Node[T], key []byte, depth int) (Node[T],
 			node = t.writeNode(node, true)
 			node.setNodeLeaf(nil)
 			if node.getNumChildren() > 0 {
-				return node, nodeL, true
+				return t.collapse(node), nodeL, true
 			} else {
 				return nil, nodeL, false
 			}
-- 
2.43.0


From 261712f2d26bdd1ae01bebfced6cdf221dc3ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:53:20 +0000
Subject: [PATCH 25/25] fix: only merge a node with four slots into its child

collapse reads the child from slot 0, which is right for the smallest kind of
node only. Wider nodes shrink before they are down to one child, so nothing
changes today, but deleting a key no longer depends on that.
---
 helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 05df6a4..a362c8a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -461,8 +461,9 @@ func (t *Txn[T]) removeChild4(n Node[T], c byte) Node[T] {
 }
 
 // collapse merges a node that has a single child and no leaf with that child.
+// Wider nodes shrink to a node4 before they are down to one child.
 func (t *Txn[T]) collapse(n Node[T]) Node[T] {
-	if n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
+	if n.getArtNodeType() == node4 && n.getNumChildren() == 1 && n.getNodeLeaf() == nil {
 		nodeToReturn := t.writeNode(n.getChild(0), false)
 		// Is not leaf
 		if n.getArtNodeType() != leafType {
-- 
2.43.0

