From fa8726089166c9a0d8513a33397da6785f6118c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:48 +0000
Subject: [PATCH 01/51] fix: keep a key readable when it is a prefix of an
 existing key

---
 radix/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..1441b85 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -245,8 +245,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			}
 		}
 	} else {
-		// hit this node,
-		base.nType |= NTData
+		// hit this node. It might be a pure branch split out by the
+		// longer keys, so turn it to a leaf or its data is unreachable.
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From 45c1a25810821fdc76c055bda5976199824197d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:32 +0000
Subject: [PATCH 02/51] fix: Has, Remove and SetTTL must not match a path
 ending inside a key piece

---
 radix/trie.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..b98a821 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -214,7 +214,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := s.matched(node, partialMatched)
 	state = -1
 	if found {
 		state = 0
@@ -496,7 +496,7 @@ func (s *trieS[T]) Search(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = s.matched(node, partialMatched)
 	return
 }
 
@@ -514,6 +514,16 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	return
 }
 
+// matched checks if a search result is a whole key path: a leaf, or a
+// branch which ends with the delimiter. An inner node split at the middle
+// of a key piece (such as 'app.d' for 'app.debug' and 'app.dump') isn't.
+func (s *trieS[T]) matched(node *nodeS[T], partialMatched bool) bool {
+	if node == nil || partialMatched {
+		return false
+	}
+	return node == s.root || !node.isBranch() || node.endsWith(s.delimiter)
+}
+
 func safeIsBranch[T any](node *nodeS[T]) bool { return node != nil && node.isBranch() }
 
 // Has tests of a path exists.
@@ -536,7 +546,7 @@ func (s *trieS[T]) Has(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = s.matched(node, partialMatched)
 	return
 }
 
@@ -570,7 +580,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := s.matched(node, partialMatched)
 	if found {
 		if parent != nil {
 			removed = parent.remove(node)
-- 
2.43.0


From fb329d1fdd056d79ed29fce4e9c00eacd26c5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:40 +0000
Subject: [PATCH 03/51] fix: SetComment and SetTag must not touch another key
 on a partial match

---
 radix/trie.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index b98a821..4082d06 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -452,8 +452,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = s.matched(node, partialMatched); ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -466,8 +466,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = s.matched(node, partialMatched); ok {
 		node.tag = tag
 	}
 	return
-- 
2.43.0


From 35ea547ca7397a04b0d94d1dce3997d87d9607ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:13 +0000
Subject: [PATCH 04/51] fix: removing a key must not drop the keys which only
 share its leading chars

---
 radix/node.go | 32 ++++++++++++++++++++++++++++++++
 radix/trie.go |  2 +-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 1441b85..fe13233 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -194,6 +194,38 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// detach replaces a child with a pure branch which keeps those nodes just
+// sharing the leading chars with the child. For example, detaching 'log'
+// shall not drop 'logging'.
+//
+// It does nothing and returns false if there are no such nodes.
+func (s *nodeS[T]) detach(item *nodeS[T], delimiter rune) (detached bool) {
+	if item.endsWith(delimiter) {
+		return
+	}
+
+	var mine, others []*nodeS[T]
+	for _, c := range item.children {
+		if c.StartsWith(delimiter) {
+			mine = append(mine, c)
+		} else {
+			others = append(others, c)
+		}
+	}
+	if len(others) == 0 {
+		return
+	}
+
+	for i, c := range s.children {
+		if c == item {
+			s.children[i] = &nodeS[T]{path: item.path, pathS: item.pathS, children: others, nType: NTBranch}
+			item.children, detached = mine, true
+			break
+		}
+	}
+	return
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
diff --git a/radix/trie.go b/radix/trie.go
index 4082d06..1361ec0 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -583,7 +583,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	found := s.matched(node, partialMatched)
 	if found {
 		if parent != nil {
-			removed = parent.remove(node)
+			removed = parent.detach(node, s.delimiter) || parent.remove(node)
 			if removed {
 				nodeRemoved, nodeParent = node, parent
 			}
-- 
2.43.0


From b1757ffa0221b2c4be9de932d34f2cca8201576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:43 +0000
Subject: [PATCH 05/51] fix: keep a node (and its TTL) bound to its key while
 it is being split

---
 radix/node.go | 63 +++++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index fe13233..ac943ec 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -249,12 +249,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		cpl = base.findCommonPrefixLength(word)
 	}
 
-	if cpl < ourLen {
-		// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
-		base.split(cpl, word) // split this as 'app' and 'Z'/'le'
-		// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
-	}
-
 	if cpl < wordLen {
 		// eg: insert 'apple' into 'app'
 		if cpl > 0 {
@@ -262,6 +256,11 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 		matched, child := base.matchChildren(word)
 		if matched {
+			if pos := child.findCommonPrefixLength(word); pos < len(child.path) {
+				// eg: insert 'apple' into 'appZ', or insert 'appZ' into 'apple'
+				child = base.split(child, pos, word) // split child as 'app' and 'Z'/'le'
+				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
+			}
 			var n Node[T]
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
@@ -288,41 +287,31 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	return
 }
 
-func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
-	tip("[store/radix] split original path %q by word %q at pos %d", string(s.path), string(word), pos)
-
-	// origPath, origPathS := s.path, s.pathS
-	// if assertEnabled {
-	// 	defer func() {
-	// 		origPath, origPathS = []rune(origPathS), string(origPath)
-	// 	}()
-	// }
-
-	d := len(s.path) - pos
-	_ = word
+// split splits a child at pos, and returns the new branch node which owns
+// the leading part of the path.
+//
+// The child itself keeps the rest part and all of its fields, so that those
+// who hold it (a TTL job, or the user) are still on the same key.
+func (s *nodeS[T]) split(child *nodeS[T], pos int, word []rune) (newNode *nodeS[T]) {
+	tip("[store/radix] split original path %q by word %q at pos %d", string(child.path), string(word), pos)
 
 	newNode = &nodeS[T]{
-		path:        s.path[pos:],
-		pathS:       s.pathS, // [pos:], // s.pathS[len(s.pathS)-d:],
-		children:    s.children,
-		data:        s.data,
-		description: s.description,
-		comment:     s.comment,
-		tag:         s.tag,
-		nType:       s.nType,
+		path:     child.path[:pos],
+		pathS:    strings.TrimSuffix(child.pathS, string(child.path[pos:])),
+		children: []*nodeS[T]{child},
+		nType:    NTBranch,
 	}
-	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
+	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS(%q) should end with path(%q)", newNode.pathS, string(newNode.path))
+
+	child.path = child.path[pos:]
+	assert(strings.HasSuffix(child.pathS, string(child.path)), "child: pathS should end with path")
 
-	s.path = s.path[:pos]
-	s.pathS = s.pathS[:len(s.pathS)-d] // s.pathS[:pos] //
-	s.children = []*nodeS[T]{newNode}
-	s.nType = NTBranch
-	s.description = ""
-	s.comment = ""
-	s.tag = nil
-	var t T
-	s.data = t
-	assert(strings.HasSuffix(s.pathS, string(s.path)), "parentNode: pathS(%q) should end with path(%q)", s.pathS, string(s.path))
+	for i, c := range s.children {
+		if c == child {
+			s.children[i] = newNode
+			break
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 4758f32fbf3f8948acf98f8da73872a08e4dc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:51 +0000
Subject: [PATCH 06/51] fix: a branch TTL set via a prefixed view must drop
 that branch

---
 radix/trie.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 1361ec0..056b0e8 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -157,7 +157,7 @@ func (s *TTL[T]) run() {
 						job.action(s, job.node)
 					}
 					if job.node.isBranch() {
-						s.treevec[0].Remove(job.node.pathS)
+						s.treevec[0].drop(job.node)
 					} else {
 						job.node.SetEmpty()
 					}
@@ -594,6 +594,15 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	return
 }
 
+// drop removes a branch node from the tree, if it is still there. The
+// current prefix setting is ignored since node.pathS is a full path.
+func (s *trieS[T]) drop(node *nodeS[T]) (removed bool) {
+	if found, parent, partialMatched := s.search(node.pathS, nil); found == node && parent != nil && !partialMatched {
+		removed = parent.remove(node)
+	}
+	return
+}
+
 // MustGet is a simple Get without a checked found state.
 //
 // If nothing is found, zero data returned.
-- 
2.43.0


From ac1ab1485ce6532c551ea23df3c1333390828fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:59 +0000
Subject: [PATCH 07/51] fix: don't run a TTL service for each view, and don't
 bind a copy's one to the original tree

---
 radix/trie.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 056b0e8..3722cfa 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -111,18 +111,6 @@ func newttls[T any](t *trieS[T]) *TTL[T] {
 	return s
 }
 
-func (s *TTL[T]) dupS() *TTL[T] {
-	ctx, cancel := context.WithCancel(context.Background())
-	n := &TTL[T]{
-		treevec: []*trieS[T]{s.treevec[0]},
-		cancel:  cancel,
-		done:    ctx.Done(),
-		adder:   make(chan ttljobS[T]),
-	}
-	go n.run()
-	return n
-}
-
 func (s *TTL[T]) Close() {
 	s.cancel()
 }
@@ -248,10 +236,8 @@ func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //n
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
 	}
-	if s.ttlpresent.Load() > 0 {
-		newTrie.ttls = s.ttls.dupS()
-		newTrie.ttlpresent.Add(1)
-	}
+	// the TTL service is bound to its tree, so the new trie makes its own
+	// one when SetTTL is called on it.
 	return
 }
 
-- 
2.43.0


From e4106793153518df441414260fd5e0a5f17cedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:38 +0000
Subject: [PATCH 08/51] fix: SetTTL must not hang, and a TTL must not ring,
 once the TTL service was closed

---
 radix/trie.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/radix/trie.go b/radix/trie.go
index 3722cfa..932dc16 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -121,7 +121,10 @@ func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T
 	if nd.rw == nil {
 		nd.rw = &sync.RWMutex{}
 	}
-	s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}
+	select {
+	case s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}:
+	case <-s.done: // closed, nobody can accept the job
+	}
 }
 
 func (s *TTL[T]) run() {
@@ -141,6 +144,11 @@ func (s *TTL[T]) run() {
 			for {
 				select {
 				case <-timer.C:
+					select {
+					case <-s.done: // both are ready, don't ring after closed
+						return
+					default:
+					}
 					if job.action != nil {
 						job.action(s, job.node)
 					}
-- 
2.43.0


From 352c624ac2de5a5fd55694f640268338511e1f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:03 +0000
Subject: [PATCH 09/51] fix: races between SetTTL, Close, Set, Dump and a
 ringing TTL

---
 radix/node.go | 30 ++++++++++++------------------
 radix/trie.go | 35 ++++++++++++++++++-----------------
 2 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index ac943ec..4923dd7 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -29,7 +29,7 @@ type nodeS[T any] struct {
 	comment     string
 	tag         any
 	nType       nodeType
-	rw          *sync.RWMutex
+	rw          sync.RWMutex
 }
 
 var _ Node[any] = (*nodeS[any])(nil) // assertion helper
@@ -51,23 +51,15 @@ func (s *nodeS[T]) HasData() bool       { return s.nType&NTData != 0 }        //
 func (s *nodeS[T]) Empty() bool         { return s.nType&NTData == 0 }        //nolint:revive //data field is empty?
 
 func (s *nodeS[T]) readLockFor(cb func(*nodeS[T])) { //nolint:revive
-	if s.rw != nil {
-		s.rw.RLock()
-		cb(s)
-		s.rw.RUnlock()
-	} else {
-		cb(s)
-	}
+	s.rw.RLock()
+	defer s.rw.RUnlock()
+	cb(s)
 }
 
 func (s *nodeS[T]) lockFor(cb func(*nodeS[T])) { //nolint:revive
-	if s.rw != nil {
-		s.rw.Lock()
-		cb(s)
-		s.rw.Unlock()
-	} else {
-		cb(s)
-	}
+	s.rw.Lock()
+	defer s.rw.Unlock()
+	cb(s)
 }
 
 // SetModified sets the modified state to true or false.
@@ -278,8 +270,10 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	} else {
 		// hit this node. It might be a pure branch split out by the
 		// longer keys, so turn it to a leaf or its data is unreachable.
-		base.nType |= NTLeaf | NTData
-		node, oldData, base.data = base, base.data, data
+		base.lockFor(func(*nodeS[T]) {
+			base.nType |= NTLeaf | NTData
+			node, oldData, base.data = base, base.data, data
+		})
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
 		}
@@ -546,7 +540,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 				_, _ = sb.WriteString(" ")
 				_, _ = sb.WriteString(s.pathS)
 				_, _ = sb.WriteString(" => ")
-				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.Data())))
+				_, _ = sb.WriteString(ColorToDim(fmt.Sprint(s.data)))
 			}
 
 			if s.comment != "" {
diff --git a/radix/trie.go b/radix/trie.go
index 932dc16..19303eb 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -7,7 +7,6 @@ import (
 	"strconv"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"gopkg.in/hedzr/errors.v3"
@@ -35,7 +34,7 @@ type trieS[T any] struct {
 	root          *nodeS[T]
 	prefix        string
 	delimiter     rune
-	ttlpresent    atomic.Uint32
+	ttlmu         sync.Mutex // protects ttls
 	ttls          *TTL[T]
 	recursiveMode RecusiveMode
 }
@@ -118,9 +117,6 @@ func (s *TTL[T]) Close() {
 func (s *TTL[T]) Tree() Trie[T] { return s.treevec[0] }
 
 func (s *TTL[T]) Add(nd *nodeS[T], duration time.Duration, action OnTTLRinging[T]) {
-	if nd.rw == nil {
-		nd.rw = &sync.RWMutex{}
-	}
 	select {
 	case s.adder <- ttljobS[T]{node: nd, duration: duration, action: action}:
 	case <-s.done: // closed, nobody can accept the job
@@ -176,13 +172,24 @@ func (s *TTL[T]) run() {
 }
 
 func (s *trieS[T]) Close() {
-	if s.ttlpresent.CompareAndSwap(1, 0) {
-		if s.ttls != nil {
-			s.ttls.Close()
-		}
+	s.ttlmu.Lock()
+	defer s.ttlmu.Unlock()
+	if s.ttls != nil {
+		s.ttls.Close()
+		s.ttls = nil
 	}
 }
 
+// openTTL returns the TTL service, and starts it at the first time.
+func (s *trieS[T]) openTTL() *TTL[T] {
+	s.ttlmu.Lock()
+	defer s.ttlmu.Unlock()
+	if s.ttls == nil {
+		s.ttls = newttls(s)
+	}
+	return s.ttls
+}
+
 // SetTTL sets a ttl timeout for a branch or a leaf node.
 //
 // At ttl arrived, the leaf node value will be cleared.
@@ -214,20 +221,14 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	state = -1
 	if found {
 		state = 0
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
-		s.ttls.Add(node, ttl, cb)
+		s.openTTL().Add(node, ttl, cb)
 	}
 	return
 }
 
 func (s *trieS[T]) SetTTLFast(node Node[T], ttl time.Duration, cb OnTTLRinging[T]) (state int) {
 	if nd, ok := node.(*nodeS[T]); ok {
-		if s.ttlpresent.CompareAndSwap(0, 1) {
-			s.ttls = newttls(s)
-		}
-		s.ttls.Add(nd, ttl, cb)
+		s.openTTL().Add(nd, ttl, cb)
 	} else {
 		state = -1
 	}
-- 
2.43.0


From 83ff3b4ca5867268c5b84657ad4bcb83d15f2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:10 +0000
Subject: [PATCH 10/51] fix: Store.Close must stop the pending TTLs, and close
 each watcher only once

---
 store.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..5de8923 100644
--- a/store.go
+++ b/store.go
@@ -218,9 +218,14 @@ func (s *storeS) join(args ...string) (ret string) {
 // Close cleanup the internal resources.
 // See [basics.Peripheral] for more information.
 func (s *storeS) Close() {
-	for _, c := range s.closers {
+	closers := s.closers
+	s.closers = nil
+	for _, c := range closers {
 		c.Close()
 	}
+	if c, ok := s.Trie.(Peripheral); ok {
+		c.Close() // shutdown the TTL service
+	}
 }
 
 // MustGet is a shortcut to Get without error returning.
-- 
2.43.0


From 98cbf63b50d304ed7f3c1f2df3e80e9ed96ced5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:47 +0000
Subject: [PATCH 11/51] fix: SetEx must call its callback exactly once

---
 radix/node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 4923dd7..bbbd7cb 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -231,6 +231,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
 			node = base.insertAsLeaf(word, fullPath, data)
+			if cb != nil {
+				cb(fullPath, nil, node, trie)
+			}
 			return
 		}
 	}
@@ -257,9 +260,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
 				node = nn
-				if cb != nil {
-					cb(fullPath, oldData, node, trie)
-				}
 			}
 		} else {
 			node = base.insertAsLeaf(word, fullPath, data)
-- 
2.43.0


From b8baab0f17443237a4a1e0f97baf68e83b3fea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:07 +0000
Subject: [PATCH 12/51] fix: GetM on a prefixed store must return the keys
 under that prefix

---
 radix/cvter.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..ab44562 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -420,11 +420,14 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
+		prefix := ""
+		if s.prefix != "" {
+			prefix = s.prefix + string(s.delimiter)
 		}
 		s.root.Walk(func(path, fragment string, node Node[T]) {
+			if !strings.HasPrefix(path, prefix) {
+				return // not in the scope of this prefixed view
+			}
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
@@ -433,8 +436,8 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 				}
 				if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else {
+					ret[path[len(prefix):]] = node.Data()
 				}
 			}
 		})
-- 
2.43.0


From ae115e46e4839354da364bfe2bac6b6287042ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:40 +0000
Subject: [PATCH 13/51] fix: GetM on a nested path must keep the hierarchy of
 the subtree

---
 radix/cvter.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index ab44562..2754b56 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -454,15 +454,15 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
+		delimiter := string(s.delimiter)
+		full := strings.TrimSuffix(s.Join(s.prefix, path), delimiter)
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
+				rel := strings.TrimPrefix(path, full)
+				if found && !branch && rel != "" && !strings.HasPrefix(rel, delimiter) {
+					return // shares the leading chars only, such as 'logging' for 'log'
+				}
 				logz.Verbose("  - put into map", "path", path, "fragment", fragment)
 				if putter.filterFn != nil {
 					if !putter.filterFn(node) {
@@ -470,11 +470,11 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 					}
 				}
 				if putter.keepPrefix {
-					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
+					putter.put(ret, path, delimiter, node.Data())
+				} else if rel == "" {
+					putter.put(ret, fragment, delimiter, node.Data())
+				} else {
+					putter.putKeys(ret, strings.Split(strings.TrimPrefix(rel, delimiter), delimiter), node.Data())
 				}
 			}
 		})
-- 
2.43.0


From 3c53b26e3dcecd8855a8a4a34ab5754ea4579a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:47 +0000
Subject: [PATCH 14/51] fix: Merge must put the map under the prefix and the
 given path

---
 radix/load.go | 6 +-----
 store.go      | 2 +-
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..791eaf0 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
diff --git a/store.go b/store.go
index 5de8923..d55210f 100644
--- a/store.go
+++ b/store.go
@@ -303,7 +303,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 91ff0f21f1cdf184412eb3241e57f0a9e4c3440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:54 +0000
Subject: [PATCH 15/51] fix: Dup must copy the description, comment and tag of
 a node

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index bbbd7cb..1d02576 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -574,9 +574,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		nType:       s.nType,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From 43410776d1ab0fcf8758da8dd7212b7dfe203fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 16/51] fix: a view made while loading must not stay in the
 loading state forever

---
 load.go  | 10 ++++++++--
 store.go | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/load.go b/load.go
index e7afe7e..d6f6d5f 100644
--- a/load.go
+++ b/load.go
@@ -16,7 +16,14 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
-func (s *storeS) inLoading() bool { return atomic.LoadInt32(&s.loading) == 1 }
+func (s *storeS) inLoading() bool {
+	for ptr := s; ptr != nil; ptr = ptr.parent {
+		if atomic.LoadInt32(&ptr.loading) == 1 {
+			return true
+		}
+	}
+	return false
+}
 
 // WithinLoading is a helper to 'load' a 'fn'. The 'fn' will be
 // run as is, and the internal flag 's.loading' will be set at
@@ -177,7 +184,6 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	defer func() { atomic.StoreInt32(&set.loading, 0) }()
 	set.setKV(k, v, creating, onSet)
 }
 
diff --git a/store.go b/store.go
index d55210f..62cf342 100644
--- a/store.go
+++ b/store.go
@@ -140,12 +140,19 @@ func (s *storeS) dupS(trie radix.Trie[any]) (newStore *storeS) {
 		Trie:         trie,
 		flattenSlice: s.flattenSlice,
 		allowWatch:   s.allowWatch,
-		loading:      s.loading,
 		// don't dup the member 'parent' here
 	}
 	return
 }
 
+// viewS makes a new `*storeS` instance on the same tree. The loading
+// state of a view always follows its parent.
+func (s *storeS) viewS(trie radix.Trie[any]) (newStore *storeS) {
+	newStore = s.dupS(trie)
+	newStore.parent = s
+	return
+}
+
 //
 
 //
@@ -466,7 +473,7 @@ func (s *storeS) Dup() (newStore Store) {
 // A [Delimiter] will be inserted at jointing prefix and key. Also at
 // jointing old and new prefix.
 func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefix(prefix...))
+	return s.viewS(s.Trie.WithPrefix(prefix...))
 }
 
 // WithPrefixReplaced is similar with WithPrefix, but it replaces
@@ -479,7 +486,7 @@ func (s *storeS) WithPrefix(prefix ...string) (newStore Store) {
 //
 // A [Delimiter] will be inserted at jointing prefix and key.
 func (s *storeS) WithPrefixReplaced(newPrefix ...string) (newStore Store) {
-	return s.dupS(s.Trie.WithPrefixReplaced(newPrefix...))
+	return s.viewS(s.Trie.WithPrefixReplaced(newPrefix...))
 }
 
 // SetPrefix updates the prefix in current storeS.
@@ -487,9 +494,9 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 	s.Trie.SetPrefix(newPrefix...)
 }
 
-func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
-func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
-func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
+func (s *storeS) N() (newStore Store)               { return s.viewS(s.Trie.N()) }
+func (s *storeS) R() (newStore Store)               { return s.viewS(s.Trie.R()) }
+func (s *storeS) BR() (newStore Store)              { return s.viewS(s.Trie.BR()) }
 func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
-- 
2.43.0


From 6bed6fbf10d80959abfd4197ab5344e71d177f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:37 +0000
Subject: [PATCH 17/51] fix: notify the handlers for Load, Merge and views, and
 load the metadata of a ValPkg

The handlers were never called for the keys set by a loader, by Merge or
via a view, and the flag mergingMapOrLoading was inverted. The Desc,
Comment and Tag of a ValPkg were dropped while loading.
---
 load.go  | 12 ++++++++----
 store.go | 57 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/load.go b/load.go
index d6f6d5f..a77f2b9 100644
--- a/load.go
+++ b/load.go
@@ -156,8 +156,12 @@ func (s *storeS) loadMapDedicated(m map[string]ValPkg, position string, creating
 	defer ec.Defer(&err)
 	for k, v := range m {
 		s.loadMapByValueType(ec, position, k, v.Value, creating, func(node radix.Node[any]) {
-			node.SetComment(v.Desc, v.Comment)
-			node.SetTag(v.Tag)
+			if v.Desc != "" || v.Comment != "" {
+				node.SetComment(v.Desc, v.Comment)
+			}
+			if v.Tag != nil {
+				node.SetTag(v.Tag)
+			}
 		})
 	}
 	return
@@ -184,7 +188,7 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	set.setKV(k, v, creating, onSet)
+	set.setKV(k, v, true, onSet)
 }
 
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
@@ -338,7 +342,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.setKV(key, val, hasCreate, nil)
+			s.setKV(key, val, false, nil)
 			logz.Debug("created/wrote: ", key, s.MustGet(key), "event", ev.Op())
 		}
 	} else if ev.Has(OpRemove) {
diff --git a/store.go b/store.go
index 62cf342..b329ccc 100644
--- a/store.go
+++ b/store.go
@@ -256,17 +256,7 @@ func (s *storeS) Get(path string) (data any, found bool) {
 
 // Set sets key('path') and value pair into storeS.
 func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any) {
-	old, branch, found, err := s.Trie.Query(path, nil)
-	if !found {
-		if err != nil || !branch {
-			old = nil
-		}
-	}
-	if old != nil {
-		oldData = old
-	}
-
-	node, oldData = s.setKV(path, data, !found, nil)
+	node, oldData = s.setKV(path, data, false, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
@@ -338,33 +328,43 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // 	return
 // }
 
-func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+// setKV sets a key and notifies the handlers. The arg 'merging' means
+// that the key comes from a map (by Merge, or by a loader).
+func (s *storeS) setKV(path string, data any, merging bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+	_, branch, found, _ := s.Trie.Query(path, nil)
+	createOrModify := !found || branch // creating a new key, or modifying an existing one
 	node, oldData = s.Trie.Set(path, data)
 	loading := s.inLoading()
-	user := !loading
-	if user {
-		if oldData != nil {
-			createOrModify = false // set it to is-modifying instead of is-creating
+	if node != nil {
+		if onSet != nil {
+			onSet(node)
 		}
-		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
+		if !loading {
 			node.SetModified(true)
 		}
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	s.tryOnSet(path, merging || loading, oldData, data, createOrModify)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
+// eventPath returns the path reported to the handlers. For a view, it is
+// the full path since these handlers were registered on its owner.
+func (s *storeS) eventPath(path string) string {
+	if s.parent == nil {
+		return path
+	}
+	return s.join(s.Prefix(), path)
+}
+
+func (s *storeS) tryOnSet(path string, mergingMapOrLoading bool, oldData, data any, createOrModify bool) {
 	ptr := s
+	path = s.eventPath(path)
 
 	if createOrModify {
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, mergingMapOrLoading)
 			}
 		}
 		if ptr.parent != nil {
@@ -377,7 +377,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -386,13 +386,14 @@ retryPM:
 	}
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
+func (s *storeS) tryOnDelete(path string, mergingMapOrLoading bool, oldData any, node, np radix.Node[any]) {
 	ptr := s
+	path = s.eventPath(path)
 	_, _ = node, np
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, mergingMapOrLoading)
 		}
 	}
 	if ptr.parent != nil {
@@ -407,7 +408,7 @@ func (s *storeS) Remove(path string) (removed bool) {
 	if removed {
 		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, loading, data, rmn, np)
 	}
 	return
 }
@@ -417,7 +418,7 @@ func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any],
 	if removed {
 		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
 }
-- 
2.43.0


From 22ae5148c8191547255e33a60a06f57a8fc7b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:45 +0000
Subject: [PATCH 18/51] fix: Close must close the watchers of the loaders with
 a store prefix

---
 load.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/load.go b/load.go
index a77f2b9..1c39c40 100644
--- a/load.go
+++ b/load.go
@@ -131,7 +131,7 @@ func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err e
 		if ok {
 			wr = loader
 			if !loader.noWatch {
-				loader.startWatch(ctx, loader)
+				s.startWatch(ctx, loader)
 			}
 		}
 	}
@@ -312,7 +312,7 @@ func (s *storeS) startWatch(ctx context.Context, loader *Loader) {
 		return
 	}
 	if w, ok := loader.provider.(Watchable); ok {
-		if err := w.Watch(ctx, s.applyExternalChanges); err != nil {
+		if err := w.Watch(ctx, loader.applyExternalChanges); err != nil {
 			logz.Error("[Watcher.StartWatch.ERROR]", "err", err)
 		} else {
 			s.closers = append(s.closers, w)
-- 
2.43.0


From fcd6412f4f46c9e5f01e438b642f78139054de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:53 +0000
Subject: [PATCH 19/51] fix: loading from a StreamProvider always failed

---
 load.go                  | 12 ++++++++----
 providers/env/env.go     |  2 +-
 providers/flags/flags.go |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/load.go b/load.go
index 1c39c40..a6357ca 100644
--- a/load.go
+++ b/load.go
@@ -525,11 +525,13 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 
 	if errors.Is(err, ErrNotImplemented) {
 		// the 2nd is OnceProvider and/or StreamProvider
-		switch fp := s.provider.(type) {
-		case OnceProvider:
+		if fp, ok := s.provider.(OnceProvider); ok {
 			b, err = fp.ReadBytes()
-		case StreamProvider:
-			err = nil
+		}
+		if fp, ok := s.provider.(StreamProvider); ok && errors.Is(err, ErrNotImplemented) {
+			if _, err = fp.Keys(); err != nil {
+				return
+			}
 			for {
 				k, eol := fp.Next()
 				if eol {
@@ -537,6 +539,8 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 				}
 				s.setKV(k, fp.MustValue(k), true, nil)
 			}
+			data = make(map[string]ValPkg) // all keys have been put, nothing to decode
+			return
 		}
 	}
 	if err != nil {
diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..82768fc 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..45215b8 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From 34b5218ad6001a681ff106ed237bfaea40f33e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:22 +0000
Subject: [PATCH 20/51] fix: gob codec lost the encoded bytes and couldn't be
 reused

---
 codecs/gob/gob.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..1a7fc57 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var buf bytes.Buffer
+	if err = gob.NewEncoder(&buf).Encode(m); err == nil {
+		data = buf.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
-- 
2.43.0


From 16bcac7723eaf0033d2492a211c1d1b031d90aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:29 +0000
Subject: [PATCH 21/51] fix: Store.RecursiveMode recursed endlessly

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index b329ccc..7dbd5c0 100644
--- a/store.go
+++ b/store.go
@@ -498,7 +498,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.viewS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.viewS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.viewS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From 5c5c1c0892a1b79be73dcfdd47838cb0bb96f735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:01 +0000
Subject: [PATCH 22/51] fix: etcd watching lost the changes made right after
 Read, and spun on a closed channel

---
 providers/etcd/etcd.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index bf1e380..f77d23f 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -34,6 +34,7 @@ type pvdr struct {
 	limit                      bool
 	maxLimit                   int64
 	processMeta                bool
+	revision                   int64 // the revision of the latest Read, 0 for nothing
 }
 
 func WithCodec(codec store.Codec) Opt {
@@ -190,6 +191,10 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		}
 	}
 
+	if resp.Header != nil {
+		s.revision = resp.Header.Revision
+	}
+
 	data = make(map[string]store.ValPkg, len(resp.Kvs))
 	for _, r := range resp.Kvs {
 		data[s.NormalizeKey(string(r.Key))] = store.ValPkg{
@@ -233,18 +238,30 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) error {
 	var w clientv3.WatchChan
 	var lastChange = changeS{provider: s}
 
+	var opts []clientv3.OpOption
+	if s.prefixOrKey {
+		opts = append(opts, clientv3.WithPrefix())
+	}
+	if s.revision > 0 {
+		// don't miss the changes made after Read
+		opts = append(opts, clientv3.WithRev(s.revision+1))
+	}
+
 	go func() {
-		if s.prefixOrKey {
-			w = s.Client.Watch(context.Background(), s.storePrefix, clientv3.WithPrefix())
-		} else {
-			w = s.Client.Watch(context.Background(), s.storePrefix)
-		}
+		w = s.Client.Watch(ctx, s.storePrefix, opts...)
 
 		for {
 			select {
 			case <-ctx.Done():
 				return
-			case wresp := <-w:
+			case wresp, ok := <-w:
+				if !ok {
+					return // the client or the watcher was closed
+				}
+				if err := wresp.Err(); err != nil {
+					cb(nil, err)
+					continue
+				}
 				for _, ev := range wresp.Events {
 					lastChange.Set(ev)
 					cb(&lastChange, nil)
-- 
2.43.0


From 0b05a291f029ce9b44e9aad0288feb84de93601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:40 +0000
Subject: [PATCH 23/51] fix: consul watching lost the merged and the removed
 changes

A watching result is a full snapshot which may hold more than one change,
but only the pairs of the latest action index had been applied, and the
value type was different with the loaded one.
---
 providers/consul/change.go | 105 ++++++++++---------------------------
 providers/consul/consul.go |  26 ++++++++-
 2 files changed, 51 insertions(+), 80 deletions(-)

diff --git a/providers/consul/change.go b/providers/consul/change.go
index 9b2e5c0..5857fac 100644
--- a/providers/consul/change.go
+++ b/providers/consul/change.go
@@ -1,6 +1,7 @@
 package consul
 
 import (
+	"bytes"
 	"time"
 
 	"github.com/hashicorp/consul/api"
@@ -31,94 +32,42 @@ func (s *changeS) Has(op store.Op) bool     { return uint64(s.lastOp)&uint64(op)
 func (s *changeS) Timestamp() time.Time     { return s.lastEventTime }
 func (s *changeS) Provider() store.Provider { return s.provider }
 func (s *changeS) Next() (key string, val any, ok bool) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, yes := s.val.(api.KVPairs); yes {
-		RetryNextPair:
-			if s.idx < len(pairs) {
-				kvp := pairs[s.idx]
-				if s.lastOp == store.OpRemove || s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				} else {
-					s.idx++
-					goto RetryNextPair
-				}
-				s.idx++
-			}
-		}
-	} else {
-		if kvp, yes := s.val.(*api.KVPair); yes {
-			if s.idx == 0 {
-				if s.checkOpIndex(kvp) {
-					key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), kvp.Value, true
-				}
-				s.idx++
-			}
-		}
+	if pairs, yes := s.val.(api.KVPairs); yes && s.idx < len(pairs) {
+		kvp := pairs[s.idx]
+		key, val, ok = s.provider.(*pvdr).NormalizeKey(kvp.Key), string(kvp.Value), true
+		s.idx++
 	}
 	return
 }
 
-func (s *changeS) Set(val any, idx uint64) (df func()) {
+// set prepares an event for the given pairs.
+func (s *changeS) set(op store.Op, pairs api.KVPairs, idx uint64) {
 	s.lastEventTime = time.Now()
+	s.lastOp, s.val = op, pairs
 	s.index, s.idx = idx, 0
-	df = s.findOpIndex(idx, val)
-	if df == nil {
-		df = func() {}
-	}
-	return
 }
 
-func (s *changeS) findOpIndex(idx uint64, val any) (df func()) {
-	if s.provider.(*pvdr).recursive {
-		if pairs, ok := val.(api.KVPairs); ok {
-			for ix := 0; ix < len(pairs); ix++ {
-				kvp := pairs[ix]
-				if s.checkOpIndex(kvp) {
-					s.val = val
-					return
-				}
-			}
-
-			s.lastOp = store.OpRemove
-			df = func() { s.val = val }
-			var removed api.KVPairs
-			if s.val != nil {
-				for _, p := range s.val.(api.KVPairs) {
-					var found bool
-					for _, q := range pairs {
-						if p.Key == q.Key {
-							found = true
-							break
-						}
-					}
-					if !found {
-						removed = append(removed, p)
-					}
-				}
-			}
-			s.val = removed
+// diff compares two snapshots.
+//
+// A watching result is always a full snapshot, and a few of changes can
+// be merged into one. So we can't find them out by the action index.
+func diff(last, pairs api.KVPairs) (created, modified, removed api.KVPairs) {
+	old := make(map[string]*api.KVPair, len(last))
+	for _, p := range last {
+		old[p.Key] = p
+	}
+	for _, q := range pairs {
+		if p, ok := old[q.Key]; !ok {
+			created = append(created, q)
+		} else if p.ModifyIndex != q.ModifyIndex || p.CreateIndex != q.CreateIndex || !bytes.Equal(p.Value, q.Value) {
+			modified = append(modified, q)
 		}
-	} else {
-		if kvp, ok := val.(*api.KVPair); ok {
-			if !s.checkOpIndex(kvp) {
-				s.lastOp = store.OpRemove
-				df = func() { s.val = val }
-				return
-			}
-			s.val = val
-			return
+		delete(old, q.Key)
+	}
+	for _, p := range last {
+		if _, ok := old[p.Key]; ok {
+			removed = append(removed, p)
 		}
 	}
 	return
 }
-
-func (s *changeS) checkOpIndex(pair *api.KVPair) bool {
-	if pair.CreateIndex == s.index {
-		s.lastOp = store.OpCreate
-		return true
-	} else if pair.ModifyIndex == s.index {
-		s.lastOp = store.OpWrite
-		return true
-	}
-	return false
-}
diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 05f43c5..89340b8 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -38,6 +38,7 @@ type pvdr struct {
 	delimiter                  string // replace consul slash '/' with delimiter
 
 	plan *watch.Plan
+	last api.KVPairs // the last snapshot, by Read or watching
 
 	// onUpdated OnUpdated
 }
@@ -161,6 +162,7 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 		if err != nil {
 			return
 		}
+		s.last = pairs
 
 		// Detailed information can be obtained via hedzr/store.GetString(key), which key are:
 		//
@@ -208,6 +210,10 @@ func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
 	if err != nil {
 		return
 	}
+	if s.last = nil; pair == nil {
+		return // the key does not exist
+	}
+	s.last = api.KVPairs{pair}
 
 	if s.processMeta {
 		m := make(map[string]any)
@@ -298,8 +304,24 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	s.plan = lastChange.plan
 	s.plan.Handler = func(idx uint64, val any) {
-		defer lastChange.Set(val, idx)()
-		cb(&lastChange, nil)
+		var pairs api.KVPairs
+		switch v := val.(type) {
+		case api.KVPairs:
+			pairs = v
+		case *api.KVPair:
+			pairs = api.KVPairs{v}
+		}
+		created, modified, removed := diff(s.last, pairs)
+		s.last = pairs
+		for _, it := range []struct {
+			op    store.Op
+			pairs api.KVPairs
+		}{{store.OpRemove, removed}, {store.OpCreate, created}, {store.OpWrite, modified}} {
+			if len(it.pairs) > 0 {
+				lastChange.set(it.op, it.pairs, idx)
+				cb(&lastChange, nil)
+			}
+		}
 	}
 	// s.plan.HybridHandler = func(bpv watch.BlockingParamVal, val interface{}) {
 	// 	lastChange.Set(val)
-- 
2.43.0


From 1e4662e3e0ecbd09c82fa6c37837590fe90da295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:45 +0000
Subject: [PATCH 24/51] fix: consul watching ignored the given client config

---
 providers/consul/consul.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 89340b8..47e74ce 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -334,7 +334,7 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		// no need to try to shutdown from ctx triggering. because the
 		// plan will be stopped while consul Client.Close() called.
 
-		err = s.plan.Run(s.config.Address)
+		err := s.plan.RunWithClientAndHclog(s.Client, nil)
 		if err != nil {
 			slog.Error("consul watching plan has error", "err", err)
 			return
-- 
2.43.0


From 4ebc6e36be46e06227ccba01c767cfc301f5b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 25/51] fix: file watching leaked its goroutine and watcher
 after Close or cancellation

---
 providers/file/file.go | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index d77c43e..20f63c7 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -55,6 +56,9 @@ type pvdr struct {
 	watching     int32
 	codec        store.Codec
 	prefix       string
+
+	mu      sync.Mutex
+	watcher *fsnotify.Watcher
 }
 
 func (s *pvdr) String() string { return s.file }
@@ -117,7 +121,13 @@ func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.prefix = prefix }
 
 func (s *pvdr) Close() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	atomic.CompareAndSwapInt32(&s.watching, 1, 0)
+	if s.watcher != nil {
+		_ = s.watcher.Close() // wake up watchRunner
+		s.watcher = nil
+	}
 }
 
 func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err error) {
@@ -144,10 +154,20 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		return err
 	}
 
-	go s.watchRunner(ctx, cb, w, realPath)
-
 	// Watch the directory for changes.
-	return w.Add(fDir)
+	if err = w.Add(fDir); err != nil {
+		_ = w.Close()
+		return err
+	}
+
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
+		return w.Close() // it's watching already
+	}
+	s.watcher = w
+	go s.watchRunner(ctx, cb, w, realPath)
+	return nil
 }
 
 func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string) {
@@ -157,9 +177,7 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 		lastChange = changeS{provider: s}
 	)
 
-	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
-		return
-	}
+	defer w.Close()
 
 	var ok bool
 	var err error
@@ -172,7 +190,9 @@ loop:
 
 		case event, ok = <-w.Events:
 			if !ok {
-				cb(nil, errors.New("fsnotify watch channel closed"))
+				if atomic.LoadInt32(&s.watching) == 1 {
+					cb(nil, errors.New("fsnotify watch channel closed"))
+				}
 				break loop
 			}
 
@@ -219,7 +239,9 @@ loop:
 		// There's an error.
 		case err, ok = <-w.Errors:
 			if !ok {
-				cb(nil, errors.New("fsnotify err channel closed"))
+				if atomic.LoadInt32(&s.watching) == 1 {
+					cb(nil, errors.New("fsnotify err channel closed"))
+				}
 				break loop
 			}
 
@@ -228,6 +250,4 @@ loop:
 			break loop
 		}
 	}
-
-	w.Close()
 }
-- 
2.43.0


From 48ca6f72ffd715fbb2b39d572644d93fc52e4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:50 +0000
Subject: [PATCH 26/51] fix: SetNode ignored its tag

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index 19303eb..c547657 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -406,6 +406,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From 61c820aaa38dd38c6c789f10c1884eb77e9a2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:16 +0000
Subject: [PATCH 27/51] fix: branches expiring at the same time must not drop
 concurrently

---
 radix/trie.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index c547657..f51feca 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -593,9 +593,11 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 // drop removes a branch node from the tree, if it is still there. The
 // current prefix setting is ignored since node.pathS is a full path.
 func (s *trieS[T]) drop(node *nodeS[T]) (removed bool) {
-	if found, parent, partialMatched := s.search(node.pathS, nil); found == node && parent != nil && !partialMatched {
-		removed = parent.remove(node)
-	}
+	s.root.lockFor(func(*nodeS[T]) { // several TTLs may ring at the same time
+		if found, parent, partialMatched := s.search(node.pathS, nil); found == node && parent != nil && !partialMatched {
+			removed = parent.remove(node)
+		}
+	})
 	return
 }
 
-- 
2.43.0


From 93f1a6d51869443d4c3ebb90f0e16f114ce4e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:16 +0000
Subject: [PATCH 28/51] fix: an expiring branch hid its siblings from
 concurrent readers

---
 radix/node.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 1d02576..726ff07 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -179,7 +179,10 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	// remove a child
 	for i, c := range s.children {
 		if c == item {
-			removed, s.children = true, append(s.children[:i], s.children[i+1:]...)
+			// don't shift the items in place: a reader might be iterating them
+			children := make([]*nodeS[T], 0, len(s.children)-1)
+			children = append(children, s.children[:i]...)
+			removed, s.children = true, append(children, s.children[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From aee23d9db31bc87216bdf86997a82a6d3148fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:16 +0000
Subject: [PATCH 29/51] fix: reading a key while its branch expires returned
 another key's value

---
 radix/node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 726ff07..b338faf 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -466,7 +466,8 @@ masterLoop:
 		matched, child, parent = true, base, parentNode
 	}
 	if minL < wl {
-		if len(base.children) == 0 {
+		children := base.children // a TTL may drop a branch meanwhile
+		if len(children) == 0 {
 			matched, partialMatched = false, true
 			return
 		}
@@ -476,7 +477,7 @@ masterLoop:
 			dstMatchedL = minL
 		}
 		restPart := word[dstMatchedL:]
-		for _, child = range base.children {
+		for _, child = range children {
 			matched, partialMatched, child, parent = child.matchR(mctx, restPart, lastRuneIsDelimiter, s, kvpair)
 			if matched || partialMatched {
 				return
-- 
2.43.0


From 480157a07bfc5d63865a9ac0b2a31b5606fe883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:35 +0000
Subject: [PATCH 30/51] fix: closing a store twice at once, or while loading,
 lost a watcher

---
 load.go  | 2 ++
 store.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/load.go b/load.go
index a6357ca..822d307 100644
--- a/load.go
+++ b/load.go
@@ -315,7 +315,9 @@ func (s *storeS) startWatch(ctx context.Context, loader *Loader) {
 		if err := w.Watch(ctx, loader.applyExternalChanges); err != nil {
 			logz.Error("[Watcher.StartWatch.ERROR]", "err", err)
 		} else {
+			s.closersMu.Lock()
 			s.closers = append(s.closers, w)
+			s.closersMu.Unlock()
 		}
 	}
 }
diff --git a/store.go b/store.go
index 7dbd5c0..e74b689 100644
--- a/store.go
+++ b/store.go
@@ -97,6 +97,7 @@ type storeS struct {
 	loading          int32
 	saving           int32
 	closers          []Peripheral
+	closersMu        sync.Mutex // a TTL callback or any goroutine may Close
 	onChangeHandlers []OnChangeHandler
 	onNewHandlers    []OnNewHandler
 	OnDeleteHandlers []OnDeleteHandler
@@ -225,8 +226,10 @@ func (s *storeS) join(args ...string) (ret string) {
 // Close cleanup the internal resources.
 // See [basics.Peripheral] for more information.
 func (s *storeS) Close() {
+	s.closersMu.Lock()
 	closers := s.closers
 	s.closers = nil
+	s.closersMu.Unlock()
 	for _, c := range closers {
 		c.Close()
 	}
-- 
2.43.0


From fec3a0e8c8b29892d40b228373a5d787c44dd12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:32 +0000
Subject: [PATCH 31/51] fix: a user's write made while a Load reads its source
 must be marked as modified

---
 load.go  | 22 ++++++++++++++--------
 store.go |  9 +++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/load.go b/load.go
index 822d307..16d4191 100644
--- a/load.go
+++ b/load.go
@@ -16,9 +16,15 @@ import (
 	"github.com/hedzr/store/radix"
 )
 
+// the loading states of a store
+const (
+	loadingFn     = 1 // WithinLoading: everything put is treated as loaded
+	loadingSource = 2 // Load: only the keys put by the loader itself are
+)
+
 func (s *storeS) inLoading() bool {
 	for ptr := s; ptr != nil; ptr = ptr.parent {
-		if atomic.LoadInt32(&ptr.loading) == 1 {
+		if atomic.LoadInt32(&ptr.loading) == loadingFn {
 			return true
 		}
 	}
@@ -29,8 +35,8 @@ func (s *storeS) inLoading() bool {
 // run as is, and the internal flag 's.loading' will be set at
 // beginning of fn executing, and reset at ending of fn.
 func (s *storeS) WithinLoading(fn func()) {
-	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
-		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
+	if atomic.CompareAndSwapInt32(&s.loading, 0, loadingFn) {
+		defer func() { atomic.CompareAndSwapInt32(&s.loading, loadingFn, 0) }()
 		fn()
 	}
 }
@@ -96,8 +102,8 @@ func (s *storeS) SaveAs(ctx context.Context, outfile string, opts ...SaveAsOpt)
 //	   t.Fatalf("failed: %v", err)
 //	}
 func (s *storeS) Load(ctx context.Context, opts ...LoadOpt) (wr Writeable, err error) {
-	if atomic.CompareAndSwapInt32(&s.loading, 0, 1) {
-		defer func() { atomic.CompareAndSwapInt32(&s.loading, 1, 0) }()
+	if atomic.CompareAndSwapInt32(&s.loading, 0, loadingSource) {
+		defer func() { atomic.CompareAndSwapInt32(&s.loading, loadingSource, 0) }()
 
 		loader := newLoader(s, opts...)
 
@@ -188,7 +194,7 @@ func (s *storeS) loadMap(m map[string]any, position string, creating bool, onSet
 
 func privateSetter(ss *storeS, position, k string, v any, creating bool, onSet lmOnSet) {
 	set := ss.WithPrefixReplaced(position).(*storeS)
-	set.setKV(k, v, true, onSet)
+	set.setKV(k, v, true, creating, onSet)
 }
 
 func (s *storeS) loadMapByValueType(ec errors.Error, position, k string, v any, creating bool, onSet lmOnSet) {
@@ -344,7 +350,7 @@ func (s *storeS) applyChanges(ev Change) {
 			if !ok {
 				break
 			}
-			s.setKV(key, val, false, nil)
+			s.setKV(key, val, false, false, nil)
 			logz.Debug("created/wrote: ", key, s.MustGet(key), "event", ev.Op())
 		}
 	} else if ev.Has(OpRemove) {
@@ -539,7 +545,7 @@ func (s *Loader) tryLoad(ctx context.Context) (data map[string]ValPkg, bin map[s
 				if eol {
 					break
 				}
-				s.setKV(k, fp.MustValue(k), true, nil)
+				s.setKV(k, fp.MustValue(k), true, true, nil)
 			}
 			data = make(map[string]ValPkg) // all keys have been put, nothing to decode
 			return
diff --git a/store.go b/store.go
index e74b689..3b5994d 100644
--- a/store.go
+++ b/store.go
@@ -259,7 +259,7 @@ func (s *storeS) Get(path string) (data any, found bool) {
 
 // Set sets key('path') and value pair into storeS.
 func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any) {
-	node, oldData = s.setKV(path, data, false, nil)
+	node, oldData = s.setKV(path, data, false, false, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
@@ -332,12 +332,13 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // }
 
 // setKV sets a key and notifies the handlers. The arg 'merging' means
-// that the key comes from a map (by Merge, or by a loader).
-func (s *storeS) setKV(path string, data any, merging bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
+// that the key comes from a map (by Merge, or by a loader), and 'loading'
+// means that it comes from a loader.
+func (s *storeS) setKV(path string, data any, merging, loading bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
 	_, branch, found, _ := s.Trie.Query(path, nil)
 	createOrModify := !found || branch // creating a new key, or modifying an existing one
 	node, oldData = s.Trie.Set(path, data)
-	loading := s.inLoading()
+	loading = loading || s.inLoading()
 	if node != nil {
 		if onSet != nil {
 			onSet(node)
-- 
2.43.0


From 0992653fc8af3fbed68e9af590814fe34460aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 32/51] fix: handlers of a store with a prefix of its own got a
 shortened key

---
 store.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/store.go b/store.go
index 3b5994d..7016708 100644
--- a/store.go
+++ b/store.go
@@ -351,12 +351,9 @@ func (s *storeS) setKV(path string, data any, merging, loading bool, onSet lmOnS
 	return
 }
 
-// eventPath returns the path reported to the handlers. For a view, it is
-// the full path since these handlers were registered on its owner.
+// eventPath returns the path reported to the handlers. It is the full path
+// since a handler is shared by the store and all of its views.
 func (s *storeS) eventPath(path string) string {
-	if s.parent == nil {
-		return path
-	}
 	return s.join(s.Prefix(), path)
 }
 
-- 
2.43.0


From 26ea05c8b2d2f5915c58028ee3196ab18d749674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:00 +0000
Subject: [PATCH 33/51] fix: the maps provider lost the elements of the nested
 slices

---
 internal/cvt/cvt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 5c9778a..27fc917 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -9,8 +9,11 @@ import (
 
 // Copy copies a map deeply
 func Copy(m map[string]any) (data map[string]any) {
-	data = make(map[string]any)
-	evendeep.Copy(&m, &data)
+	// evendeep.Copy(&m, &data) would lose the elements of the nested slices
+	data, _ = evendeep.MakeClone(m).(map[string]any)
+	if data == nil {
+		data = make(map[string]any)
+	}
 	return
 }
 
-- 
2.43.0


From 88b2264fb17eae3f4a019bebe90b814285044bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:40 +0000
Subject: [PATCH 34/51] fix: the maps provider lost or misplaced overlapping
 dotted and nested keys, depending on the map order

---
 internal/cvt/cvt.go | 60 +++++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 27fc917..1135313 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -2,6 +2,7 @@ package cvt
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hedzr/evendeep"
@@ -73,29 +74,52 @@ func normalize(m map[string]any, key string, val any, worker func(k string, v an
 func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	data = make(map[string]any)
 
-	// Iterate through the flat conf map.
-	for k, v := range m {
-		var (
-			keys = strings.Split(k, delimiter)
-			next = data
-		)
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys) // parents first, whatever the order of the map is
 
+	// Iterate through the flat conf map.
+	for _, k := range keys {
 		// Iterate through key parts, for eg:, parent.child.key
 		// will be ["parent", "child", "key"]
-		for _, kk := range keys[:len(keys)-1] {
-			sub, ok := next[kk]
-			if !ok {
-				// If the key does not exist in the map, create it.
-				sub = make(map[string]any)
-				next[kk] = sub
-			}
-			if n, ok1 := sub.(map[string]any); ok1 {
-				next = n
-			}
+		if !deflate(data, strings.Split(k, delimiter), m[k]) {
+			data[k] = m[k] // a parent is a plain value, keep both
+		}
+	}
+	return
+}
+
+func deflate(next map[string]any, keys []string, v any) (ok bool) {
+	for _, kk := range keys[:len(keys)-1] {
+		sub, exists := next[kk]
+		if !exists {
+			// If the key does not exist in the map, create it.
+			sub = make(map[string]any)
+			next[kk] = sub
+		}
+		if next, ok = sub.(map[string]any); !ok {
+			return
 		}
+	}
 
-		// Assign the value.
-		next[keys[len(keys)-1]] = v
+	// Assign the value, or merge it into the existing map.
+	key := keys[len(keys)-1]
+	old, exists := next[key]
+	if !exists {
+		next[key] = v
+		return true
+	}
+	from, ok := v.(map[string]any)
+	to, ok1 := old.(map[string]any)
+	if !ok || !ok1 {
+		return false
+	}
+	for kk, vv := range from {
+		if !deflate(to, []string{kk}, vv) {
+			ok = false
+		}
 	}
 	return
 }
-- 
2.43.0


From c3766ef094ece6e76a06e18e1d195e5256470b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:52 +0000
Subject: [PATCH 35/51] fix: the file provider lost the changes of a file after
 its symlink was changed

---
 providers/file/file.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index 20f63c7..5db188d 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -208,7 +208,7 @@ loop:
 
 			// Since the event is triggered on a directory, is this
 			// one on the file being watched?
-			if evFile != realPath && evFile != s.file {
+			if evFile != realPath && evFile != filepath.Clean(s.file) {
 				continue
 			}
 
@@ -226,7 +226,8 @@ loop:
 				cb(nil, err)
 				break loop
 			}
-			lastChange.realPath = filepath.Clean(curPath)
+			realPath = filepath.Clean(curPath)
+			lastChange.realPath = realPath
 
 			// Finally, we only care about create and write.
 			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
-- 
2.43.0


From 69be9bc3eac09905a0bf5632cb2dd9a3c4c7e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:12 +0000
Subject: [PATCH 36/51] fix: a file could not be watched again after its watch
 ended by itself

---
 providers/file/file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index 5db188d..c707a03 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -177,7 +177,15 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 		lastChange = changeS{provider: s}
 	)
 
-	defer w.Close()
+	defer func() {
+		_ = w.Close()
+		s.mu.Lock()
+		defer s.mu.Unlock()
+		if s.watcher == w { // ended by itself, can be watched again
+			s.watcher = nil
+			atomic.StoreInt32(&s.watching, 0)
+		}
+	}()
 
 	var ok bool
 	var err error
-- 
2.43.0


From 83f95860efd5db596835c34c8eb86e4bc0d67c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:12 +0000
Subject: [PATCH 37/51] fix: a load from etcd panicked if its client could not
 be created

---
 providers/etcd/etcd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/providers/etcd/etcd.go b/providers/etcd/etcd.go
index f77d23f..9223335 100644
--- a/providers/etcd/etcd.go
+++ b/providers/etcd/etcd.go
@@ -168,6 +168,12 @@ func (s *pvdr) NormalizeKey(key string) string {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
+	if s.Client == nil { // New can't make it
+		if err = s.prepare(); err != nil {
+			return
+		}
+	}
+
 	ctx, cancel := context.WithTimeout(context.Background(), s.config.DialTimeout)
 	defer cancel()
 
-- 
2.43.0


From a1710642ec3213d0229642b7e73e9b771e6a06c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:12 +0000
Subject: [PATCH 38/51] fix: a load from consul panicked if its client could
 not be created

---
 providers/consul/consul.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 47e74ce..7016b99 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -2,6 +2,7 @@ package consul
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 	"strings"
@@ -151,6 +152,16 @@ func (s *pvdr) Reader() (r store.Reader, err error) {
 }
 
 func (s *pvdr) Read() (data map[string]store.ValPkg, err error) {
+	if s.Client == nil { // New can't make it
+		if s.config == nil {
+			err = errors.New("consul config is missing")
+			return
+		}
+		if err = s.prepare(); err != nil {
+			return
+		}
+	}
+
 	var kv = s.Client.KV()
 	var pairs api.KVPairs
 	var pair *api.KVPair
-- 
2.43.0


From fd8ec849e94661af2d4c10e390c36a957e7c90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:26 +0000
Subject: [PATCH 39/51] fix: the recursive-up mode did not find a parent's key
 after a partial match

---
 radix/trie.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index f51feca..5b52017 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -751,7 +751,8 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
+	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
+	if matched && !pm {
 		return child, prnt, pm
 	}
 
@@ -763,13 +764,17 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
-				return child, prnt, pm
+			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && !pm {
+				return child, prnt, pm // a partial match isn't the key
 			}
 			goto retry
 		}
 	}
 
+	if matched || pm {
+		return child, prnt, pm
+	}
+
 	found = nil
 	return
 }
-- 
2.43.0


From 81d67f4f4e3cfe80aa66c1b5a9e92fc263afd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:14 +0000
Subject: [PATCH 40/51] fix: Trie.Merge panics at a nil value

---
 radix/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/load.go b/radix/load.go
index 791eaf0..5e83a32 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -87,6 +87,9 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			s.loadMapByValueType(ec, m, string(buf), mm)
 			buf = buf[:0]
 		}
+	case nil: // eg, a null in json
+		var t T
+		s.Set(k, t)
 	default:
 		s.Set(k, v.(T))
 	}
-- 
2.43.0


From 7bdbdacaabb9d4d02328f1d749d662a331273141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:01 +0000
Subject: [PATCH 41/51] fix: a map with a conflicting name was delivered twice
 by the maps provider

---
 internal/cvt/cvt.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/internal/cvt/cvt.go b/internal/cvt/cvt.go
index 1135313..48e6d89 100644
--- a/internal/cvt/cvt.go
+++ b/internal/cvt/cvt.go
@@ -84,14 +84,13 @@ func Deflate(m map[string]any, delimiter string) (data map[string]any) {
 	for _, k := range keys {
 		// Iterate through key parts, for eg:, parent.child.key
 		// will be ["parent", "child", "key"]
-		if !deflate(data, strings.Split(k, delimiter), m[k]) {
-			data[k] = m[k] // a parent is a plain value, keep both
-		}
+		deflate(data, data, k, strings.Split(k, delimiter), delimiter, m[k])
 	}
 	return
 }
 
-func deflate(next map[string]any, keys []string, v any) (ok bool) {
+func deflate(root, next map[string]any, path string, keys []string, delimiter string, v any) {
+	var ok bool
 	for _, kk := range keys[:len(keys)-1] {
 		sub, exists := next[kk]
 		if !exists {
@@ -100,6 +99,7 @@ func deflate(next map[string]any, keys []string, v any) (ok bool) {
 			next[kk] = sub
 		}
 		if next, ok = sub.(map[string]any); !ok {
+			root[path] = v // a parent is a plain value, keep both
 			return
 		}
 	}
@@ -109,17 +109,15 @@ func deflate(next map[string]any, keys []string, v any) (ok bool) {
 	old, exists := next[key]
 	if !exists {
 		next[key] = v
-		return true
+		return
 	}
 	from, ok := v.(map[string]any)
 	to, ok1 := old.(map[string]any)
 	if !ok || !ok1 {
-		return false
+		root[path] = v // keep both
+		return
 	}
 	for kk, vv := range from {
-		if !deflate(to, []string{kk}, vv) {
-			ok = false
-		}
+		deflate(root, to, path+delimiter+kk, []string{kk}, delimiter, vv)
 	}
-	return
 }
-- 
2.43.0


From c848f07108ae61db91a8589ded5bedbe09b6eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:40 +0000
Subject: [PATCH 42/51] fix: a TTL or a watcher changing the tree in the
 background raced with the user's calls

---
 radix/node.go | 87 +++++++++++++++++++++++++++++++++++++--------------
 radix/trie.go | 68 +++++++++++++++++++++++++++++++---------
 2 files changed, 117 insertions(+), 38 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index b338faf..b676dd8 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -44,12 +44,19 @@ func (s *nodeS[T]) Description() string { return s.description }              //
 func (s *nodeS[T]) Comment() string     { return s.comment }                  // comment field
 func (s *nodeS[T]) Tag() any            { return s.tag }                      // tag field
 func (s *nodeS[T]) Key() string         { return s.pathS }                    // key field is the full path of this node
-func (s *nodeS[T]) KeyPiece() string    { return string(s.path) }             // key piece field for this node
 func (s *nodeS[T]) IsLeaf() bool        { return s.nType&NTMask == NTLeaf }   // leaf node?
 func (s *nodeS[T]) IsBranch() bool      { return s.nType&NTMask == NTBranch } // branch node?
 func (s *nodeS[T]) HasData() bool       { return s.nType&NTData != 0 }        //nolint:revive //data field is valid?
 func (s *nodeS[T]) Empty() bool         { return s.nType&NTData == 0 }        //nolint:revive //data field is empty?
 
+// KeyPiece returns the key piece field for this node
+func (s *nodeS[T]) KeyPiece() (piece string) {
+	s.readLockFor(func(s *nodeS[T]) {
+		piece = string(s.path)
+	})
+	return
+}
+
 func (s *nodeS[T]) readLockFor(cb func(*nodeS[T])) { //nolint:revive
 	s.rw.RLock()
 	defer s.rw.RUnlock()
@@ -62,6 +69,25 @@ func (s *nodeS[T]) lockFor(cb func(*nodeS[T])) { //nolint:revive
 	cb(s)
 }
 
+// kids returns the children at this moment, for iterating them without
+// locking the tree.
+func (s *nodeS[T]) kids() (children []*nodeS[T]) {
+	s.readLockFor(func(s *nodeS[T]) {
+		children = s.children
+	})
+	return
+}
+
+// replace changes a child. The items aren't changed in place since a
+// reader might be iterating them.
+func (s *nodeS[T]) replace(i int, child *nodeS[T]) {
+	children := append([]*nodeS[T](nil), s.children...)
+	children[i] = child
+	s.lockFor(func(s *nodeS[T]) {
+		s.children = children
+	})
+}
+
 // SetModified sets the modified state to true or false.
 //
 // To clear the state, using ResetModified;
@@ -182,7 +208,10 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 			// don't shift the items in place: a reader might be iterating them
 			children := make([]*nodeS[T], 0, len(s.children)-1)
 			children = append(children, s.children[:i]...)
-			removed, s.children = true, append(children, s.children[i+1:]...)
+			children = append(children, s.children[i+1:]...)
+			s.lockFor(func(s *nodeS[T]) {
+				removed, s.children = true, children
+			})
 			break
 		}
 	}
@@ -213,8 +242,10 @@ func (s *nodeS[T]) detach(item *nodeS[T], delimiter rune) (detached bool) {
 
 	for i, c := range s.children {
 		if c == item {
-			s.children[i] = &nodeS[T]{path: item.path, pathS: item.pathS, children: others, nType: NTBranch}
-			item.children, detached = mine, true
+			s.replace(i, &nodeS[T]{path: item.path, pathS: item.pathS, children: others, nType: NTBranch})
+			item.lockFor(func(*nodeS[T]) {
+				item.children, detached = mine, true
+			})
 			break
 		}
 	}
@@ -300,12 +331,14 @@ func (s *nodeS[T]) split(child *nodeS[T], pos int, word []rune) (newNode *nodeS[
 	}
 	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS(%q) should end with path(%q)", newNode.pathS, string(newNode.path))
 
-	child.path = child.path[pos:]
+	child.lockFor(func(*nodeS[T]) {
+		child.path = child.path[pos:]
+	})
 	assert(strings.HasSuffix(child.pathS, string(child.path)), "child: pathS should end with path")
 
 	for i, c := range s.children {
 		if c == child {
-			s.children[i] = newNode
+			s.replace(i, newNode)
 			break
 		}
 	}
@@ -320,7 +353,9 @@ func (s *nodeS[T]) insertAsLeaf(word []rune, fullPath string, data T) (newNode *
 		data:  data,
 	}
 	assert(strings.HasSuffix(newNode.pathS, string(newNode.path)), "newNode: pathS should end with path")
-	s.children = append(s.children, newNode)
+	s.lockFor(func(s *nodeS[T]) {
+		s.children = append(s.children, newNode)
+	})
 	return
 }
 
@@ -466,7 +501,7 @@ masterLoop:
 		matched, child, parent = true, base, parentNode
 	}
 	if minL < wl {
-		children := base.children // a TTL may drop a branch meanwhile
+		children := base.children
 		if len(children) == 0 {
 			matched, partialMatched = false, true
 			return
@@ -509,13 +544,14 @@ func iif[T any](cond bool, tv, fv T) (rv T) {
 
 func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //nolint:revive
 	_, _ = sb.WriteString(strings.Repeat("  ", lvl))
-	if len(s.path) == 0 {
+	piece := []rune(s.KeyPiece())
+	if len(piece) == 0 {
 		if lvl > 0 {
 			_, _ = sb.WriteString("(nil)\n")
 		}
 	} else {
-		_, _ = sb.WriteString(string(s.path))
-		if width := col1Width - lvl*2 - len(s.path); width > 0 {
+		_, _ = sb.WriteString(string(piece))
+		if width := col1Width - lvl*2 - len(piece); width > 0 {
 			_, _ = sb.WriteString(strings.Repeat(" ", width))
 		} else {
 			_ = sb.WriteByte(' ')
@@ -567,7 +603,7 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 		_ = sb.WriteByte('\n')
 	}
 
-	for _, child := range s.children {
+	for _, child := range s.kids() {
 		child.dumpR(sb, lvl+1, noColor)
 	}
 	return sb.String()
@@ -577,17 +613,20 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
-	newNode = &nodeS[T]{
-		path:        s.path,
-		pathS:       s.pathS,
-		nType:       s.nType,
-		description: s.description,
-		comment:     s.comment,
-		tag:         s.tag,
-	}
+	s.readLockFor(func(s *nodeS[T]) {
+		newNode = &nodeS[T]{
+			path:        s.path,
+			pathS:       s.pathS,
+			nType:       s.nType,
+			description: s.description,
+			comment:     s.comment,
+			tag:         s.tag,
+		}
+	})
 
-	newNode.children = make([]*nodeS[T], 0, len(s.children))
-	for _, ch := range s.children {
+	children := s.kids()
+	newNode.children = make([]*nodeS[T], 0, len(children))
+	for _, ch := range children {
 		newNode.children = append(newNode.children, ch.Dup())
 	}
 
@@ -607,8 +646,8 @@ func (s *nodeS[T]) Walk(cb func(path, fragment string, node Node[T])) { //nolint
 }
 
 func (s *nodeS[T]) walk(level int, cb func(path, fragment string, node Node[T])) { //nolint:revive
-	cb(s.pathS, string(s.path), s)
-	for _, ch := range s.children {
+	cb(s.pathS, s.KeyPiece(), s)
+	for _, ch := range s.kids() {
 		ch.walk(level+1, cb)
 	}
 }
diff --git a/radix/trie.go b/radix/trie.go
index 5b52017..7affa03 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -16,22 +16,23 @@ import (
 
 // NewTrie returns a Trie-tree instance.
 func NewTrie[T any]() *trieS[T] {
-	return &trieS[T]{root: &nodeS[T]{}, delimiter: dotChar}
+	return &trieS[T]{root: &nodeS[T]{}, mu: &sync.RWMutex{}, delimiter: dotChar}
 }
 
 // NewTrieBy returns a Trie-tree instance.
 func NewTrieBy[T any](delimiter rune) *trieS[T] {
-	return &trieS[T]{root: &nodeS[T]{}, delimiter: delimiter}
+	return &trieS[T]{root: &nodeS[T]{}, mu: &sync.RWMutex{}, delimiter: delimiter}
 }
 
 var _ Trie[any] = (*trieS[any])(nil) // assertion helper
 
 func newTrie[T any]() *trieS[T] { //nolint:revive
-	return &trieS[T]{root: &nodeS[T]{}, delimiter: dotChar}
+	return &trieS[T]{root: &nodeS[T]{}, mu: &sync.RWMutex{}, delimiter: dotChar}
 }
 
 type trieS[T any] struct {
 	root          *nodeS[T]
+	mu            *sync.RWMutex // protects the tree below root, shared by its views: TTLs and watchers change it in the background
 	prefix        string
 	delimiter     rune
 	ttlmu         sync.Mutex // protects ttls
@@ -216,8 +217,10 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
 	node, _, partialMatched := s.search(path, nil)
 	found := s.matched(node, partialMatched)
+	s.mu.RUnlock()
 	state = -1
 	if found {
 		state = 0
@@ -241,6 +244,7 @@ func (s *trieS[T]) SetTTLFast(node Node[T], ttl time.Duration, cb OnTTLRinging[T
 func (s *trieS[T]) dupS(root *nodeS[T], prefix string) (newTrie *trieS[T]) { //nolint:revive
 	newTrie = &trieS[T]{
 		root:          root,
+		mu:            s.mu,
 		prefix:        prefix,
 		delimiter:     s.delimiter,
 		recursiveMode: s.recursiveMode,
@@ -387,6 +391,8 @@ func (s *trieS[T]) Set(path string, data T) (node Node[T], oldData any) {
 	if strings.Contains(path, " ") {
 		path = strings.ReplaceAll(path, " ", "-")
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return s.root.insert([]rune(path), path, data, s, nil)
 }
 
@@ -396,8 +402,18 @@ func (s *trieS[T]) SetEx(path string, data T, cb OnSetEx[T]) (oldData any) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	_, oldData = s.root.insert([]rune(path), path, data, s, cb)
-	return
+	node, old := s.put(path, data)
+	if cb != nil {
+		cb(path, old, node, s)
+	}
+	return old
+}
+
+// put sets the data of a node, or makes a new one.
+func (s *trieS[T]) put(path string, data T) (node *nodeS[T], oldData any) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.root.insertInternal([]rune(path), path, data, s, nil)
 }
 
 // SetNode sets the all node fields at once.
@@ -405,7 +421,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node, old := s.put(path, data)
 	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
@@ -427,7 +443,7 @@ func (s *trieS[T]) SetEmpty(path string) (oldData any) { //nolint:revive
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	var v T
-	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
+	node, old := s.put(path, v)
 	node.SetEmpty()
 	return old
 }
@@ -437,7 +453,7 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	var v T
-	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
+	node, old := s.put(path, v)
 	cb(node, old)
 }
 
@@ -448,6 +464,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	if ok = s.matched(node, partialMatched); ok {
 		node.description, node.comment = description, comment
@@ -462,6 +480,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	if ok = s.matched(node, partialMatched); ok {
 		node.tag = tag
@@ -491,6 +511,8 @@ func (s *trieS[T]) Search(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	found = s.matched(node, partialMatched)
 	return
@@ -501,6 +523,8 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched = s.search(path, kvpair)
 	if node != nil {
 		found = !partialMatched
@@ -541,6 +565,8 @@ func (s *trieS[T]) Has(path string) (found bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	found = s.matched(node, partialMatched)
 	return
@@ -553,6 +579,8 @@ func (s *trieS[T]) HasPart(path string) (yes bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	yes = node != nil || partialMatched
 	if partialMatched && node != nil {
@@ -575,6 +603,8 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	node, parent, partialMatched := s.search(path, nil)
 	found := s.matched(node, partialMatched)
 	if found {
@@ -593,11 +623,11 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 // drop removes a branch node from the tree, if it is still there. The
 // current prefix setting is ignored since node.pathS is a full path.
 func (s *trieS[T]) drop(node *nodeS[T]) (removed bool) {
-	s.root.lockFor(func(*nodeS[T]) { // several TTLs may ring at the same time
-		if found, parent, partialMatched := s.search(node.pathS, nil); found == node && parent != nil && !partialMatched {
-			removed = parent.remove(node)
-		}
-	})
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if found, parent, partialMatched := s.search(node.pathS, nil); found == node && parent != nil && !partialMatched {
+		removed = parent.remove(node)
+	}
 	return
 }
 
@@ -630,6 +660,8 @@ func (s *trieS[T]) getNode(path string) (node *nodeS[T], data T, kvpair KVPair,
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, kvpair)
 	found := node != nil && !partialMatched
 	if found {
@@ -658,6 +690,8 @@ func (s *trieS[T]) getNodeFast(path string) (node *nodeS[T], err error) {
 	}
 	var kvpair KVPair
 	var partialMatched bool
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched = s.search(path, kvpair)
 	found := node != nil && !partialMatched
 	if found {
@@ -720,6 +754,8 @@ func (s *trieS[T]) Query(path string, kvpair KVPair) (data T, branch, found bool
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, kvpair)
 	found = node != nil && !partialMatched
 	if found {
@@ -875,7 +911,9 @@ func (s *trieS[T]) dump(noColor bool) string { return s.root.dump(noColor) } //n
 
 // Dup or Clone makes an exact deep copy of this tree.
 func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
-	return s.dupS(s.root.Dup(), s.prefix)
+	newTrie = s.dupS(s.root.Dup(), s.prefix)
+	newTrie.mu = &sync.RWMutex{}
+	return
 }
 
 // Walk navigates the whole tree (passing "" as 'path' param) or
@@ -883,7 +921,9 @@ func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
 func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T])) { //nolint:revive
 	root := s.root
 	if path != "" {
+		s.mu.RLock()
 		node, parent, partialMatched := s.search(path, nil)
+		s.mu.RUnlock()
 		if !partialMatched {
 			root = parent
 			if runes := []rune(path); runes[len(runes)-1] == s.delimiter {
-- 
2.43.0


From 3a32a338f5559e2c5db666b06f45d852383fb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:13 +0000
Subject: [PATCH 43/51] fix: a node's comment and tag were read and written
 without its lock

---
 radix/node.go | 63 ++++++++++++++++++++++++++++++++++-----------------
 radix/trie.go | 28 ++++++++++++-----------
 2 files changed, 57 insertions(+), 34 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index b676dd8..fe8df58 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -36,18 +36,33 @@ var _ Node[any] = (*nodeS[any])(nil) // assertion helper
 
 type Extractor func(outputPtr any, defaultValue ...any) (err error) // data field extractor
 
-func (s *nodeS[T]) isBranch() bool      { return s.nType&NTMask == NTBranch } // branch node, not leaf node
-func (s *nodeS[T]) hasData() bool       { return s.nType&NTData != 0 }        // has data?
-func (s *nodeS[T]) isEmpty() bool       { return s.nType&NTData == 0 }        // no data?
-func (s *nodeS[T]) Modified() bool      { return s.nType&NTModified != 0 }    // modification state
-func (s *nodeS[T]) Description() string { return s.description }              // description field
-func (s *nodeS[T]) Comment() string     { return s.comment }                  // comment field
-func (s *nodeS[T]) Tag() any            { return s.tag }                      // tag field
-func (s *nodeS[T]) Key() string         { return s.pathS }                    // key field is the full path of this node
-func (s *nodeS[T]) IsLeaf() bool        { return s.nType&NTMask == NTLeaf }   // leaf node?
-func (s *nodeS[T]) IsBranch() bool      { return s.nType&NTMask == NTBranch } // branch node?
-func (s *nodeS[T]) HasData() bool       { return s.nType&NTData != 0 }        //nolint:revive //data field is valid?
-func (s *nodeS[T]) Empty() bool         { return s.nType&NTData == 0 }        //nolint:revive //data field is empty?
+func (s *nodeS[T]) isBranch() bool { return s.nType&NTMask == NTBranch } // branch node, not leaf node
+func (s *nodeS[T]) hasData() bool  { return s.nType&NTData != 0 }        // has data?
+func (s *nodeS[T]) isEmpty() bool  { return s.nType&NTData == 0 }        // no data?
+func (s *nodeS[T]) Modified() bool { return s.nType&NTModified != 0 }    // modification state
+func (s *nodeS[T]) Key() string    { return s.pathS }                    // key field is the full path of this node
+func (s *nodeS[T]) IsLeaf() bool   { return s.nType&NTMask == NTLeaf }   // leaf node?
+func (s *nodeS[T]) IsBranch() bool { return s.nType&NTMask == NTBranch } // branch node?
+func (s *nodeS[T]) HasData() bool  { return s.nType&NTData != 0 }        //nolint:revive //data field is valid?
+func (s *nodeS[T]) Empty() bool    { return s.nType&NTData == 0 }        //nolint:revive //data field is empty?
+
+// Description returns the description field
+func (s *nodeS[T]) Description() (desc string) {
+	s.readLockFor(func(s *nodeS[T]) { desc = s.description })
+	return
+}
+
+// Comment returns the comment field
+func (s *nodeS[T]) Comment() (comment string) {
+	s.readLockFor(func(s *nodeS[T]) { comment = s.comment })
+	return
+}
+
+// Tag returns the tag field
+func (s *nodeS[T]) Tag() (tag any) {
+	s.readLockFor(func(s *nodeS[T]) { tag = s.tag })
+	return
+}
 
 // KeyPiece returns the key piece field for this node
 func (s *nodeS[T]) KeyPiece() (piece string) {
@@ -93,16 +108,18 @@ func (s *nodeS[T]) replace(i int, child *nodeS[T]) {
 // To clear the state, using ResetModified;
 // Or flip the state with ToggleModified.
 func (s *nodeS[T]) SetModified(b bool) { //nolint:revive
-	if b {
-		s.nType |= NTModified
-	} else {
-		s.nType &= ^NTModified
-	}
+	s.lockFor(func(s *nodeS[T]) {
+		if b {
+			s.nType |= NTModified
+		} else {
+			s.nType &= ^NTModified
+		}
+	})
 }
 
 // ToggleModified flips the modified state.
 func (s *nodeS[T]) ToggleModified() {
-	s.nType ^= NTModified
+	s.lockFor(func(s *nodeS[T]) { s.nType ^= NTModified })
 	// if s.Modified() {
 	// 	s.nType &= ^NTModified
 	// } else {
@@ -112,7 +129,7 @@ func (s *nodeS[T]) ToggleModified() {
 
 // ResetModified clears the modified state.
 func (s *nodeS[T]) ResetModified() {
-	s.nType &= ^NTModified
+	s.lockFor(func(s *nodeS[T]) { s.nType &= ^NTModified })
 }
 
 // Data returns the Data field of a node.
@@ -158,7 +175,9 @@ func (s *nodeS[T]) SetComment(desc, comment string) { //nolint:revive
 	// if s.isBranch() {
 	// 	return
 	// }
-	s.description, s.comment = desc, comment
+	s.lockFor(func(s *nodeS[T]) {
+		s.description, s.comment = desc, comment
+	})
 }
 
 // SetTag sets the Tag field.
@@ -168,7 +187,9 @@ func (s *nodeS[T]) SetTag(tag any) { //nolint:revive
 	// if s.isBranch() {
 	// 	return
 	// }
-	s.tag = tag
+	s.lockFor(func(s *nodeS[T]) {
+		s.tag = tag
+	})
 }
 
 func (s *nodeS[T]) StartsWith(ch rune) bool { //nolint:revive
diff --git a/radix/trie.go b/radix/trie.go
index 7affa03..e581567 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -422,17 +422,19 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.put(path, data)
-	node.tag = tag
-	switch len(descriptionAndComments) {
-	case 0:
-	case 1:
-		node.description = descriptionAndComments[0]
-	case 2:
-		node.description, node.comment = descriptionAndComments[0], descriptionAndComments[1]
-	default:
-		node.description = descriptionAndComments[0]
-		node.comment = strings.Join(descriptionAndComments[1:], "\n")
-	}
+	node.lockFor(func(node *nodeS[T]) {
+		node.tag = tag
+		switch len(descriptionAndComments) {
+		case 0:
+		case 1:
+			node.description = descriptionAndComments[0]
+		case 2:
+			node.description, node.comment = descriptionAndComments[0], descriptionAndComments[1]
+		default:
+			node.description = descriptionAndComments[0]
+			node.comment = strings.Join(descriptionAndComments[1:], "\n")
+		}
+	})
 	ret, oldData = node, old
 	return
 }
@@ -468,7 +470,7 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	if ok = s.matched(node, partialMatched); ok {
-		node.description, node.comment = description, comment
+		node.SetComment(description, comment)
 	}
 	return
 }
@@ -484,7 +486,7 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	defer s.mu.RUnlock()
 	node, _, partialMatched := s.search(path, nil)
 	if ok = s.matched(node, partialMatched); ok {
-		node.tag = tag
+		node.SetTag(tag)
 	}
 	return
 }
-- 
2.43.0


From c5976b1f349d369063c89f971928f9d8ae40989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 44/51] fix: a handler could be told of a change for a key that
 was created, or reverse, while others set or remove it

---
 radix/insert.go     |  2 +-
 radix/insert_dbg.go |  4 ++--
 radix/node.go       |  9 +++++----
 radix/trie.go       |  9 ++++++++-
 store.go            | 13 ++++++++++---
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/radix/insert.go b/radix/insert.go
index 282e3f2..6bb9cc2 100644
--- a/radix/insert.go
+++ b/radix/insert.go
@@ -3,6 +3,6 @@
 
 package radix
 
-func (s *nodeS[T]) insert(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node Node[T], oldData any) {
+func (s *nodeS[T]) insert(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node Node[T], oldData any, created bool) {
 	return s.insertInternal(word, fullPath, data, trie, cb)
 }
diff --git a/radix/insert_dbg.go b/radix/insert_dbg.go
index 0912403..6d81551 100644
--- a/radix/insert_dbg.go
+++ b/radix/insert_dbg.go
@@ -3,8 +3,8 @@
 
 package radix
 
-func (s *nodeS[T]) insert(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node Node[T], oldData any) {
-	node, oldData = s.insertInternal(word, fullPath, data, trie, cb)
+func (s *nodeS[T]) insert(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node Node[T], oldData any, created bool) {
+	node, oldData, created = s.insertInternal(word, fullPath, data, trie, cb)
 	str := s.dump(true) // check integrity
 	_ = str
 	return
diff --git a/radix/node.go b/radix/node.go
index fe8df58..d660ce4 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -281,11 +281,11 @@ func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	return
 }
 
-func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node *nodeS[T], oldData any) {
+func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *trieS[T], cb OnSetEx[T]) (node *nodeS[T], oldData any, created bool) {
 	base, ourLen, wordLen := s, len(s.path), len(word)
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
-			node = base.insertAsLeaf(word, fullPath, data)
+			node, created = base.insertAsLeaf(word, fullPath, data), true
 			if cb != nil {
 				cb(fullPath, nil, node, trie)
 			}
@@ -312,12 +312,12 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 				// eg2: insert '/app/:client/tokens' into '/app/:client/tokens/:token',
 			}
 			var n Node[T]
-			n, oldData = child.insert(word, fullPath, data, trie, cb)
+			n, oldData, created = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
 				node = nn
 			}
 		} else {
-			node = base.insertAsLeaf(word, fullPath, data)
+			node, created = base.insertAsLeaf(word, fullPath, data), true
 			if cb != nil {
 				cb(fullPath, nil, node, trie)
 			}
@@ -326,6 +326,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		// hit this node. It might be a pure branch split out by the
 		// longer keys, so turn it to a leaf or its data is unreachable.
 		base.lockFor(func(*nodeS[T]) {
+			created = base.isBranch()
 			base.nType |= NTLeaf | NTData
 			node, oldData, base.data = base, base.data, data
 		})
diff --git a/radix/trie.go b/radix/trie.go
index e581567..dc4af75 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -385,6 +385,12 @@ func (s *trieS[T]) Insert(path string, data T) (oldData any) { //nolint:revive
 // If the given path cannot be found, a new node will be created at that
 // location so that the new data value can be set into it.
 func (s *trieS[T]) Set(path string, data T) (node Node[T], oldData any) {
+	node, oldData, _ = s.Put(path, data)
+	return
+}
+
+// Put is same with Set, and tells whether the key was created by it.
+func (s *trieS[T]) Put(path string, data T) (node Node[T], oldData any, created bool) {
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
@@ -413,7 +419,8 @@ func (s *trieS[T]) SetEx(path string, data T, cb OnSetEx[T]) (oldData any) {
 func (s *trieS[T]) put(path string, data T) (node *nodeS[T], oldData any) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	return s.root.insertInternal([]rune(path), path, data, s, nil)
+	node, oldData, _ = s.root.insertInternal([]rune(path), path, data, s, nil)
+	return
 }
 
 // SetNode sets the all node fields at once.
diff --git a/store.go b/store.go
index 7016708..af74797 100644
--- a/store.go
+++ b/store.go
@@ -335,9 +335,16 @@ func (s *storeS) Update(path string, cb func(node radix.Node[any], old any)) {
 // that the key comes from a map (by Merge, or by a loader), and 'loading'
 // means that it comes from a loader.
 func (s *storeS) setKV(path string, data any, merging, loading bool, onSet lmOnSet) (node radix.Node[any], oldData any) {
-	_, branch, found, _ := s.Trie.Query(path, nil)
-	createOrModify := !found || branch // creating a new key, or modifying an existing one
-	node, oldData = s.Trie.Set(path, data)
+	var createOrModify bool // creating a new key, or modifying an existing one
+	if t, ok := s.Trie.(interface {
+		Put(path string, data any) (node radix.Node[any], oldData any, created bool)
+	}); ok {
+		node, oldData, createOrModify = t.Put(path, data)
+	} else {
+		_, branch, found, _ := s.Trie.Query(path, nil)
+		createOrModify = !found || branch
+		node, oldData = s.Trie.Set(path, data)
+	}
 	loading = loading || s.inLoading()
 	if node != nil {
 		if onSet != nil {
-- 
2.43.0


From 452c829c4bd5ff4a1905e00bc628dcb8d9f4fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:38 +0000
Subject: [PATCH 45/51] fix: a copy or an enumeration made while keys were
 added or removed lost other keys

---
 radix/cvter.go |  8 ++++----
 radix/trie.go  | 17 ++++++++++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 2754b56..7131608 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -354,7 +354,7 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 		// ret[node.pathS] = node.data
 
 		ret = make(map[string]any)
-		s.root.Walk(func(path, fragment string, node Node[T]) {
+		s.walk(s.root, func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
 				ret[path] = node.Data()
 			}
@@ -366,7 +366,7 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
 
-		nodeX.Walk(func(path, fragment string, node Node[T]) {
+		s.walk(nodeX, func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
 				// For a trie like:
 				//
@@ -424,7 +424,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		if s.prefix != "" {
 			prefix = s.prefix + string(s.delimiter)
 		}
-		s.root.Walk(func(path, fragment string, node Node[T]) {
+		s.walk(s.root, func(path, fragment string, node Node[T]) {
 			if !strings.HasPrefix(path, prefix) {
 				return // not in the scope of this prefixed view
 			}
@@ -457,7 +457,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		delimiter := string(s.delimiter)
 		full := strings.TrimSuffix(s.Join(s.prefix, path), delimiter)
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
-		nodeX.Walk(func(path, fragment string, node Node[T]) {
+		s.walk(nodeX, func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
 				rel := strings.TrimPrefix(path, full)
 				if found && !branch && rel != "" && !strings.HasPrefix(rel, delimiter) {
diff --git a/radix/trie.go b/radix/trie.go
index dc4af75..58ad4ee 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -920,6 +920,8 @@ func (s *trieS[T]) dump(noColor bool) string { return s.root.dump(noColor) } //n
 
 // Dup or Clone makes an exact deep copy of this tree.
 func (s *trieS[T]) Dup() (newTrie *trieS[T]) { //nolint:revive
+	s.mu.RLock() // a node being split or moved meanwhile can't be copied
+	defer s.mu.RUnlock()
 	newTrie = s.dupS(s.root.Dup(), s.prefix)
 	newTrie.mu = &sync.RWMutex{}
 	return
@@ -942,6 +944,19 @@ func (s *trieS[T]) Walk(path string, cb func(path, fragment string, node Node[T]
 	}
 
 	if root != nil {
-		root.walk(0, cb)
+		s.walk(root, cb)
+	}
+}
+
+// walk navigates a subtree as it is at this moment, so that the keys which
+// are moved by a change meanwhile aren't missed. The callback is free to
+// access the tree.
+func (s *trieS[T]) walk(root *nodeS[T], cb func(path, fragment string, node Node[T])) {
+	var nodes []Node[T]
+	s.mu.RLock()
+	root.walk(0, func(path, fragment string, node Node[T]) { nodes = append(nodes, node) })
+	s.mu.RUnlock()
+	for _, node := range nodes {
+		cb(node.Key(), node.KeyPiece(), node)
 	}
 }
-- 
2.43.0


From b7693988f64b92b19551a9077e02da0869b38dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:28 +0000
Subject: [PATCH 46/51] fix: a symlink changed twice within 5 ms made its later
 changes unnoticed

---
 providers/file/file.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index c707a03..091d78c 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -204,13 +204,16 @@ loop:
 				break loop
 			}
 
+			repeated := false
+
 			// Use a simple timer to buffer events as certain events fire
 			// multiple times on some platforms.
 			if event.String() == lastChange.lastEvent && time.Since(lastChange.lastEventTime) < time.Millisecond*5 {
-				continue
+				repeated = true // but the symlink might have been changed again
+			} else {
+				lastChange.lastEvent = event.String()
+				lastChange.lastEventTime = time.Now()
 			}
-			lastChange.lastEvent = event.String()
-			lastChange.lastEventTime = time.Now()
 
 			evFile := filepath.Clean(event.Name)
 
@@ -238,7 +241,7 @@ loop:
 			lastChange.realPath = realPath
 
 			// Finally, we only care about create and write.
-			if event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
+			if repeated || event.Op&(fsnotify.Write|fsnotify.Create) == 0 {
 				continue
 			}
 
-- 
2.43.0


From 34c84c090c5f0ee121992e54941a1cae7bdf335e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:06 +0000
Subject: [PATCH 47/51] fix: the recursive-up mode stopped at an inner node in
 the middle of a key piece

---
 radix/trie.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 58ad4ee..6c14dd2 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -797,7 +797,7 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
 	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
-	if matched && !pm {
+	if matched && !pm && (s.recursiveMode != RecusiveUp || s.matched(child, pm)) {
 		return child, prnt, pm
 	}
 
@@ -809,8 +809,8 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && !pm {
-				return child, prnt, pm // a partial match isn't the key
+			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched && s.matched(child, pm) {
+				return child, prnt, pm // a partial match isn't the key, nor an inner node in the middle of a key piece
 			}
 			goto retry
 		}
-- 
2.43.0


From 34fdc91c6cbde7a2535b407f7b846120af5eaae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:58 +0000
Subject: [PATCH 48/51] fix: a file watched again right after the end of the
 previous watch was not watched

---
 providers/file/file.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/providers/file/file.go b/providers/file/file.go
index 091d78c..7b8638b 100644
--- a/providers/file/file.go
+++ b/providers/file/file.go
@@ -7,7 +7,6 @@ import (
 	"os"
 	"path/filepath"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/fsnotify/fsnotify"
@@ -53,12 +52,12 @@ type pvdr struct {
 	file         string
 	watchEnabled bool
 	writeEnabled bool
-	watching     int32
 	codec        store.Codec
 	prefix       string
 
 	mu      sync.Mutex
-	watcher *fsnotify.Watcher
+	watcher *fsnotify.Watcher // nil if it's not watching
+	ctx     context.Context   // of the watch
 }
 
 func (s *pvdr) String() string { return s.file }
@@ -123,7 +122,6 @@ func (s *pvdr) WithPosition(prefix string)    { s.prefix = prefix }
 func (s *pvdr) Close() {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	atomic.CompareAndSwapInt32(&s.watching, 1, 0)
 	if s.watcher != nil {
 		_ = s.watcher.Close() // wake up watchRunner
 		s.watcher = nil
@@ -162,14 +160,24 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	if !atomic.CompareAndSwapInt32(&s.watching, 0, 1) {
-		return w.Close() // it's watching already
+	if s.watcher != nil {
+		if s.ctx.Err() == nil {
+			return w.Close() // it's watching already
+		}
+		_ = s.watcher.Close() // canceled, and its runner is about to end
 	}
-	s.watcher = w
+	s.watcher, s.ctx = w, ctx
 	go s.watchRunner(ctx, cb, w, realPath)
 	return nil
 }
 
+// isWatching tells whether w is neither closed nor replaced.
+func (s *pvdr) isWatching(w *fsnotify.Watcher) bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return s.watcher == w
+}
+
 func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w *fsnotify.Watcher, realPath string) {
 	var (
 		// lastEvent     string
@@ -183,7 +191,6 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 		defer s.mu.Unlock()
 		if s.watcher == w { // ended by itself, can be watched again
 			s.watcher = nil
-			atomic.StoreInt32(&s.watching, 0)
 		}
 	}()
 
@@ -191,14 +198,14 @@ func (s *pvdr) watchRunner(ctx context.Context, cb func(event any, err error), w
 	var err error
 	var event fsnotify.Event
 loop:
-	for atomic.LoadInt32(&s.watching) == 1 {
+	for ctx.Err() == nil && s.isWatching(w) {
 		select {
 		case <-ctx.Done():
 			return
 
 		case event, ok = <-w.Events:
 			if !ok {
-				if atomic.LoadInt32(&s.watching) == 1 {
+				if s.isWatching(w) {
 					cb(nil, errors.New("fsnotify watch channel closed"))
 				}
 				break loop
@@ -251,7 +258,7 @@ loop:
 		// There's an error.
 		case err, ok = <-w.Errors:
 			if !ok {
-				if atomic.LoadInt32(&s.watching) == 1 {
+				if s.isWatching(w) {
 					cb(nil, errors.New("fsnotify err channel closed"))
 				}
 				break loop
-- 
2.43.0


From 7deaebc5c5d676de34fb2dc5c50f8b3cf2516fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:34 +0000
Subject: [PATCH 49/51] fix: a variable or flag named as the prefix made
 env.New panic, or was put at an empty key

---
 providers/env/env.go     | 5 ++++-
 providers/flags/flags.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 82768fc..bb375c1 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,12 +122,15 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
 				k = s.cb(k)
 			}
+			if k == "" {
+				continue // it's the prefix itself
+			}
 			if s.storePrefix != "" {
 				k = s.storePrefix + "." + k
 			}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 45215b8..8364b21 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,12 +106,15 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
 			k = s.cb(k)
 		}
+		if k == "" {
+			return // it's the prefix itself
+		}
 		if s.storePrefix != "" {
 			k = s.storePrefix + "." + k
 		}
-- 
2.43.0


From f8b70e292970040899e36ed6f5684c341873c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:34 +0000
Subject: [PATCH 50/51] fix: Close right after a Load from consul crashed

---
 providers/consul/consul.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 7016b99..3b6bc5e 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -334,6 +334,18 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 			}
 		}
 	}
+
+	// a plan being stopped just before its first request calls a nil func
+	watcher := s.plan.Watcher
+	s.plan.Watcher = func(p *watch.Plan) (watch.BlockingParamVal, any, error) {
+		defer func() {
+			if e := recover(); e != nil && !p.IsStopped() {
+				panic(e)
+			}
+		}()
+		return watcher(p)
+	}
+
 	// s.plan.HybridHandler = func(bpv watch.BlockingParamVal, val interface{}) {
 	// 	lastChange.Set(val)
 	// 	cb(lastChange, nil)
-- 
2.43.0


From acb614efc8a9c6ca6a5cb7b21d93e4e921f99af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:34 +0000
Subject: [PATCH 51/51] fix: loading by a consul provider again left its
 previous watch running, and mixed them up

---
 providers/consul/consul.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/providers/consul/consul.go b/providers/consul/consul.go
index 3b6bc5e..829be3b 100644
--- a/providers/consul/consul.go
+++ b/providers/consul/consul.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/hashicorp/consul/api"
 	"github.com/hashicorp/consul/api/watch"
@@ -38,8 +39,9 @@ type pvdr struct {
 	stripPrefix, prependPrefix string
 	delimiter                  string // replace consul slash '/' with delimiter
 
-	plan *watch.Plan
-	last api.KVPairs // the last snapshot, by Read or watching
+	mu    sync.Mutex
+	plans []*watch.Plan // those running, or stopped
+	last  api.KVPairs   // the snapshot of the last Read
 
 	// onUpdated OnUpdated
 }
@@ -285,8 +287,14 @@ func (s *pvdr) WithCodec(codec store.Codec)   { s.codec = codec }
 func (s *pvdr) WithPosition(prefix string)    { s.position = prefix }
 
 func (s *pvdr) Close() {
-	if s.plan != nil && !s.plan.IsStopped() {
-		s.plan.Stop()
+	s.mu.Lock()
+	plans := s.plans
+	s.plans = nil
+	s.mu.Unlock()
+	for _, plan := range plans {
+		if !plan.IsStopped() {
+			plan.Stop()
+		}
 	}
 }
 
@@ -313,8 +321,9 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		return err
 	}
 
-	s.plan = lastChange.plan
-	s.plan.Handler = func(idx uint64, val any) {
+	last := s.last // of this watch, the previous one might be still ending
+	plan := lastChange.plan
+	plan.Handler = func(idx uint64, val any) {
 		var pairs api.KVPairs
 		switch v := val.(type) {
 		case api.KVPairs:
@@ -322,8 +331,8 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 		case *api.KVPair:
 			pairs = api.KVPairs{v}
 		}
-		created, modified, removed := diff(s.last, pairs)
-		s.last = pairs
+		created, modified, removed := diff(last, pairs)
+		last = pairs
 		for _, it := range []struct {
 			op    store.Op
 			pairs api.KVPairs
@@ -336,8 +345,8 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	}
 
 	// a plan being stopped just before its first request calls a nil func
-	watcher := s.plan.Watcher
-	s.plan.Watcher = func(p *watch.Plan) (watch.BlockingParamVal, any, error) {
+	watcher := plan.Watcher
+	plan.Watcher = func(p *watch.Plan) (watch.BlockingParamVal, any, error) {
 		defer func() {
 			if e := recover(); e != nil && !p.IsStopped() {
 				panic(e)
@@ -351,13 +360,17 @@ func (s *pvdr) Watch(ctx context.Context, cb func(event any, err error)) (err er
 	// 	cb(lastChange, nil)
 	// }
 
+	s.mu.Lock()
+	s.plans = append(s.plans, plan)
+	s.mu.Unlock()
+
 	go func() {
 		slog.Debug("consul watching plan has been started", "type", p["type"], "key", s.position, "addr", s.config.Address)
 
 		// no need to try to shutdown from ctx triggering. because the
 		// plan will be stopped while consul Client.Close() called.
 
-		err := s.plan.RunWithClientAndHclog(s.Client, nil)
+		err := plan.RunWithClientAndHclog(s.Client, nil)
 		if err != nil {
 			slog.Error("consul watching plan has error", "err", err)
 			return
-- 
2.43.0

