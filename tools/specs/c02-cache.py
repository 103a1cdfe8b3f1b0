id='c02-cache'; prop='C02'
needs='a key read through one view, removed through another one, and read again through the first'
breaks='a per-view lookup cache is not invalidated by removals done through other views'
edits=[('radix/trie.go','''	ttls          *TTL[T]
	recursiveMode RecusiveMode
}
''','''	ttls          *TTL[T]
	recursiveMode RecusiveMode
	lastPath      string
	lastNode      *nodeS[T]
}

// searchFast remembers the node of the last hit.
func (s *trieS[T]) searchFast(path string, kvpair KVPair) (node, parent *nodeS[T], partialMatched bool) {
	if kvpair == nil && s.lastNode != nil && s.lastPath == path {
		return s.lastNode, nil, false
	}
	node, parent, partialMatched = s.search(path, kvpair)
	if node != nil && !partialMatched && !node.isBranch() {
		s.lastPath, s.lastNode = path, node
	}
	return
}
'''),('radix/trie.go','''	node, _, partialMatched := s.search(path, kvpair)
	found = node != nil && !partialMatched
''','''	node, _, partialMatched := s.searchFast(path, kvpair)
	found = node != nil && !partialMatched
'''),('radix/trie.go','''func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
''','''func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
	s.lastNode = nil
''')]
demo='''
package store_test

import (
	"testing"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	s.Set("app.level", 1)
	v := s.WithPrefix("app")
	if _, ok := v.Get("level"); !ok {
		t.Fatal("not found")
	}
	s.Remove("app.level")
	if x, ok := v.Get("level"); ok {
		t.Fatalf("removed key still readable through the view: %v", x)
	}
}
'''
