id='c11-hot'; prop='C11'
needs='two goroutines reading different keys: one of them is preempted between updating the path and the node of the cache'
breaks='a lookup cache of two fields, updated without a lock, returns the value of another key'
edits=[('radix/node.go','''	nType       nodeType
''','''	nType       nodeType
	hotPath     string    // the key found most recently, root node only
	hot         *nodeS[T] // and its node
'''),('radix/trie.go','''	node, _, partialMatched := s.search(path, kvpair)
	found = node != nil && !partialMatched
''','''	var node *nodeS[T]
	var partialMatched bool
	if node = s.root.hot; kvpair != nil || node == nil || s.root.hotPath != path {
		node, _, partialMatched = s.search(path, kvpair)
		if node != nil && !partialMatched && !node.isBranch() && kvpair == nil && node.pathS == path {
			s.root.hotPath = path
			s.root.hot = node
		}
	}
	found = node != nil && !partialMatched
'''),('radix/trie.go','''func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
''','''func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], removed bool) {
	s.root.hot = nil
'''),('radix/trie.go','''func (s *trieS[T]) drop(node *nodeS[T]) (removed bool) {
''','''func (s *trieS[T]) drop(node *nodeS[T]) (removed bool) {
	s.root.hot = nil
''')]
demo='''
package store_test

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	s.Set("app.one", 1)
	s.Set("app.two", 2)
	var bad atomic.Int32
	end := time.Now().Add(10 * time.Second)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; bad.Load() == 0 && time.Now().Before(end); n++ {
				if v := s.MustGet("app.one"); v != 1 {
					bad.Add(1)
				}
				if v := s.MustGet("app.two"); v != 2 {
					bad.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	if bad.Load() > 0 {
		t.Fatal("a key had the value of another one")
	}
}
'''
