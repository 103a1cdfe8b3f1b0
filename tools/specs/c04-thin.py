id='c04-thin'; prop='C04'
needs='a branch with a pending TTL that shrinks to one key before the TTL rings'
breaks='a branch that has only one key left is cleared like a leaf instead of being dropped'
edits=[('radix/trie.go','''					if job.node.isBranch() {
''','''					if job.node.isBranch() && len(job.node.children) > 1 {
''')]
demo='''
package store_test

import (
	"testing"
	"time"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	defer s.Close()
	s.Set("app.x", 1)
	s.Set("app.y", 2)
	s.Set("zoo", 2)
	s.SetTTL("app", 50*time.Millisecond, nil)
	s.Remove("app.y")
	time.Sleep(300 * time.Millisecond)
	if s.Has("app.x") {
		t.Fatal("app.x outlived the TTL of its branch")
	}
}
'''
