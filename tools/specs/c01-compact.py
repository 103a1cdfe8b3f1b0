id='c01-compact'; prop='C01'
needs='two keys that split a branch, one of them annotated, then the other one removed'
breaks='path compression after Remove moves the only sibling up but loses its description, comment and tag'
edits=[('radix/trie.go','''				nodeRemoved, nodeParent = node, parent
''','''				nodeRemoved, nodeParent = node, parent
				parent.compact()
'''),('radix/node.go','''func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
	ml := min(len(word), len(s.path))
''','''// compact merges a pure branch with its only child.
func (s *nodeS[T]) compact() {
	if len(s.path) == 0 || !s.isBranch() || len(s.children) != 1 {
		return
	}
	only := s.children[0]
	path := make([]rune, 0, len(s.path)+len(only.path))
	s.path, s.pathS = append(append(path, s.path...), only.path...), only.pathS
	s.children, s.data, s.nType = only.children, only.data, only.nType
}

func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
	ml := len(word)
	if n := len(s.path); n < ml {
		ml = n
	}
''')]
demo='''
package store_test

import (
	"testing"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	s.Set("app.level", 1)
	s.Set("app.lever", 2)
	s.SetComment("app.level", "desc", "comment")
	if !s.Remove("app.lever") {
		t.Fatal("not removed")
	}
	if c, err := s.GetComment("app.level"); err != nil || c != "comment" {
		t.Fatalf("comment lost: %q %v", c, err)
	}
}
'''
