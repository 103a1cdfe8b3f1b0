id='c10-view'; prop='C10'
needs='a key removed through a view of a view, or through a view of the store which owns the delete handlers'
breaks='the delete handlers are notified of a removal through the store itself and its direct views only'
edits=[('store.go','''	if ptr.parent != nil {
		ptr = ptr.parent
		goto retryPD
	}
''','''	if ptr = ptr.parent; ptr != nil && ptr.parent == nil {
		goto retryPD
	}
''')]
demo='''
package store_test

import (
	"testing"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	n := 0
	s := store.New(store.WithOnDeleteHandlers(func(string, any, bool) { n++ }))
	s.Set("a.b.c", 1)
	s.Set("a.b.d", 2)
	s.Set("a.b.e", 3)
	s.Remove("a.b.c")
	s.WithPrefix("a").Remove("b.d")
	s.WithPrefix("a").WithPrefix("b").Remove("e")
	if n != 3 {
		t.Fatalf("%d of 3 removals were notified", n)
	}
}
'''
