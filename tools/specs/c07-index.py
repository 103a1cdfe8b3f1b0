id='c07-index'; prop='C07'
needs='flattenSlice on, and a slice of two or more maps with any-typed keys in the source'
breaks='the second and later elements of a slice of map[any]any are put at a wrong key'
edits=[('load.go','''				ec.Attach(s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet))
				buf = buf[:0]
''','''				if err := s.loadMapAny(mm, s.join(position, string(buf)), creating, onSet); err != nil {
					ec.Attach(err)
					buf = buf[:0]
				}
''')]
demo='''
package store_test

import (
	"testing"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New(store.WithFlattenSlice(true))
	s.Merge("", map[string]any{"l": []map[any]any{{"a": 1}, {"a": 2}}})
	for k, v := range map[string]any{"l.0.a": 1, "l.1.a": 2} {
		if x, ok := s.Get(k); !ok || x != v {
			t.Fatalf("%s = %v, %v", k, x, ok)
		}
	}
}
'''
