id='c02-shallow'; prop='C02'
needs='a slice or map value, a duplicate of the store, and an in-place change of the value through one of them'
breaks='Dup shares slice and map values with the original'
edits=[('radix/node.go','''	data := evendeep.MakeClone(s.Data())
	switch z := data.(type) {
''','''	var data any = s.Data()
	if reflect.ValueOf(data).Kind() == reflect.Ptr {
		data = evendeep.MakeClone(data)
	}
	switch z := data.(type) {
'''),('radix/node.go','''	"fmt"
	"strings"
''','''	"fmt"
	"reflect"
	"strings"
''')]
demo='''
package store_test

import (
	"testing"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	s := store.New()
	s.Set("a.list", []any{1, 2})
	d := s.Dup()
	d.MustGet("a.list").([]any)[0] = 9
	if x := s.MustGet("a.list").([]any)[0]; x != 1 {
		t.Fatalf("the original changed: %v", x)
	}
}
'''
