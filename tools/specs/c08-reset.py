id='c08-reset'; prop='C08'
needs='two saves with a change in between, and a restart from what the second one wrote'
breaks='a successful Save resets the modified state of the nodes, so that the next one forgets the earlier changes'
edits=[('load.go','''		logz.DebugContext(ctx, "Write-Back checking", "src", s.provider)
		if m, err = s.GetM("",
			WithFilter(func(node radix.Node[any]) bool {
				return node.Modified() // && !strings.HasPrefix(node.Key(), "app.cmd.")
			}),
''','''		logz.DebugContext(ctx, "Write-Back checking", "src", s.provider)
		var nodes []radix.Node[any]
		defer func() {
			if err == nil {
				for _, node := range nodes {
					node.SetModified(false)
				}
			}
		}()
		if m, err = s.GetM("",
			WithFilter(func(node radix.Node[any]) bool {
				if node.Modified() {
					nodes = append(nodes, node)
				}
				return node.Modified() // && !strings.HasPrefix(node.Key(), "app.cmd.")
			}),
''')]
demo='''
package store_test

import (
	"context"
	"encoding/json"
	"strings"
	"testing"

	"github.com/hedzr/store"
)

type demoSrc struct{ b []byte }

func (*demoSrc) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (d *demoSrc) ReadBytes() ([]byte, error)           { return d.b, nil }
func (d *demoSrc) Write(b []byte) error                 { d.b = b; return nil }
func (*demoSrc) GetCodec() store.Codec                  { return nil }
func (*demoSrc) GetPosition() string                    { return "" }
func (*demoSrc) WithCodec(store.Codec)                  {}
func (*demoSrc) WithPosition(string)                    {}

type demoJSON struct{}

func (demoJSON) Marshal(m map[string]any) ([]byte, error) { return json.Marshal(m) }
func (demoJSON) Unmarshal(b []byte) (m map[string]any, err error) {
	err = json.Unmarshal(b, &m)
	return
}

func TestDemo(t *testing.T) {
	s := store.New()
	src := &demoSrc{b: []byte(`{"a":1}`)}
	wr, err := s.Load(context.TODO(), store.WithProvider(src), store.WithCodec(demoJSON{}))
	if err != nil || wr == nil {
		t.Fatal(wr, err)
	}
	for _, k := range []string{"one", "two"} {
		s.Set(k, k)
		if err = wr.Save(context.TODO()); err != nil {
			t.Fatal(err)
		}
	}
	if !strings.Contains(string(src.b), "one") || !strings.Contains(string(src.b), "two") {
		t.Fatalf("saved: %s", src.b)
	}
}
'''
