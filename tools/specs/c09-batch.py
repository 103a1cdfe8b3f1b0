id='c09-batch'; prop='C09'
needs='a remove event with several keys, one of which is not in the store (any more)'
breaks='the keys after a missing one are not removed'
edits=[('load.go','''			s.Remove(key)
			logz.Debug("removed: "''','''			if !s.Remove(key) {
				break
			}
			logz.Debug("removed: "''')]
demo='''
package store_test

import (
	"context"
	"testing"
	"time"

	"github.com/hedzr/store"
)

type demoSrc struct{ cb func(event any, err error) }

func (*demoSrc) Read() (map[string]store.ValPkg, error) {
	return map[string]store.ValPkg{"a": {Value: 1}, "c": {Value: 3}}, nil
}
func (*demoSrc) GetCodec() store.Codec { return nil }
func (*demoSrc) GetPosition() string   { return "" }
func (*demoSrc) WithCodec(store.Codec) {}
func (*demoSrc) WithPosition(string)   {}
func (*demoSrc) Close()                {}
func (d *demoSrc) Watch(ctx context.Context, cb func(event any, err error)) error {
	d.cb = cb
	return nil
}

type demoChange struct{ keys []string }

func (d *demoChange) Next() (string, any, bool) {
	if len(d.keys) == 0 {
		return "", nil, false
	}
	k := d.keys[0]
	d.keys = d.keys[1:]
	return k, nil, true
}
func (*demoChange) Path() string             { return "" }
func (*demoChange) Op() store.Op             { return store.OpRemove }
func (*demoChange) Has(op store.Op) bool     { return op == store.OpRemove }
func (*demoChange) Timestamp() time.Time     { return time.Now() }
func (*demoChange) Provider() store.Provider { return nil }

func TestDemo(t *testing.T) {
	s := store.New(store.WithWatchEnable(true))
	defer s.Close()
	src := &demoSrc{}
	if _, err := s.Load(context.TODO(), store.WithProvider(src)); err != nil || src.cb == nil {
		t.Fatal(err)
	}
	src.cb(&demoChange{[]string{"a", "b", "c"}}, nil)
	if s.Has("a") || s.Has("c") {
		t.Fatal("not removed")
	}
}
'''
