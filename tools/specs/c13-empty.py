id='c13-empty'; prop='C13'
pkg='providers/consul'
needs='a key whose value is the empty string'
breaks='keys with an empty value are taken for folders and not loaded, and the watcher does not deliver them either: the store does not have them'
edits=[('providers/consul/consul.go','''			for _, pair = range pairs {
''','''			for _, pair = range pairs {
				if len(pair.Value) == 0 {
					continue // a folder
				}
''')]
demo='''
package consul

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/hashicorp/consul/api"

	"github.com/hedzr/store"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Consul-Index", "9")
		_ = json.NewEncoder(w).Encode(api.KVPairs{
			{Key: "app/x", Value: []byte("1"), CreateIndex: 3, ModifyIndex: 3},
			{Key: "app/y", Value: []byte(""), CreateIndex: 4, ModifyIndex: 4},
		})
	}))
	defer srv.Close()
	p := New(WithPrefix("app"), WithDelimiter("."), WithConsulConfig(&api.Config{Address: srv.URL}))
	s := store.New()
	if _, err := s.Load(context.Background(), store.WithProvider(p)); err != nil {
		t.Fatal(err)
	}
	if s.MustString("app.x") != "1" || !s.Has("app.y") {
		t.Fatal(s.Dump())
	}
}
'''
