id='c12-txn'; prop='C12'
pkg='providers/etcd'
needs='a transaction that changes several keys at once, so that their events carry the same revision'
breaks='the watcher drops events of a revision it has seen as replays: the other keys of a transaction are never updated'
edits=[('providers/etcd/etcd.go','''				for _, ev := range wresp.Events {
''','''				for _, ev := range wresp.Events {
					if ev.Kv.ModRevision <= seen {
						continue // replayed after a reconnection
					}
					seen = ev.Kv.ModRevision
'''),('providers/etcd/etcd.go','''	var lastChange = changeS{provider: s}
''','''	var lastChange = changeS{provider: s}
	var seen int64
''')]
DEMO='''
package etcd

import (
	"context"
	"testing"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"

	"github.com/hedzr/store"
)

type demoEtcd struct {
	clientv3.KV
	clientv3.Watcher
	ch  chan clientv3.WatchResponse
	kvs []*mvccpb.KeyValue
}

func (d *demoEtcd) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return &clientv3.GetResponse{Kvs: d.kvs}, nil
}
func (d *demoEtcd) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan { return d.ch }
func (d *demoEtcd) Close() error                                                          { return nil }

func kv(k, v string, create, mod int64) *mvccpb.KeyValue {
	return &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), CreateRevision: create, ModRevision: mod, Version: 1 + mod - create}
}

func TestDemo(t *testing.T) {
	d := &demoEtcd{ch: make(chan clientv3.WatchResponse), kvs: []*mvccpb.KeyValue{kv("app/x", "1", 2, 2), kv("app/y", "1", 3, 3)}}
	p := New(WithStorePrefix("app"), WithDelimiter("."), WithRecursive(true), WithWatchEnabled(true), WithDialTimeout(time.Second))
	p.Client = clientv3.NewCtxClient(context.Background())
	p.Client.KV, p.Client.Watcher = d, d
	s := store.New()
	s.WithPrefix("")
	st := store.New(store.WithWatchEnable(true))
	if _, err := st.Load(context.Background(), store.WithProvider(p)); err != nil {
		t.Fatal(err)
	}
	if st.MustString("app.x") != "1" || st.MustString("app.y") != "1" {
		t.Fatal("not loaded")
	}
	put := func(k, v string, c, m int64) *clientv3.Event {
		return &clientv3.Event{Type: clientv3.EventTypePut, Kv: kv(k, v, c, m)}
	}
	for _, evs := range [][]*clientv3.Event{%s, {put("app/z", "end", 9, 9)}, {}} {
		d.ch <- clientv3.WatchResponse{Events: evs}
	}
	if st.MustString("app.z") != "end" {
		t.Fatal("not watching")
	}
	if x, y := st.MustString("app.x"), st.MustString("app.y"); x != %s || y != %s {
		t.Fatalf("x=%%q y=%%q", x, y)
	}
}
'''.replace('''	s := store.New()
	s.WithPrefix("")
''','')
demo=DEMO%('{put("app/x", "2", 2, 5), put("app/y", "2", 3, 5)}','"2"','"2"')
