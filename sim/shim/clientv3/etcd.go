// Package clientv3 is the etcd client on a simulated etcd server.
package clientv3

import (
	"bytes"
	"context"
	"errors"
	"sort"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	p "go.etcd.io/etcd/client/v3"

	"verif/sim/simrt"
)

// Server is the simulated etcd of a run.
type Server struct {
	Rev      int64
	KVs      map[string]*mvccpb.KeyValue
	Hist     []*p.Event
	Watchers []*watcher
	Clients  int
	// decided by the scenario
	MaxBatch int // most events in a response, 0: unlimited
	Delay    func() time.Duration
	GetErrs  int           // the next n Gets fail
	GetDelay time.Duration // of the answers
	NewErrs  int           // the next n clients can't be made
	NewFails int
	Progress int // every n-th response is an empty progress notification
	nresp    int
	Gets     int
	GetFails int // failed Gets
}

// Get the server of the run.
func Get() *Server {
	return simrt.Val("etcd", func() any { return &Server{Rev: 1, KVs: map[string]*mvccpb.KeyValue{}} }).(*Server)
}

type watcher struct {
	s        *Server
	key, end []byte
	next     int // index in Hist
	ch       chan p.WatchResponse
	stop     chan struct{}
	kick     chan struct{}
	stopped  bool
	fatal    error
	Done     bool
	cl       *simClient

	noPut, noDel, prev, created bool // options
}

func in(key string, k, end []byte) bool {
	if len(end) == 0 {
		return key == string(k)
	}
	if len(end) == 1 && end[0] == 0 {
		return key >= string(k)
	}
	return bytes.Compare([]byte(key), k) >= 0 && bytes.Compare([]byte(key), end) < 0
}

// Put and Del change one key, in a revision of their own.
func (s *Server) Put(k, v string) { s.Rev++; s.put(k, v); s.kick() }
func (s *Server) Del(k string) bool {
	if s.KVs[k] == nil {
		return false
	}
	s.Rev++
	s.del(k)
	s.kick()
	return true
}

// Op of a transaction.
type TxOp struct {
	K, V string
	Del  bool
}

// Txn applies some changes (of different keys) in one revision.
func (s *Server) Txn(ops []TxOp) {
	s.Rev++
	n := len(s.Hist)
	for _, o := range ops {
		if o.Del {
			if s.KVs[o.K] != nil {
				s.del(o.K)
			}
		} else {
			s.put(o.K, o.V)
		}
	}
	if len(s.Hist) == n {
		s.Rev--
	}
	s.kick()
}

func (s *Server) put(k, v string) {
	kv := &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), ModRevision: s.Rev, CreateRevision: s.Rev, Version: 1}
	if o := s.KVs[k]; o != nil {
		kv.CreateRevision, kv.Version = o.CreateRevision, o.Version+1
	}
	s.KVs[k] = kv
	s.Hist = append(s.Hist, &p.Event{Type: p.EventTypePut, Kv: kv})
}

func (s *Server) del(k string) {
	delete(s.KVs, k)
	s.Hist = append(s.Hist, &p.Event{Type: p.EventTypeDelete, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: s.Rev}})
}

func (s *Server) kick() {
	for _, w := range s.Watchers {
		w.poke()
	}
}

func (w *watcher) poke() { simrt.TrySend((chan<- struct{})(w.kick), struct{}{}) }

// Break ends all the watches: with an error response first, if err is set.
func (s *Server) Break(err error) {
	for _, w := range s.Watchers {
		if !w.stopped {
			if err != nil {
				w.fatal = err
				w.poke()
			} else {
				w.finish()
			}
		}
	}
}

// Pending counts undelivered events.
func (s *Server) Pending() (n int) {
	for _, w := range s.Watchers {
		if !w.Done {
			for _, e := range s.Hist[w.next:] {
				if in(string(e.Kv.Key), w.key, w.end) {
					n++
				}
			}
		}
	}
	return
}

// LiveWatches counts those not ended.
func (s *Server) LiveWatches() (n int) {
	for _, w := range s.Watchers {
		if !w.Done {
			n++
		}
	}
	return
}

func (w *watcher) finish() {
	if !w.stopped {
		w.stopped = true
		simrt.Close((chan<- struct{})(w.stop))
	}
}

func (w *watcher) pump(ctx context.Context) {
	defer func() {
		w.Done = true
		if !simrt.Killed() {
			simrt.Close((chan<- p.WatchResponse)(w.ch))
		}
	}()
	done := ctx.Done()
	if w.created {
		r := p.WatchResponse{Header: &pb.ResponseHeader{Revision: w.s.Rev}, Created: true}
		if k := simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase((<-chan struct{})(w.stop)), simrt.SendCase((chan<- p.WatchResponse)(w.ch))(r)); k < 2 {
			return
		}
	}
	for {
		if w.stopped || ctx.Err() != nil {
			return
		}
		if w.fatal != nil {
			r := p.WatchResponse{Header: &pb.ResponseHeader{Revision: w.s.Rev}, Canceled: true, CompactRevision: w.s.Rev}
			simrt.Count("fault:etcd watch error")
			simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase((<-chan struct{})(w.stop)), simrt.SendCase((chan<- p.WatchResponse)(w.ch))(r))
			return
		}
		var evs []*p.Event
		n := w.next
		for n < len(w.s.Hist) {
			e := w.s.Hist[n]
			if w.s.MaxBatch > 0 && len(evs) >= w.s.MaxBatch && e.Kv.ModRevision != w.s.Hist[n-1].Kv.ModRevision {
				break
			}
			n++
			if in(string(e.Kv.Key), w.key, w.end) {
				if del := e.Type == p.EventTypeDelete; del && w.noDel || !del && w.noPut {
					continue
				}
				x := &p.Event{Type: e.Type, Kv: e.Kv}
				if w.prev {
					for _, o := range w.s.Hist[:n-1] {
						if string(o.Kv.Key) == string(e.Kv.Key) {
							if x.PrevKv = o.Kv; o.Type == p.EventTypeDelete {
								x.PrevKv = nil
							}
						}
					}
				}
				evs = append(evs, x)
			}
		}
		if len(evs) == 0 {
			w.next = n
			if k := simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase((<-chan struct{})(w.stop)), simrt.RecvCase((<-chan struct{})(w.kick))); k < 2 {
				return
			}
			continue
		}
		if w.s.Delay != nil {
			if d := w.s.Delay(); d > 0 {
				simrt.Count("fault:etcd watch delay")
				simrt.Sleep(d)
				if w.stopped || ctx.Err() != nil {
					return
				}
			}
		}
		if w.s.nresp++; w.s.Progress > 0 && w.s.nresp%w.s.Progress == 0 {
			simrt.Count("fault:etcd progress notification")
			r := p.WatchResponse{Header: &pb.ResponseHeader{Revision: w.s.Hist[n-1].Kv.ModRevision}}
			if k := simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase((<-chan struct{})(w.stop)), simrt.SendCase((chan<- p.WatchResponse)(w.ch))(r)); k < 2 {
				return
			}
		}
		if len(evs) > 1 {
			simrt.Count("probe:etcd batch of events")
		}
		r := p.WatchResponse{Header: &pb.ResponseHeader{Revision: w.s.Hist[n-1].Kv.ModRevision}, Events: evs}
		if k := simrt.Select(false, simrt.RecvCase(done), simrt.RecvCase((<-chan struct{})(w.stop)), simrt.SendCase((chan<- p.WatchResponse)(w.ch))(r)); k < 2 {
			return
		}
		w.next = n
	}
}

type simClient struct {
	p.KV
	s      *Server
	ws     []*watcher
	closed bool
}

func (c *simClient) Get(ctx context.Context, key string, opts ...p.OpOption) (_ *p.GetResponse, err error) {
	defer func() {
		if err != nil {
			c.s.GetFails++
		}
	}()
	simrt.SyncPoint()
	op := p.OpGet(key, opts...)
	c.s.Gets++
	if c.closed {
		return nil, context.Canceled
	}
	if d := c.s.GetDelay; d > 0 {
		simrt.Count("fault:etcd slow answer")
		if k := sleepOr(ctx, d); k {
			return nil, ctx.Err()
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if c.s.GetErrs > 0 {
		c.s.GetErrs--
		simrt.Count("fault:etcd get error")
		return nil, rpctypes.ErrNoLeader
	}
	var keys []string
	for k := range c.s.KVs {
		if in(k, op.KeyBytes(), op.RangeBytes()) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	r := &p.GetResponse{Header: &pb.ResponseHeader{Revision: c.s.Rev}, Count: int64(len(keys))}
	if op.IsCountOnly() {
		return r, nil
	}
	for _, k := range keys {
		kv := *c.s.KVs[k]
		if op.IsKeysOnly() {
			kv.Value = nil
		}
		if n := op.MinModRev(); n > 0 && kv.ModRevision < n {
			continue
		}
		if n := op.MaxModRev(); n > 0 && kv.ModRevision > n {
			continue
		}
		if n := op.MinCreateRev(); n > 0 && kv.CreateRevision < n {
			continue
		}
		if n := op.MaxCreateRev(); n > 0 && kv.CreateRevision > n {
			continue
		}
		if n := op.Limit(); n > 0 && int64(len(r.Kvs)) >= n {
			r.More = true
			break
		}
		r.Kvs = append(r.Kvs, &kv)
	}
	return r, nil
}

// sleepOr sleeps for d, and reports if the context ended first.
func sleepOr(ctx context.Context, d time.Duration) bool {
	tm := make(chan struct{}, 1)
	t := simrt.AddTimer(d, func() { simrt.TrySend((chan<- struct{})(tm), struct{}{}) })
	defer t.Cancel()
	return simrt.Select(false, simrt.RecvCase(ctx.Done()), simrt.RecvCase((<-chan struct{})(tm))) == 0
}

func (c *simClient) Put(ctx context.Context, key, val string, opts ...p.OpOption) (*p.PutResponse, error) {
	if c.closed {
		return nil, context.Canceled
	}
	c.s.Put(key, val)
	return &p.PutResponse{Header: &pb.ResponseHeader{Revision: c.s.Rev}}, nil
}

func (c *simClient) Delete(ctx context.Context, key string, opts ...p.OpOption) (*p.DeleteResponse, error) {
	if c.closed {
		return nil, context.Canceled
	}
	c.s.Del(key)
	return &p.DeleteResponse{Header: &pb.ResponseHeader{Revision: c.s.Rev}}, nil
}

func (c *simClient) Watch(ctx context.Context, key string, opts ...p.OpOption) p.WatchChan {
	simrt.SyncPoint()
	op := p.OpGet(key, opts...)
	ch := make(chan p.WatchResponse)
	if c.closed || ctx.Err() != nil {
		close(ch)
		return ch
	}
	w := &watcher{s: c.s, cl: c, key: append([]byte{}, op.KeyBytes()...), end: append([]byte{}, op.RangeBytes()...),
		ch: ch, stop: make(chan struct{}), kick: make(chan struct{}, 1),
		noPut: op.IsFilterPut(), noDel: op.IsFilterDelete(), prev: op.IsPrevKV(), created: op.IsCreatedNotify()}
	if rev := op.Rev(); rev > 0 {
		for w.next < len(c.s.Hist) && c.s.Hist[w.next].Kv.ModRevision < rev {
			w.next++
		}
	} else {
		w.next = len(c.s.Hist)
	}
	c.ws = append(c.ws, w)
	c.s.Watchers = append(c.s.Watchers, w)
	simrt.GoNamed("env:etcd-watch", func() { w.pump(ctx) })
	return ch
}

func (c *simClient) RequestProgress(ctx context.Context) error { return nil }

func (c *simClient) Close() error {
	if c.closed || simrt.Killed() {
		return nil
	}
	c.closed = true
	c.s.Clients--
	for _, w := range c.ws {
		w.finish()
	}
	return nil
}

// New connects to the simulated server.
func New(cfg p.Config) (*p.Client, error) {
	s := Get()
	if s.NewErrs > 0 {
		s.NewErrs--
		s.NewFails++
		return nil, errors.New("etcd: no endpoint available")
	}
	c := p.NewCtxClient(context.Background())
	sc := &simClient{s: s}
	c.KV, c.Watcher = sc, sc
	s.Clients++
	return c, nil
}

func NewFromURL(url string) (*p.Client, error)     { return New(p.Config{Endpoints: []string{url}}) }
func NewFromURLs(urls []string) (*p.Client, error) { return New(p.Config{Endpoints: urls}) }
func NewCtxClient(ctx context.Context, opts ...p.Option) *p.Client {
	c, _ := New(p.Config{})
	return c
}
