package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/hashicorp/consul/api"

	"github.com/hedzr/store"
	pconsul "github.com/hedzr/store/providers/consul"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C13", Name: "consul", Weight: 1, Gen: genC13, Run: runC13,
		Real: append([]string{"providers/consul", "hashicorp/consul/api client and watch plan"}, realStore...), Stub: []string{"consul agent: simulated behind http.RoundTripper", "clock, goroutines: simulated"}})
}

func genC13(g *core.Gen) *core.Prog {
	p := genRemote(g, func() core.Op {
		o := core.Op{K: "fault", A: simrt.Choose(g.Rand, "error", "500", "garbage", "slow", "spurious", "coalesce", "late", "noconfig", "restore")}
		o.N, o.D = 1+g.Intn(3), int64(simrt.Choose(g.Rand, 1, 20, 300, 3000))*int64(time.Millisecond)
		return o
	})
	p.I["cancel"] = 0
	if p.S["prefix"] == "" {
		p.S["prefix"] = "app/" // can't be watched otherwise
	}
	p.I["meta"] = g.Intn(2)
	for _, ops := range p.Clients {
		for i := range ops {
			if ops[i].K == "sleep" && g.Intn(12) == 0 {
				ops[i].D = int64(6 * time.Minute) // longer than a long poll
			}
		}
	}
	return p
}

type ckv struct {
	v              string
	create, modify uint64
}

// consulSrv is a simulated agent.
type consulSrv struct {
	kvs    map[string]*ckv
	tomb   map[string]uint64 // when keys were removed
	index  uint64
	waits  []*cwait
	served map[string]uint64 // path: index of the latest good answer which arrived

	errs, n500, bad, spurious int
	slow, coalesce            time.Duration
	noconf                    int // the configuration is missing
	late                      int // the answers are lost after they were computed

	watching bool // a watch is expected
	fails    int
	fails2   int
	polls    int
	inflight int
	key      string
	single   bool
	epoch    int // how often it was restored
}

type cwait struct{ kick chan struct{} }

func (c *consulSrv) touch() {
	for _, w := range c.waits {
		simrt.TrySend((chan<- struct{})(w.kick), struct{}{})
	}
}

func (c *consulSrv) put(k, v string) {
	c.index++
	if e := c.kvs[k]; e != nil {
		e.v, e.modify = v, c.index
	} else {
		c.kvs[k] = &ckv{v, c.index, c.index}
	}
	c.touch()
}

func (c *consulSrv) del(k string) {
	if c.kvs[k] != nil {
		c.index++
		delete(c.kvs, k)
		c.tomb[k] = c.index
		c.touch()
	}
}

func (c *consulSrv) txn(ops []txOp) {
	c.index++
	for _, o := range ops {
		if o.del {
			if c.kvs[o.k] != nil {
				delete(c.kvs, o.k)
				c.tomb[o.k] = c.index
			}
		} else if e := c.kvs[o.k]; e != nil {
			e.v, e.modify = o.v, c.index
		} else {
			c.kvs[o.k] = &ckv{o.v, c.index, c.index}
		}
	}
	c.touch()
}

// restore: the servers were restored from a snapshot; the indexes are lower now.
func (c *consulSrv) restore() {
	if c.epoch >= 15 {
		return
	}
	count("fault:consul index goes back")
	c.index = uint64(15-c.epoch) * 1000 // none is used twice
	for _, k := range simrt.SortedKeys(c.kvs) {
		c.index++
		c.kvs[k].create, c.kvs[k].modify = c.index, c.index
	}
	c.tomb = map[string]uint64{}
	c.epoch++
	for _, w := range c.waits {
		simrt.TrySend((chan<- struct{})(w.kick), struct{}{})
	}
}

// afterLoad: the meta data of the keys are in their tags.
func (c *consulSrv) afterLoad(r *remote) {
	if c.index != r.index0 || r.p.Int("meta") == 0 || r.p.Sim.Mode != simrt.ModeAtomic {
		return
	}
	for _, k := range simrt.SortedKeys(c.kvs) {
		e := c.kvs[k]
		n, ok := r.norm(k)
		if e == nil || !ok {
			continue
		}
		if at := r.p.S["at"]; at != "" {
			n = at + "." + n
		}
		cr, mo, v := e.create, e.modify, e.v
		tag, err := r.s.GetTag(n)
		if c.index != r.index0 {
			return // changed by another client
		}
		m, _ := tag.(map[string]any)
		u := func(n uint64) string { return strconv.FormatUint(n, 10) }
		for _, x := range [][2]string{{"CreateIndex", u(cr)}, {"ModifyIndex", u(mo)}, {"Value", v}} {
			if err != nil || m[x[0]] != x[1] {
				fail("meta", "%q was loaded with the metadata %v (%v), %s should be %q", n, tag, err, x[0], x[1])
			}
		}
		count("probe:metadata checked")
	}
}

func (c *consulSrv) state() map[string]string {
	m := map[string]string{}
	for k, e := range c.kvs {
		m[k] = e.v
	}
	return m
}

func (c *consulSrv) match(k, path string, recurse bool) bool {
	return k == path || recurse && strings.HasPrefix(k, path)
}

// at is the index of a path.
func (c *consulSrv) at(path string, recurse bool) (n uint64) {
	n = 1
	for k, e := range c.kvs {
		if c.match(k, path, recurse) {
			n = max(n, e.modify)
		}
	}
	for k, i := range c.tomb {
		if c.match(k, path, recurse) {
			n = max(n, i)
		}
	}
	return
}

var errConn = errors.New("injected connection error")

func (c *consulSrv) RoundTrip(req *http.Request) (res *http.Response, err error) {
	c.inflight++
	defer func() { c.inflight-- }()
	simrt.SyncPoint()
	ctx := req.Context()
	q := req.URL.Query()
	path := strings.TrimPrefix(req.URL.Path, "/v1/kv/")
	_, recurse := q["recurse"]
	index, _ := strconv.ParseUint(q.Get("index"), 10, 64)
	poll := ctx.Done() != nil
	if poll {
		c.polls++
	}
	defer func() {
		if err != nil || res.StatusCode >= 500 {
			if !poll {
				c.fails++
			}
		}
	}()
	if c.errs > 0 {
		c.errs--
		count("fault:consul connection error")
		return nil, errConn
	}
	answer := func(status int, body []byte, idx uint64) *http.Response {
		h := http.Header{}
		h.Set("X-Consul-Index", fmt.Sprint(idx))
		h.Set("X-Consul-Lastcontact", "0")
		h.Set("X-Consul-Knownleader", "true")
		h.Set("Content-Type", "application/json")
		return &http.Response{StatusCode: status, Status: fmt.Sprint(status), Header: h, Body: io.NopCloser(bytes.NewReader(body)), Request: req, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: int64(len(body))}
	}
	if c.n500 > 0 {
		c.n500--
		count("fault:consul 500")
		return answer(500, []byte("no leader"), 0), nil
	}
	if index > 0 {
		w := &cwait{make(chan struct{}, 1)}
		c.waits = append(c.waits, w)
		wait := make(chan struct{}, 1)
		tm := simrt.AddTimer(5*time.Minute, func() { simrt.TrySend((chan<- struct{})(wait), struct{}{}) })
		epoch := c.epoch // blocking queries end when the state store is replaced
		for done := false; !done && epoch == c.epoch && c.at(path, recurse) <= index; {
			switch simrt.Select(false, simrt.RecvCase(ctx.Done()), simrt.RecvCase((<-chan struct{})(wait)), simrt.RecvCase((<-chan struct{})(w.kick))) {
			case 0:
				tm.Cancel()
				c.drop(w)
				return nil, ctx.Err()
			case 1:
				done = true
				count("probe:consul long poll timed out")
			case 2:
				if c.spurious > 0 {
					c.spurious--
					count("fault:consul spurious answer")
					done = true
				}
			}
		}
		tm.Cancel()
		c.drop(w)
		if c.coalesce > 0 {
			if c.sleep(req, c.coalesce) {
				return nil, ctx.Err()
			}
		}
	}
	idx := c.at(path, recurse)
	var l []map[string]any
	for _, k := range simrt.SortedKeys(c.kvs) {
		if e := c.kvs[k]; c.match(k, path, recurse) {
			l = append(l, map[string]any{"Key": k, "Value": []byte(e.v), "CreateIndex": e.create, "ModifyIndex": e.modify, "Flags": 0, "LockIndex": 0})
		}
	}
	body, _ := json.Marshal(l)
	status := 200
	if len(l) == 0 {
		status, body = 404, nil
	}
	if c.slow > 0 {
		count("fault:consul slow answer")
		if c.sleep(req, c.slow) {
			return nil, ctx.Err()
		}
	}
	if c.late > 0 {
		c.late--
		count("fault:consul answer lost")
		return nil, errConn
	}
	if c.bad > 0 && status == 200 {
		c.bad--
		count("fault:consul garbled answer")
		if !poll {
			c.fails++
		}
		return answer(200, body[:len(body)/2], idx), nil
	}
	if ctx.Err() == nil && poll {
		c.served[path] = idx
	}
	return answer(status, body, idx), nil
}

// sleep; true: the request was canceled.
func (c *consulSrv) sleep(req *http.Request, d time.Duration) bool {
	tm := make(chan struct{}, 1)
	t := simrt.AddTimer(d, func() { simrt.TrySend((chan<- struct{})(tm), struct{}{}) })
	defer t.Cancel()
	return simrt.Select(false, simrt.RecvCase(req.Context().Done()), simrt.RecvCase((<-chan struct{})(tm))) == 0
}

func (c *consulSrv) drop(w *cwait) {
	for i, x := range c.waits {
		if x == w {
			c.waits = append(c.waits[:i], c.waits[i+1:]...)
			return
		}
	}
}

func (c *consulSrv) provider(p *core.Prog) store.Provider {
	cfg := &api.Config{Address: "consul.sim:8500", Scheme: "http", HttpClient: &http.Client{Transport: c}}
	opts := []pconsul.Opt{pconsul.WithConsulConfig(cfg), pconsul.WithWatchEnabled(p.Int("watch") == 1), pconsul.WithPosition(given(p)),
		pconsul.WithRecursive(p.Int("single") == 0), pconsul.WithProcessMeta(p.Int("meta") == 1)}
	if s := p.S["strip"]; s != "" {
		opts = append(opts, pconsul.WithStripPrefix(s))
	}
	if s := p.S["prepend"]; s != "" {
		opts = append(opts, pconsul.WithPrependPrefix(s))
	}
	if s := p.S["delim"]; s != "" {
		opts = append(opts, pconsul.WithDelimiter(s))
	}
	if c.noconf > 0 {
		c.noconf--
		c.fails2++
		count("fault:consul configuration missing")
		opts = opts[1:]
	}
	return pconsul.New(opts...)
}

func (c *consulSrv) fault(o core.Op) {
	switch o.A {
	case "error":
		c.errs = o.N
	case "500":
		c.n500 = o.N
	case "garbage":
		c.bad = o.N
	case "slow":
		c.slow = time.Duration(o.D)
	case "spurious":
		c.spurious = o.N
	case "coalesce":
		c.coalesce = time.Duration(o.D)
	case "late":
		c.late = o.N
	case "restore":
		c.restore()
	case "noconfig":
		c.noconf = o.N
	}
}
func (c *consulSrv) heal() {
	c.errs, c.n500, c.bad, c.slow, c.spurious, c.coalesce, c.late, c.noconf = 0, 0, 0, 0, 0, 0, 0, 0
}
func (c *consulSrv) broken() bool  { return false }
func (c *consulSrv) mayFail() int  { return 0 }
func (c *consulSrv) readErrs() int { return c.fails + c.fails2 }
func (c *consulSrv) pending() bool {
	// the client library may wait for minutes between its retries
	return c.watching && (c.inflight == 0 || c.served[c.key] != c.at(c.key, !c.single))
}
func (c *consulSrv) watches() int   { return c.inflight }
func (c *consulSrv) closable() bool { return true }
func (c *consulSrv) gone() string {
	if c.inflight > 0 {
		return fmt.Sprintf("%d requests are still there", c.inflight)
	}
	return ""
}

func runC13(p *core.Prog) {
	c := &consulSrv{kvs: map[string]*ckv{}, tomb: map[string]uint64{}, index: 100000, served: map[string]uint64{}, key: p.S["prefix"], single: p.Int("single") == 1}
	c.watching = p.Int("watch") == 1 && p.Int("allow") == 1 && p.Int("nowatch") == 0
	runRemote(p, c)
}
