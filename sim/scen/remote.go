package scen

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"

	"verif/sim/core"
	simctx "verif/sim/shim/context"
	"verif/sim/simrt"
)

// A store fed by a remote key-value server: C12 (etcd) and C13 (consul).

// server is a simulated one.
type server interface {
	put(k, v string)
	del(k string)
	txn(ops []txOp)
	// afterLoad checks what the load has set beside the values, if nothing has changed since then
	afterLoad(r *remote)
	state() map[string]string
	provider(p *core.Prog) store.Provider
	fault(o core.Op) // sets faults up
	heal()           // ends them
	broken() bool    // the watch was ended by a fault
	pending() bool   // something is not delivered yet
	watches() int    // alive
	closable() bool  // Close may be called now
	gone() string    // what is left after Close
	mayFail() int    // clients which could not be made so far
	readErrs() int   // failed reads so far
}

// txOp is a change of a transaction.
type txOp struct {
	k, v string
	del  bool
}

type remote struct {
	p       *core.Prog
	srv     server
	s       store.Store
	t       *Tree // the user's own keys
	delim   string
	hist    []map[string]string // the states, normalized
	fps     []string
	low     int // the store is at least here
	high    int // and at most here, -1: no limit
	loaded  bool
	watch   bool
	ended   bool
	failed  int
	index0  uint64 // of the server when the load began
	pr      store.Provider
	closed  bool
	loading int
	closing bool
	ctx     context.Context
	loose   bool      // several watches: the states between are not known
	olds    []*remote // the stores before
}

// renew: the watch has ended, and another store is to be loaded, maybe by the
// same provider.
func (r *remote) renew() {
	if c, ok := r.srv.(*consulSrv); ok {
		c.polls, c.served = 0, map[string]uint64{}
	}
	if e, ok := r.srv.(*etcdSrv); ok {
		e.brk = false
	}
	old := *r
	r.olds = append(r.olds, &old)
	r.t = NewTree(".")
	r.s = r.newStore()
	r.high, r.loaded, r.ended, r.loose = -1, false, false, false
	if _, ok := r.srv.(*etcdSrv); ok && r.closed || r.p.Int("same") == 0 {
		r.pr = nil // a closed etcd client stays so
	} else {
		count("probe:provider used again")
	}
	r.closed = false
	count("probe:loaded again, into another store")
}

// newStore: its handlers may read it, and close it.
func (r *remote) newStore() (s store.Store) {
	opts := []store.Opt{store.WithWatchEnable(r.p.Int("allow") == 1)}
	if n := r.p.Int("uses"); n > 0 {
		told := func(path string) {
			s.Get(path)
			if n--; n == 0 && r.s == s && r.loaded && r.loading == 0 && !r.ended && r.p.Int("cancel") == 0 {
				r.closing = true
				s.Close()
				r.closing = false
				count("probe:closed by a handler")
				r.closed = true
				if r.watch {
					r.end()
				}
			}
		}
		opts = append(opts, store.WithOnNewHandlers(func(path string, value any, f bool) { told(path) }),
			store.WithOnChangeHandlers(func(path string, value, old any, f bool) { told(path) }),
			store.WithOnDeleteHandlers(func(path string, value any, f bool) { told(path) }))
	}
	s = store.New(opts...)
	return
}

// given is the prefix (or key) the provider is made with.
func given(p *core.Prog) string {
	if p.Int("pos") == 1 {
		return "elsewhere/"
	}
	return p.S["prefix"]
}

// norm is the reference of the key mapping; false: not ours.
func (r *remote) norm(k string) (string, bool) {
	p := r.p
	if p.Int("single") == 1 {
		if k != p.S["prefix"] {
			return "", false
		}
	} else if !strings.HasPrefix(k, p.S["prefix"]) {
		return "", false
	}
	if s := p.S["strip"]; s != "" {
		k = strings.TrimPrefix(k, s+"/")
	}
	if s := p.S["prepend"]; s != "" {
		k = s + p.S["delim"] + k
	}
	if d := p.S["delim"]; d != "" {
		k = strings.ReplaceAll(k, "/", d)
	}
	return k, true
}

func fp(m map[string]string) string {
	var sb strings.Builder
	for _, k := range simrt.SortedKeys(m) {
		fmt.Fprintf(&sb, "%q=%q;", k, m[k])
	}
	return sb.String()
}

// snap records the server's state after a change.
func (r *remote) snap() { r.snapOf(r.srv.state()) }

func (r *remote) snapOf(st map[string]string) {
	m := map[string]string{}
	for k, v := range st {
		if n, ok := r.norm(k); ok {
			if pre := r.p.S["at"]; pre != "" {
				n = pre + "." + n
			}
			m[n] = v
		}
	}
	f := fp(m)
	if len(r.fps) > 0 && r.fps[len(r.fps)-1] == f {
		return
	}
	r.hist, r.fps = append(r.hist, m), append(r.fps, f)
}

// read the store: the remote part, as a fingerprint.
func (r *remote) read() (string, map[string]string) {
	m, err := r.s.GetM("")
	if err != nil {
		fail("enum", "GetM failed: %v", err)
	}
	rem := map[string]string{}
	for k, v := range m {
		if e := r.t.M[k]; e != nil {
			if !same(v, e.V) {
				fail("other-key", "the key %q, not one of the source, is now %s instead of %s", k, show(v), show(e.V))
			}
			continue
		}
		s, ok := v.(string)
		if !ok {
			fail("value", "%q = %s", k, show(v))
		}
		rem[k] = s
	}
	for k := range r.t.M {
		if _, ok := m[k]; !ok {
			fail("other-key", "the key %q, not one of the source, has vanished", k)
		}
	}
	f := fp(rem)
	core.State(f)
	core.Nontrivial()
	return f, rem
}

// check: the store holds a state the server had, and never goes back.
func (r *remote) check(what string) {
	f, rem := r.read()
	if r.loose {
		return
	}
	if !r.loaded {
		if len(rem) > 0 {
			fail("unloaded", "%s: nothing was loaded, but the store has %v", what, rem)
		}
		return
	}
	for i := r.low; i < len(r.fps) && (r.high < 0 || i <= r.high); i++ {
		if r.fps[i] == f {
			r.low = i
			return
		}
	}
	for i, x := range r.fps {
		if x == f {
			if i > r.low {
				fail("late", "%s: the store has the state %d of the server, it may not be newer than %d: %v", what, i, r.high, rem)
			}
			fail("stale", "%s: the store went back to the state %d of the server, it had %d before: %v", what, i, r.low, rem)
		}
	}
	fail("state", "%s: the server never had what the store has: %v\n  latest: %v", what, rem, r.hist[len(r.hist)-1])
}

func (r *remote) load(o core.Op) {
	if r.loaded {
		if !r.ended && r.watch && o.K != "" {
			r.again()
		}
		if !r.ended || len(r.olds) > 2 {
			return
		}
		r.renew()
	}
	r.low = len(r.fps) - 1
	if c, ok := r.srv.(*consulSrv); ok {
		r.index0 = c.index
	}
	before, mays := r.srv.readErrs(), r.srv.mayFail()
	pr := r.pr
	if pr == nil {
		pr = r.srv.provider(r.p)
	}
	opts := []store.LoadOpt{store.WithProvider(pr)}
	if at := r.p.S["at"]; at != "" {
		opts = append(opts, store.WithStorePrefix(at))
	}
	if r.p.Int("pos") == 1 {
		opts = append(opts, store.WithPosition(r.p.S["prefix"]))
	}
	if r.p.Int("nowatch") == 1 {
		opts = append(opts, store.WithoutWatch(true))
	}
	ctx := context.Background()
	if r.p.Int("cancel") == 1 {
		c, cancel := simctx.WithCancel(ctx)
		ctx = c
		cancelFns := simrt.Val("cancels", func() any { return &[]func(){} }).(*[]func())
		*cancelFns = append(*cancelFns, cancel)
	}
	r.ctx = ctx
	simrt.Event("loading")
	began := simrt.Elapsed()
	wr, err := r.s.Load(ctx, opts...)
	simrt.Event("loaded %v %v", wr != nil, err)
	if e, ok := r.srv.(*etcdSrv); ok && simrt.Elapsed()-began > e.timeout(r.p)*3/2 {
		fail("load-stuck", "Load returned after %v (%v), the dial timeout is %v", simrt.Elapsed()-began, err, e.timeout(r.p))
	}
	if e, ok := r.srv.(*etcdSrv); ok && errors.Is(err, context.DeadlineExceeded) && simrt.Elapsed()-began < e.timeout(r.p)*9/10 {
		fail("load-early", "Load gave up after %v, the dial timeout is %v", simrt.Elapsed()-began, e.timeout(r.p))
	}
	if r.srv.readErrs() > before {
		if err == nil || wr != nil {
			fail("load-err", "the server failed, Load returned %v, %v", wr != nil, err)
		}
		count("probe:load failed")
		r.failed++
		return
	}
	if err != nil && wr == nil && r.srv.mayFail() > mays {
		count("probe:load failed")
		r.failed++
		return
	}
	if err != nil || wr == nil {
		fail("load", "Load returned %v, %v", wr != nil, err)
	}
	r.loaded, r.pr = true, pr
	r.srv.afterLoad(r)
	r.watch = r.p.Int("watch") == 1 && r.p.Int("allow") == 1 && r.p.Int("nowatch") == 0
	if !r.watch {
		r.high = len(r.fps) - 1
	}
}

// again loads what is being watched once more: another watch begins, and in the
// end all of them have applied everything.
func (r *remote) again() {
	r.loose = true
	before := r.srv.readErrs()
	opts := []store.LoadOpt{store.WithProvider(r.pr)}
	if at := r.p.S["at"]; at != "" {
		opts = append(opts, store.WithStorePrefix(at))
	}
	wr, err := r.s.Load(r.ctx, opts...)
	if (r.srv.readErrs() > before) != (err != nil || wr == nil) {
		fail("load", "Load, while watching, returned %v, %v", wr != nil, err)
	}
	count("probe:loaded again while watching")
}

func (r *remote) cancel() bool {
	cancelFns := simrt.Val("cancels", func() any { return &[]func(){} }).(*[]func())
	if len(*cancelFns) == 0 {
		return false
	}
	for _, f := range *cancelFns {
		f()
	}
	*cancelFns = nil
	return true
}

func (r *remote) end() {
	if !r.ended {
		r.ended = true
		r.high = len(r.fps) - 1
	}
}

func runRemote(p *core.Prog, srv server) {
	r := &remote{p: p, srv: srv, delim: ".", high: -1}
	r.t = NewTree(".")
	r.s = r.newStore()
	atomic := p.Sim.Mode == simrt.ModeAtomic
	r.snap()
	step := func(c int, o core.Op) {
		switch o.K {
		case "put":
			srv.put(o.A, strings.TrimPrefix(o.V, "s:"))
			r.snap()
		case "del":
			srv.del(o.A)
			r.snap()
		case "txn": // the store may be in the middle of it
			var ops []txOp
			st := srv.state()
			for _, k := range simrt.SortedKeys(o.M) {
				v := o.M[k]
				ops = append(ops, txOp{k, strings.TrimPrefix(v, "s:"), v == "-"})
			}
			count("probe:transaction")
			srv.txn(ops)
			for _, x := range ops {
				if x.del {
					delete(st, x.k)
				} else {
					st[x.k] = x.v
				}
				r.snapOf(st)
			}
		case "fault":
			srv.fault(o)
		case "heal":
			srv.heal()
		case "load":
			for i := 0; r.closing; i++ { // a handler is about to
				if i > 10000 {
					fail("no-progress", "Close in a handler does not return")
				}
				simrt.Sleep(time.Millisecond)
			}
			r.loading++
			r.load(o)
			r.loading--
		case "cancel":
			if r.loaded && p.Int("closes") == 0 && r.cancel() {
				count("probe:watch canceled")
				r.end()
			}
		case "close":
			for i := 0; i < 100 && !srv.closable(); i++ {
				simrt.Sleep(time.Millisecond)
			}
			if r.loaded && srv.closable() {
				r.s.Close()
				r.closed = true
				count("probe:closed")
				if r.watch {
					r.end()
				}
			}
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		default:
			if atomic {
				storeHandle(r.s, r.t, "").apply(o)
			}
		}
		if srv.broken() && !r.ended && r.watch {
			r.ended = true // it may be anywhere now
		}
		if atomic && c != 9 {
			r.check("running")
		}
	}
	for _, o := range p.Setup {
		step(9, o)
	}
	clients(p, step)
	if !r.loaded {
		// the faults are over
		srv.heal()
		r.load(core.Op{})
		if !r.loaded {
			fail("load", "Load still fails although the server works again")
		}
	}
	srv.heal()
	// quiet
	for i := 0; ; i++ {
		simrt.Sleep(200 * time.Millisecond)
		simrt.WaitIdle()
		if !srv.pending() || r.ended {
			break
		}
		if i > 2000 {
			fail("no-progress", "changes are still not delivered")
		}
	}
	if r.loose { // a watch may wait for minutes between its retries
		simrt.Sleep(10 * time.Minute)
		simrt.WaitIdle()
	}
	r.check("quiet")
	if r.watch && !r.ended && !srv.broken() {
		if f, rem := r.read(); f != r.fps[len(r.fps)-1] {
			fail("not-converged", "all is quiet, the store has %v, the server %v", rem, r.hist[len(r.hist)-1])
		}
		if srv.watches() == 0 {
			fail("not-watched", "nothing watches the server")
		}
		count("probe:converged")
	}
	if !r.watch && srv.watches() > 0 {
		fail("watched", "the server is watched though watching is disabled")
	}
	r.end()
	for i := 0; i < 500 && !srv.closable(); i++ {
		simrt.Sleep(10 * time.Millisecond)
	}
	r.s.Close()
	r.s.Close()
	r.cancel()
	for _, old := range r.olds {
		old.hist, old.fps = r.hist, r.fps
		old.check("the store before")
		old.s.Close()
	}
	simrt.WaitIdle()
	// changes from now on are not applied
	a, _ := r.read()
	for k := range srv.state() {
		srv.put(k, "late")
	}
	srv.put(p.S["prefix"]+"late", "late")
	for i := 0; i < 5; i++ {
		simrt.Sleep(time.Minute)
		simrt.WaitIdle()
	}
	if b, rem := r.read(); a != b {
		fail("late", "a change made after Close was applied: %v", rem)
	}
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	if g := srv.gone(); g != "" && r.watch {
		fail("leak", "after Close: %s", g)
	}
}

// genRemote makes the common part of the programs.
func genRemote(g *core.Gen, faults func() core.Op) *core.Prog {
	p := &core.Prog{Sim: g.AnyCfg(), I: map[string]int{"watch": 1, "allow": 1}, S: map[string]string{}}
	p.S["prefix"] = simrt.Choose(g.Rand, "app/", "app/", "app", "app/db/", "")
	p.S["delim"] = simrt.Choose(g.Rand, ".", ".", ".", "")
	p.S["strip"] = simrt.Choose(g.Rand, "", "app", "app/db")
	p.S["prepend"] = simrt.Choose(g.Rand, "", "", "conf", "conf.etcd")
	p.S["at"] = simrt.Choose(g.Rand, "", "", "rem", "rem.ote")
	for _, k := range []string{"watch", "allow"} {
		if g.Intn(12) == 0 {
			p.I[k] = 0
		}
	}
	if g.Intn(12) == 0 {
		p.I["nowatch"] = 1
	}
	if g.Intn(4) == 0 {
		p.I["cancel"] = 1
	}
	p.I["same"] = g.Intn(2)
	if g.Intn(4) == 0 {
		p.I["uses"] = 1 + g.Intn(12)
	}
	if g.Intn(4) == 0 && p.S["prefix"] != "" {
		p.I["pos"] = 1 // given by an option of Load
	}
	keys := []string{}
	for _, k := range properPool(g, simrt.Choose(g.Rand, 2, 4, 8), "/") {
		keys = append(keys, simrt.Choose(g.Rand, "app/", "app/", "app/", "app/db/", "app/db/", "app2/", "app2/", "other/", "other/", "app/conf/", "app/conf.etcd/", "app/app/", "conf/", "app/rem/", "app/db/app/db/")+k)
	}
	// no key is, once normalized, an ancestor of another, or the same
	r := &remote{p: p}
	var ok []string
	if p.S["prefix"] != "" && g.Intn(5) == 0 {
		p.I["single"] = 1
		p.S["prefix"] = core.Pick(g, keys)
	}
	user := []string{"user.a", "user.b.c", "us", "rem.oteX", "remot", "appx.y", "ap"}
	norm := map[string]bool{}
	for _, k := range keys {
		n, in := r.norm(k)
		if in {
			bad := n == "" || !plain(n, ".") || norm[n]
			for x := range norm {
				if strings.HasPrefix(x, n+".") || strings.HasPrefix(n, x+".") {
					bad = true
				}
			}
			full := n
			if at := p.S["at"]; at != "" {
				full = at + "." + n
			}
			for _, u := range user {
				if strings.HasPrefix(u+".", full+".") || strings.HasPrefix(full+".", u+".") {
					bad = true // not the user's keys
				}
			}
			if bad {
				continue
			}
			norm[n] = true
		}
		ok = append(ok, k)
	}
	if len(ok) == 0 {
		ok = []string{"app/only"}
	}
	keys = ok
	change := func() core.Op {
		k := core.Pick(g, keys)
		if g.Intn(3) == 0 {
			return core.Op{K: "del", A: k}
		}
		v := g.Str()
		if g.Intn(12) == 0 {
			v = "s:"
		}
		return core.Op{K: "put", A: k, V: v}
	}
	one := change
	change = func() core.Op {
		if g.Intn(5) > 0 {
			return one()
		}
		o := core.Op{K: "txn", M: map[string]string{}}
		for i := 1 + g.Intn(4); i > 0; i-- {
			if x := one(); x.K == "del" {
				o.M[x.A] = "-"
			} else {
				o.M[x.A] = x.V
			}
		}
		return o
	}
	for i := g.Intn(6); i > 0; i-- {
		p.Setup = append(p.Setup, change())
	}
	if p.Sim.Mode == simrt.ModeAtomic {
		for i := g.Intn(4); i > 0; i-- {
			p.Setup = append(p.Setup, core.Op{K: "set", A: core.Pick(g, user), V: g.Str()})
		}
	}
	size := simrt.Choose(g.Rand, 6, 12, 24)
	nc := 1 + g.Intn(3)
	at := g.Intn(4)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			if c == 0 && i == at {
				ops = append(ops, core.Op{K: "load"})
			}
			switch n := g.Intn(16); {
			case n < 8:
				ops = append(ops, change())
			case n < 10:
				ops = append(ops, core.Op{K: "sleep", D: int64(simrt.Choose(g.Rand, 1, 1, 1, 5, 5, 5, 50, 50, 400, 400, 7_000_000)) * int64(time.Millisecond)})
			case n < 12:
				ops = append(ops, faults())
			case n == 12:
				ops = append(ops, core.Op{K: "set", A: core.Pick(g, user), V: g.Str()})
			case n == 13:
				ops = append(ops, core.Op{K: "remove", A: core.Pick(g, user)})
			case n == 14:
				ops = append(ops, core.Op{K: "heal"})
			case c == 0 && i > at:
				if g.Intn(4) == 0 {
					ops = append(ops, core.Op{K: simrt.Choose(g.Rand, "close", "cancel")})
				} else {
					ops = append(ops, core.Op{K: "load"})
				}
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}
