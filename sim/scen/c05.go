package scen

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C05", Name: "close", Weight: 1, Gen: genC05, Run: runC05,
		Real: realStore, Stub: []string{"providers: simulated, watchable"}})
}

const c05keys = 8

func genC05(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.AnyCfg(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	p.I["views"] = g.Intn(3)
	nc := 1 + g.Intn(4)
	size := simrt.Choose(g.Rand, 4, 8, 14)
	jobs := 0
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+2; i++ {
			h := 0
			if g.Intn(3) == 0 {
				h = g.Intn(3)
			}
			var o core.Op
			switch g.Intn(12) {
			case 0, 1, 2, 3:
				jobs++
				ms := simrt.Choose(g.Rand, 1, 3, 10, 50)
				o = core.Op{K: "ttl", N: g.Intn(3), X: g.Intn(6), A: fmt.Sprint(g.Intn(c05keys)), D: int64(time.Duration(ms)*time.Millisecond + time.Duration(jobs)*time.Microsecond)}
				if g.Intn(8) == 0 {
					o.D = int64(g.Intn(400)) // next to nothing
				}
				if g.Intn(5) == 0 {
					o.D += int64(simrt.Choose(g.Rand, time.Minute, time.Hour)) // still pending at the end
				}
				if p.Sim.Mode == simrt.ModeAtomic && g.Intn(4) == 0 {
					o.C = "branch"
				}
			case 4, 5:
				o = core.Op{K: "close"}
			case 6, 7:
				o = core.Op{K: "load", N: g.Intn(4), X: g.Intn(4), D: int64(g.Intn(3)) * int64(time.Millisecond)}
			case 8, 9:
				o = sleepOp(g)
			case 10:
				o = core.Op{K: "set", A: fmt.Sprint(g.Intn(c05keys)), V: g.Str()}
			default:
				o = core.Op{K: "get", A: fmt.Sprint(g.Intn(c05keys))}
			}
			o.H = h
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

type closing struct {
	inv, ret int64
	at       time.Duration // when it returned
}

type c05job struct {
	h           int
	key         string
	ret         int64
	due         time.Duration
	rang        int
	cb, unknown bool
	pre         bool // a Close which must stop it has returned in time
}

type c05watch struct {
	h    int
	w    *watcher
	ret  int64
	want bool
}

func runC05(p *core.Prog) {
	root := store.New(store.WithWatchEnable(true))
	hs := []store.Store{root, root.WithPrefix("a"), root.N()}
	full := []string{"a.", "", "a."}
	for i := 0; i < c05keys; i++ {
		root.Set(fmt.Sprintf("a.k%d", i), "v")
	}
	var (
		closes = map[int][]*closing{}
		jobs   []*c05job
		ws     []*c05watch
		closer func(h int)
		dirty  = map[string]bool{"a.k1": true, "a.k2": true}
	)
	// stopped: a Close invoked after the job was set returned before it is due
	stopped := func(j *c05job) bool {
		for _, c := range closes[j.h] {
			if j.ret > 0 && c.ret > 0 && c.inv > j.ret && c.at < j.due {
				return true
			}
		}
		return false
	}
	abs := func(j *c05job) string {
		if j.h == 1 {
			return "a." + j.key
		}
		return j.key
	}
	setTTL := func(o core.Op, key string) {
		h := hs[o.H]
		// sub-200ns durations are ignored
		j := &c05job{h: o.H, key: key, due: simrt.Elapsed() + time.Duration(o.D), cb: o.X > 0}
		if o.D >= 200 {
			jobs = append(jobs, j)
		}
		var cb radix.OnTTLRinging[any]
		if j.cb {
			cb = func(s *radix.TTL[any], nd radix.Node[any]) {
				j.rang++
				simrt.Event("ring %s", key)
				if j.rang > 1 {
					fail("ttl-twice", "the TTL callback of %q ran %d times", key, j.rang)
				}
				if simrt.Elapsed() < j.due {
					fail("ttl-early", "the TTL of %q rang before it was due", key)
				}
				if stopped(j) {
					fail("ttl-after-close", "a TTL due at %v rang at %v though Close had returned before", j.due, simrt.Elapsed())
				}
				core.Nontrivial()
				switch o.X {
				case 2:
					count("probe:Close called by a TTL callback")
					closer(o.H)
				case 3:
					dirty[abs(j)] = true
					h.Set(key, "w")
				case 4:
					simrt.Sleep(3 * time.Millisecond) // slow
				}
			}
		}
		st := 0
		switch o.N {
		case 1:
			h.GetEx(key, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
				st = h.SetTTLFast(nd, time.Duration(o.D), cb)
			})
		default:
			st = h.SetTTL(key, time.Duration(o.D), cb)
		}
		if st != 0 && o.C == "" {
			fail("ttl-state", "SetTTL(%q) returned %d for an existing key", key, st)
		}
		j.ret = simrt.Seq()
	}
	closer = func(h int) {
		c := &closing{inv: simrt.Seq()}
		closes[h] = append(closes[h], c)
		simrt.Event("close h%d", h)
		hs[h].Close()
		simrt.Event("closed h%d", h)
		c.ret, c.at = simrt.Seq(), simrt.Elapsed()
		for _, x := range closes[h] {
			if x.ret == 0 {
				return // another Close is still at it
			}
		}
		for _, w := range ws {
			if w.h == h && w.want && w.ret > 0 && w.ret < c.inv {
				if w.w.closed != 1 {
					fail("not-closed", "Close returned, a watcher started before was closed %d times", w.w.closed)
				}
				count("probe:watcher closed")
				core.Nontrivial()
			}
		}
	}
	clients(p, func(c int, o core.Op) {
		h := hs[o.H]
		pre := full[o.H]
		switch o.K {
		case "ttl":
			if o.C == "branch" {
				// a branch of its own, nobody else uses it
				b := fmt.Sprintf("%sb%d", pre, len(jobs))
				h.Set(b+".x", 1)
				h.Set(b+".y", 1)
				setTTL(o, b)
				return
			}
			setTTL(o, pre+"k"+o.A)
		case "close":
			closer(o.H)
		case "load":
			pr := &provW{}
			pr.slow = time.Duration(o.D)
			pr.bg = true
			pr.data = map[string]store.ValPkg{pre + "k1": {Value: "loaded"}}
			if o.X == 1 {
				pr.err = errWatch
			}
			if o.X == 2 {
				pr.slowEnd = 2 * time.Millisecond
			}
			if o.X == 3 {
				pr.onQuit = func() {
					count("probe:the store is used by a watcher that is being closed")
					dirty["a.k3"] = true
					h.Set(pre+"k3", "last")
					closer(o.H)
				}
			}
			opts := []store.LoadOpt{store.WithProvider(pr)}
			if o.N == 1 {
				opts = append(opts, store.WithStorePrefix("a"))
				pr.data = map[string]store.ValPkg{"k2": {Value: "loaded"}}
			}
			if o.N == 2 {
				opts = append(opts, store.WithoutWatch(true))
			}
			w := &c05watch{h: o.H, w: &pr.watcher}
			ws = append(ws, w)
			wr, err := h.Load(context.TODO(), opts...)
			if err != nil {
				fail("load", "Load failed: %v", err)
			}
			w.want = wr != nil && o.N != 2 && o.X != 1
			if w.want && pr.watched != 1 {
				fail("not-watched", "Load returned a handle, its provider was watched %d times", pr.watched)
			}
			w.ret = simrt.Seq()
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "set":
			dirty["a.k"+o.A] = true
			h.Set(pre+"k"+o.A, mk(o.V))
		case "get":
			h.Get(pre + "k" + o.A)
		}
	})
	// later expiries
	for i := 0; i < 5; i++ {
		simrt.Sleep(100 * time.Millisecond)
		simrt.WaitIdle()
	}
	// a stall may jump over a long one before its timer was even started
	late := func(j *c05job) bool { return j.due >= time.Minute }
	for _, j := range jobs {
		if late(j) {
			count("probe:TTL pending at the last Close")
			continue
		}
		if j.cb && j.rang == 0 && len(closes[j.h]) == 0 {
			fail("ttl-lost", "the TTL of %q, due at %v, has not rung, and was not closed", j.key, j.due)
		}
	}
	nj := map[string]int{}
	for _, j := range jobs {
		nj[abs(j)]++
	}
	for _, j := range jobs {
		if k := abs(j); nj[k] == 1 && !dirty[k] {
			br := strings.HasPrefix(k, "a.b")
			if br {
				k += ".x"
			}
			v, ok := root.Get(k)
			switch {
			case !ok && !br:
				fail("get", "%q is gone", k)
			case br && !ok && stopped(j):
				fail("ttl-after-close", "%q was dropped by a TTL due at %v though Close had returned before", k, j.due)
			case stopped(j) && ok && v == nil:
				fail("ttl-after-close", "%q was cleared by a TTL due at %v though Close had returned before", k, j.due)
			case len(closes[j.h]) == 0 && v != nil && !late(j):
				fail("ttl-lost", "%q = %s was not cleared by its TTL due at %v, and nothing was closed", k, show(v), j.due)
			}
			count("probe:value compared after TTL or Close")
		}
	}
	for h := range hs {
		closer(h)
	}
	for h := range hs { // again: harmless
		closer(h)
	}
	for i := 0; i < 5; i++ { // a callback in progress may be sleeping
		simrt.Sleep(10 * time.Millisecond)
		simrt.WaitIdle()
	}
	for _, w := range ws {
		if w.w.cb != nil && w.w.closed != 1 {
			fail("not-closed", "all handles are closed, a watcher was closed %d times", w.w.closed)
		}
	}
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	simrt.Sleep(200 * time.Millisecond)
	simrt.WaitIdle()
}
