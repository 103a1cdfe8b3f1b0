package scen

import (
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C03", Name: "leaf-ops", Weight: 2, Gen: genC03, Run: runTTL, Real: realStore})
	core.Register(&core.Scen{Prop: "C03", Name: "leaf-stmt", Weight: 2, Gen: genC03s, Run: runC03s, Real: realStore})
	core.Register(&core.Scen{Prop: "C04", Name: "branch-ops", Weight: 3, Gen: genC04, Run: runTTL, Real: realStore})
	core.Register(&core.Scen{Prop: "C04", Name: "branch-readers", Weight: 1, Gen: genC04r, Run: runC04r, Real: realStore})
}

func genTTL(g *core.Gen, branch bool) *core.Prog {
	p := &core.Prog{Sim: g.Atomic(), I: map[string]int{}, S: map[string]string{"delim": "."}}
	if g.Intn(8) == 0 {
		p.S["delim"] = "/"
	}
	d := p.S["delim"]
	p.I["trie"] = g.Intn(5) / 4
	var keys []string
	if g.Intn(2) == 0 {
		keys = properPool(g, simrt.Choose(g.Rand, 3, 6, 10), d)
	} else {
		keys = keyPool(g, simrt.Choose(g.Rand, 3, 6, 10), d)
	}
	// handle 1: a view on the first piece of a key
	k := core.Pick(g, keys)
	if i := strings.Index(k, d); i > 0 {
		p.S["prefix"] = k[:i]
	}
	rel := func(h int) []string {
		if h == 0 {
			return keys
		}
		var l []string
		for _, k := range keys {
			if strings.HasPrefix(k, p.S["prefix"]+d) {
				l = append(l, k[len(p.S["prefix"])+1:])
			}
		}
		if len(l) == 0 {
			return keys
		}
		return l
	}
	jobs := 0
	nc := 1 + g.Intn(3)
	for i := g.Intn(8); i > 0; i-- {
		p.Setup = append(p.Setup, core.Op{K: "set", A: core.Pick(g, keys), V: g.Uniq()})
	}
	size := simrt.Choose(g.Rand, 6, 12, 24)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+3; i++ {
			h := 0
			if p.S["prefix"] != "" {
				h = g.Intn(3) / 2
			}
			l := rel(h)
			var o core.Op
			switch g.Intn(10) {
			case 0, 1, 2:
				path := core.Pick(g, l)
				if i := strings.LastIndex(path, d); branch && i > 0 && g.Intn(5) > 0 {
					path = path[:i]
					if j := strings.LastIndex(path, d); j > 0 && g.Intn(3) == 0 {
						path = path[:j]
					}
				}
				o = ttlOp(g, path, &jobs)
				if o.X == 0 && g.Intn(4) == 0 {
					o.X = 2 + g.Intn(3)
					o.B = core.Pick(g, l)
				}
			case 3, 4:
				o = sleepOp(g)
			case 5:
				o = core.Op{K: "set", A: core.Pick(g, l), V: g.Uniq()}
			default:
				o = opC01(g, l, d, false)
			}
			o.H = h
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func genC03(g *core.Gen) *core.Prog { return genTTL(g, false) }
func genC04(g *core.Gen) *core.Prog { return genTTL(g, true) }

// ttlWorld makes the store (or trie) and the view of a program.
func ttlWorld(p *core.Prog) (t *Tree, hs []*Handle) {
	delim := p.S["delim"]
	t = NewTree(delim)
	pre := p.S["prefix"]
	if p.Int("trie") == 1 {
		tr := radix.NewTrieBy[any](rune(delim[0]))
		hs = append(hs, &Handle{KV: tr, T: t})
		hs = append(hs, &Handle{KV: tr.WithPrefix(pre), T: t, Prefix: pre})
	} else {
		s := store.New(store.WithDelimiter(rune(delim[0])))
		hs = append(hs, storeHandle(s, t, ""))
		hs = append(hs, storeHandle(s.WithPrefix(pre), t, pre))
	}
	return
}

func closeKV(k KV) {
	if c, ok := k.(interface{ Close() }); ok {
		c.Close()
	}
}

func runTTL(p *core.Prog) {
	t, hs := ttlWorld(p)
	look := func() {
		t.lazy()
		hs[0].resolve()
		hs[0].checkKeys()
		if p.S["prefix"] != "" {
			hs[1].checkKeys()
		}
	}
	for _, o := range p.Setup {
		hs[0].apply(o)
	}
	clients(p, func(c int, o core.Op) {
		h := hs[o.H]
		look()
		switch o.K {
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "ttl":
			h.setTTL(o)
		default:
			h.apply(o)
		}
		look()
		t.overdue()
	})
	for i := 0; i < 3; i++ { // callbacks may add new ones
		drain(t)
		look()
	}
	hs[0].checkAll()
	t.overdue()
	if t.ranTTL > 0 {
		simrt.Count("probe:run with expiries")
	}
	for _, h := range hs {
		closeKV(h.KV)
	}
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	look()
}

// --- statement level: one client changes the tree, leaf TTLs ring any time

func genC03s(g *core.Gen) *core.Prog {
	p := genTTL(g, false)
	p.Sim = g.Stmt()
	if g.Intn(3) == 0 {
		p.Sim = g.Sync()
	}
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	var ops []core.Op
	for _, l := range p.Clients {
		for _, o := range l {
			switch o.K {
			case "ttl":
				o.X = 0
			case "sleep", "set", "setex", "setempty", "update", "remove", "get", "has":
			default:
				o = core.Op{K: "getm", H: o.H}
			}
			ops = append(ops, o)
		}
	}
	p.Clients = [][]core.Op{ops}
	return p
}

func runC03s(p *core.Prog) {
	t, hs := ttlWorld(p)
	for _, o := range p.Setup {
		hs[0].apply(o)
	}
	t.stmt = true
	clients(p, func(c int, o core.Op) {
		h := hs[o.H]
		switch o.K {
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "ttl":
			// leaves only
			if t.M[h.full(o.A)] != nil {
				h.setTTL(o)
			}
		case "get", "has":
			h.readStmt(o.A)
		case "getm":
			h.enumStmt()
		default:
			if o.K == "remove" && t.M[h.full(o.A)] == nil {
				return
			}
			h.apply(o)
		}
	})
	drain(t)
	hs[0].checkKeys()
	t.overdue()
	for _, h := range hs {
		closeKV(h.KV)
	}
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	hs[0].checkKeys()
}

// readStmt reads one key while TTLs ring.
func (h *Handle) readStmt(p string) {
	key := h.full(p)
	e := h.T.M[key]
	pre := e.allowed()
	v, ok := h.Get(p)
	switch {
	case e == nil:
		if v != nil || ok && !h.T.Ghost[key] {
			fail("get", "Get(%q) = %s, %v; there is no such key", key, show(v), ok)
		}
	case !ok:
		fail("get", "Get(%q) doesn't find an existing key", key)
	case !oneOf(pre, v) && !okV(e, v):
		fail("get", "Get(%q) = %s; the model has %s", key, show(v), wants(e))
	}
	if e != nil && !h.Has(p) {
		fail("get", "Has(%q) doesn't find an existing key", key)
	}
}

// enumStmt reads all keys while TTLs ring.
func (h *Handle) enumStmt() {
	view := h.view()
	pre := map[string][]any{}
	for _, k := range simrt.SortedKeys(view) {
		pre[k] = view[k].allowed()
	}
	m, err := h.GetM("")
	if err != nil {
		fail("enum", "GetM failed: %v", err)
	}
	for _, k := range simrt.SortedKeys(view) {
		v, ok := m[k]
		if !ok || !oneOf(pre[k], v) && !okV(view[k], v) {
			fail("enum", "GetM(\"\") has %q = %s, %v; the model has %s", k, show(v), ok, wants(view[k]))
		}
	}
	for _, k := range simrt.SortedKeys(m) {
		if view[k] == nil {
			fail("enum", "GetM(\"\") has an unexpected key %q", k)
		}
	}
	core.Nontrivial()
}

// --- statement level: readers while branches are dropped

func genC04r(g *core.Gen) *core.Prog {
	p := genTTL(g, true)
	p.I["trie"] = 0
	p.Sim = g.Stmt()
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	d := p.S["delim"]
	// several siblings below each branch, and beside it
	keys := keyPool(g, 8, d)
	p.Setup = nil
	for _, k := range keys {
		p.Setup = append(p.Setup, core.Op{K: "set", A: k, V: g.Str()})
	}
	jobs := 0
	for i := 1 + g.Intn(3); i > 0; i-- {
		k := core.Pick(g, keys)
		if i := strings.LastIndex(k, d); i > 0 {
			k = k[:i]
		}
		o := ttlOp(g, k, &jobs)
		o.X, o.N = 0, 0
		o.D = o.D%int64(2*time.Millisecond) + int64(time.Millisecond)
		p.Setup = append(p.Setup, o)
	}
	p.Clients = nil
	for c := 1 + g.Intn(3); c > 0; c-- {
		var ops []core.Op
		for i := 0; i < 6; i++ {
			switch g.Intn(4) {
			case 0:
				ops = append(ops, core.Op{K: "sleep", D: int64(time.Millisecond) * int64(1+g.Intn(2))})
			case 1:
				ops = append(ops, core.Op{K: "getm"})
			default:
				ops = append(ops, core.Op{K: core.Pick(g, []string{"get", "has", "getex"}), A: core.Pick(g, keys)})
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runC04r(p *core.Prog) {
	t, hs := ttlWorld(p)
	t.stmt = true
	h := hs[0]
	for _, o := range p.Setup {
		if o.K == "ttl" {
			if t.M[o.A] == nil && t.hasUnder(o.A) {
				h.setTTL(o)
			}
		} else {
			h.apply(o)
		}
	}
	// dropped: a drop of the key's branch has been done
	dropped := func(k string) bool {
		for _, j := range t.Jobs {
			if t.under(k, j.Key) && j.Rang > 0 && j.task.Done() {
				return true
			}
		}
		return false
	}
	// may: a drop has been started
	may := func(k string) bool {
		for _, j := range t.Jobs {
			if t.under(k, j.Key) && j.Rang > 0 {
				return true
			}
		}
		return false
	}
	check := func(k string, gone, ok bool, v any) {
		e := t.M[k]
		switch {
		case e == nil:
			return
		case gone && ok && !t.Ghost[k]:
			fail("branch-kept", "%q = %s is still there after its branch expired", k, show(v))
		case !gone && !ok && !may(k):
			fail("branch-lost", "%q is gone, no TTL of a branch above it has rung", k)
		case ok && v != nil && !same(v, e.V):
			fail("get", "%q = %s; the model has %s", k, show(v), show(e.V))
		}
		core.Nontrivial()
	}
	clients(p, func(c int, o core.Op) {
		gone := dropped(o.A)
		switch o.K {
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "get":
			v, ok := h.Get(o.A)
			check(o.A, gone, ok, v)
		case "has":
			check(o.A, gone, h.Has(o.A), nil)
		case "getex":
			ok := false
			var v any
			h.GetEx(o.A, func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
				ok, v = !branch, data
			})
			check(o.A, gone, ok, v)
		case "getm":
			g := map[string]bool{}
			for _, k := range t.keys() {
				g[k] = dropped(k)
			}
			m, err := h.GetM("")
			if err != nil {
				fail("enum", "GetM failed: %v", err)
			}
			for _, k := range t.keys() {
				v, ok := m[k]
				check(k, g[k], ok, v)
			}
		}
	})
	drain(t)
	for _, j := range t.Jobs {
		if j.Rang != 1 {
			fail("ttl-lost", "the TTL callback of the branch %q ran %d times", j.Key, j.Rang)
		}
		t.removeAll(j.Key, false)
		simrt.Count("probe:branch expired")
	}
	h.checkKeys()
	for _, h := range hs {
		closeKV(h.KV)
	}
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
}
