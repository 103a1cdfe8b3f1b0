package scen

import (
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

// One client adds, removes and splits keys, statement by statement, while TTLs
// of branches and leaves next to them expire in the background.

func init() {
	core.Register(&core.Scen{Prop: "C03", Name: "leaf-writer", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genWriter(g, false) }, Run: runWriter, Real: realStore})
	core.Register(&core.Scen{Prop: "C04", Name: "branch-writer", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genWriter(g, true) }, Run: runWriter, Real: realStore})
}

func genWriter(g *core.Gen, branch bool) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(4) == 0 {
		p.Sim = g.Sync()
	}
	p.Sim.Tear = true
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	below := func(k, b string) bool { return k == b || strings.HasPrefix(k, b+".") }
	pool := keyPool(g, 12, ".")
	var br, leaves, keys []string
	jobs := 0
	due := int64(time.Millisecond)
	// what expires, and what is below it
	for _, k := range pool {
		ok := true
		for _, x := range append(append([]string{}, br...), leaves...) {
			if below(k, x) || below(x, k) {
				ok = false
			}
		}
		if !ok || len(br)+len(leaves) > 3 || g.Intn(2) == 0 {
			continue
		}
		jobs++
		o := core.Op{K: "ttl", A: k, X: jobs, D: due, N: g.Intn(2)}
		if g.Intn(3) == 0 {
			o.D += int64(g.Intn(3)) * int64(time.Millisecond)
		}
		if branch && g.Intn(3) > 0 {
			br = append(br, k)
			o.B = "branch"
			p.Setup = append(p.Setup, core.Op{K: "set", A: k + ".p" + core.Pick(g, pieces), V: g.Str(), B: "branch"},
				core.Op{K: "set", A: k + ".q", V: g.Str(), B: "branch"})
			if g.Intn(2) == 0 {
				p.Setup = append(p.Setup, core.Op{K: "set", A: k + "." + core.Pick(g, pieces), V: g.Str(), B: "branch"})
			}
		} else {
			leaves = append(leaves, k)
			p.Setup = append(p.Setup, core.Op{K: "set", A: k, V: g.Str(), B: "leaf"})
		}
		p.Setup = append(p.Setup, o)
	}
	mine := func(k string) bool {
		for _, b := range br {
			if strings.HasPrefix(k, b+".") {
				return false
			}
		}
		for _, l := range leaves {
			if l == k {
				return false
			}
		}
		return plain(k, ".")
	}
	for _, k := range pool {
		if mine(k) {
			keys = append(keys, k)
		}
	}
	for i := 0; i < 12; i++ { // keys close to those which expire
		k := core.Pick(g, pool)
		if l := append(append([]string{}, br...), leaves...); len(l) > 0 && g.Intn(4) > 0 {
			k = core.Pick(g, l)
		}
		r := []rune(k)
		switch g.Intn(4) {
		case 0:
			k = string(r[:1+g.Intn(len(r))])
		case 1:
			k = string(r[:1+g.Intn(len(r))]) + core.Pick(g, pieces)
		case 2:
			k += core.Pick(g, pieces)
		case 3:
			if i := strings.LastIndex(k, "."); i > 0 {
				k = k[:i+1] + core.Pick(g, pieces)
			}
		}
		if mine(k) {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		keys = []string{"zz", "z.z"}
	}
	for i := g.Intn(5); i > 0; i-- {
		p.Setup = append(p.Setup, core.Op{K: "set", A: core.Pick(g, keys), V: g.Str()})
	}
	var ops []core.Op
	ops = append(ops, core.Op{K: "sleep", D: due})
	for i := 3 + g.Intn(12); i > 0; i-- {
		k := core.Pick(g, keys)
		switch g.Intn(8) {
		case 0, 1, 2, 3:
			ops = append(ops, core.Op{K: core.Pick(g, []string{"set", "set", "set", "setex", "merge", "update"}), A: k, V: g.Str()})
		case 4, 5:
			ops = append(ops, core.Op{K: "remove", A: k})
		case 6:
			ops = append(ops, core.Op{K: "check"})
		case 7:
			ops = append(ops, core.Op{K: "sleep", D: int64(time.Millisecond)})
		}
	}
	p.Clients = [][]core.Op{ops}
	if len(keys) > 0 && g.Intn(3) == 0 {
		p.S["prefix"] = strings.Split(core.Pick(g, pool), ".")[0]
	}
	return p
}

func runWriter(p *core.Prog) {
	s := store.New()
	type ent struct {
		v   any
		due time.Duration // when it may expire
		k   string
	}
	m := map[string]*ent{}
	type job struct {
		key    string
		branch bool
		due    time.Duration
		rang   int
	}
	var jobs []*job
	h, pre := s, ""
	if p.S["prefix"] != "" {
		h, pre = s.WithPrefix(p.S["prefix"]), p.S["prefix"]+"."
	}
	// via picks the view for keys below its prefix
	via := func(k string) (store.Store, string) {
		if pre != "" && strings.HasPrefix(k, pre) {
			return h, k[len(pre):]
		}
		return s, k
	}
	for _, o := range p.Setup {
		st, k := via(o.A)
		switch o.K {
		case "set":
			st.Set(k, mk(o.V))
			m[o.A] = &ent{v: mk(o.V), k: o.B}
		case "ttl":
			if o.B == "branch" {
				n := 0
				for k := range m {
					if strings.HasPrefix(k, o.A+".") {
						n++
					}
				}
				if n == 0 || m[o.A] != nil {
					continue // shrinking dropped it
				}
			} else if m[o.A] == nil {
				continue
			}
			j := &job{key: o.A, branch: o.B == "branch", due: simrt.Elapsed() + time.Duration(o.D)}
			var cb radix.OnTTLRinging[any]
			if o.N == 1 {
				cb = func(t *radix.TTL[any], nd radix.Node[any]) {
					j.rang++
					if simrt.Elapsed() < j.due {
						fail("ttl-early", "the TTL of %q rang before it was due", j.key)
					}
				}
			} else {
				j.rang = 1
			}
			if st := st.SetTTL(k, time.Duration(o.D), cb); st != 0 {
				if j.branch {
					continue // no node of its own (the model knows no shapes)
				}
				fail("ttl-state", "SetTTL(%q) returned %d", o.A, st)
			}
			jobs = append(jobs, j)
			for k, e := range m {
				if k == o.A || strings.HasPrefix(k, o.A+".") && j.branch {
					e.due = j.due
				}
			}
		}
	}
	check := func(final bool) {
		got, err := s.GetM("")
		if err != nil {
			fail("enum", "GetM failed: %v", err)
		}
		for _, k := range simrt.SortedKeys(m) {
			e := m[k]
			v, ok := got[k]
			w, ok1 := s.Get(k)
			switch {
			case e.due == 0:
				if !ok || !ok1 || !same(v, e.v) || !same(w, e.v) {
					fail("other-key", "%q = %s is %s (found %v) / %s (found %v)", k, show(e.v), show(v), ok, show(w), ok1)
				}
			case simrt.Elapsed() < e.due:
				if !ok || !same(v, e.v) {
					fail("early", "%q = %s is %s (found %v) before its TTL", k, show(e.v), show(v), ok)
				}
			case final && e.k == "branch":
				if ok {
					fail("branch-kept", "%q = %s is still there after its branch expired", k, show(v))
				}
			case final:
				if !ok || v != nil {
					fail("leaf-kept", "%q = %s (found %v) after its TTL", k, show(v), ok)
				}
			}
			core.Nontrivial()
		}
		for _, k := range simrt.SortedKeys(got) {
			if m[k] == nil {
				fail("other-key", "unexpected key %q = %s", k, show(got[k]))
			}
		}
	}
	clients(p, func(c int, o core.Op) {
		st, k := via(o.A)
		switch o.K {
		case "set":
			st.Set(k, mk(o.V))
		case "setex":
			st.SetEx(k, mk(o.V), nil)
		case "update":
			st.Update(k, func(nd radix.Node[any], old any) { nd.SetData(mk(o.V)) })
		case "merge":
			if i := strings.LastIndex(k, "."); i > 0 {
				st.Merge(k[:i], map[string]any{k[i+1:]: mk(o.V)})
			} else {
				st.Merge("", map[string]any{k: mk(o.V)})
			}
		case "remove":
			if m[o.A] == nil {
				return
			}
			for x := range m {
				if m[x].k != "" && strings.HasPrefix(x, o.A+".") {
					return
				}
			}
			if !st.Remove(k) {
				fail("remove", "Remove(%q) returned false", o.A)
			}
			for _, x := range simrt.SortedKeys(m) {
				if x == o.A || strings.HasPrefix(x, o.A+".") {
					delete(m, x)
				}
			}
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "check":
			check(false)
		}
		if o.V != "" {
			m[o.A] = &ent{v: mk(o.V)}
			if v, ok := st.Get(k); !ok || !same(v, mk(o.V)) {
				fail("other-key", "%q = %s was set, but is %s (found %v)", o.A, o.V, show(v), ok)
			}
		}
	})
	check(false)
	for i := 0; i < 2; i++ {
		simrt.Sleep(10 * time.Millisecond)
		simrt.WaitIdle()
	}
	check(true)
	for _, j := range jobs {
		if j.rang != 1 {
			fail("ttl-lost", "the TTL callback of %q ran %d times", j.key, j.rang)
		}
		count("probe:TTL rang")
	}
	s.Close()
	h.Close()
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
}
