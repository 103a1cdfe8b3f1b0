package scen

import (
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C03", Name: "storm", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genStorm(g, false) }, Run: runStorm, Real: realStore})
	core.Register(&core.Scen{Prop: "C04", Name: "storm", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genStorm(g, true) }, Run: runStorm, Real: realStore})
}

// genStorm: many TTLs, several of them on the same key and due at the same
// time, set by several clients; the keys don't change.
func genStorm(g *core.Gen, branch bool) *core.Prog {
	p := &core.Prog{Sim: g.AnyCfg(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	tops := []string{"a", "ab", "b", "é"}
	if !branch {
		for _, t := range tops[:1+g.Intn(4)] {
			for _, l := range []string{"x", "xy", "log"}[:1+g.Intn(3)] {
				p.Setup = append(p.Setup, core.Op{A: t + "." + l, V: g.Str(), B: g.Name("t")})
			}
		}
	} else {
		for _, t := range tops[:2+g.Intn(3)] {
			for _, l := range []string{"x.p", "x.q", "y.p", "y.q", "z"} {
				p.Setup = append(p.Setup, core.Op{A: t + "." + l, V: g.Str(), B: g.Name("t")})
			}
		}
	}
	durs := []time.Duration{time.Millisecond, 2 * time.Millisecond, 1500 * time.Microsecond}
	if g.Intn(3) == 0 {
		durs = append(durs, 3*time.Hour, 40*24*time.Hour)
	}
	if g.Intn(3) == 0 {
		durs = durs[:1]
	}
	slow := 0
	if p.Sim.StallP == 0 {
		slow = g.Intn(3) / 2 // some callbacks take long
	}
	nc := 1 + g.Intn(4)
	size := simrt.Choose(g.Rand, 4, 10, 24, 60)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			k := core.Pick(g, p.Setup).A
			switch g.Intn(8) {
			case 0:
				ops = append(ops, core.Op{K: "get", A: k})
			case 1:
				ops = append(ops, core.Op{K: "sleep", D: int64(core.Pick(g, durs[:1])) / 2 * int64(g.Intn(4))})
			default:
				o := core.Op{K: "ttl", X: slow * g.Intn(8) / 7, A: k, N: g.Intn(3), H: g.Intn(2), D: int64(core.Pick(g, durs))}
				if branch && g.Intn(4) > 0 {
					o.A = k[:len(k)-2] // all keys end with a piece of one character
					o.N = 0
				}
				ops = append(ops, o)
			}
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

const long = 6 * time.Hour // a callback which takes long

type stormJob struct {
	key      string
	from     time.Duration
	rang     int
	accepted bool
	slow     bool
	d        time.Duration
}

func runStorm(p *core.Prog) {
	s := store.New()
	view := s.WithPrefix()
	type ent struct {
		v, tag any
	}
	m := map[string]ent{}
	for _, o := range p.Setup {
		s.(KV).SetNode(o.A, mk(o.V), o.B)
		m[o.A] = ent{mk(o.V), o.B}
	}
	var jobs []*stormJob
	covers := func(j *stormJob, k string) bool {
		return j.key == k || len(k) > len(j.key) && k[:len(j.key)+1] == j.key+"."
	}
	// mayBe: a TTL of the key, or of a branch above it, may have rung
	mayBe := func(k string) bool {
		for _, j := range jobs {
			if covers(j, k) && j.from+j.d <= simrt.Elapsed() {
				return true
			}
		}
		return false
	}
	intact := func(what, k string) {
		v, ok := s.Get(k)
		if mayBe(k) {
			return
		}
		if !ok || !same(v, m[k].v) {
			if mayBe(k) {
				return
			}
			fail("ttl-early", "%s: %q = %s, %v, no TTL of it is due", what, k, show(v), ok)
		}
		core.Nontrivial()
	}
	clients(p, func(c int, o core.Op) {
		switch o.K {
		case "get":
			intact("Get", o.A)
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "ttl":
			st := s
			if o.H == 1 {
				st = view
			}
			j := &stormJob{key: o.A, from: simrt.Elapsed(), d: time.Duration(o.D)}
			jobs = append(jobs, j)
			_, leaf := m[o.A]
			j.slow = o.X == 1
			cb := func(_ *radix.TTL[any], nd radix.Node[any]) {
				j.rang++
				if j.slow {
					defer simrt.Sleep(long)
				}
				if j.rang > 1 {
					fail("ttl-twice", "the TTL callback of %q ran %d times", j.key, j.rang)
				}
				if simrt.Elapsed() < j.from+j.d {
					fail("ttl-early", "the TTL of %q rang at %v, it is due at %v", j.key, simrt.Elapsed(), j.from+j.d)
				}
				// the first one finds everything
				for _, x := range jobs {
					if x != j && (x.rang > 0 || x.from+x.d <= simrt.Elapsed()) && (covers(x, j.key) || covers(j, x.key)) {
						return
					}
				}
				for _, k := range simrt.SortedKeys(m) {
					if covers(j, k) {
						v, ok := s.Get(k)
						for _, x := range jobs { // meanwhile
							if x != j && x.from+x.d <= simrt.Elapsed() && (covers(x, k) || covers(j, x.key)) {
								return
							}
						}
						if !ok || !same(v, m[k].v) {
							fail("ttl-node", "in the TTL callback of %q: %q = %s, %v", j.key, k, show(v), ok)
						}
					}
				}
				if leaf && nodeKey(nd) != j.key {
					fail("ttl-node", "the TTL callback of %q got the node %q", j.key, nodeKey(nd))
				}
				simrt.Count("probe:first of several TTLs rang")
			}
			state := -1
			if o.N == 0 {
				state = st.SetTTL(o.A, j.d, cb)
			} else {
				var node radix.Node[any]
				st.GetEx(o.A, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) { node = nd })
				if node != nil {
					state = st.SetTTLFast(node, j.d, cb)
				}
			}
			j.accepted = state == 0
			if simrt.Elapsed()-j.from >= long/2 {
				fail("ttl-blocked", "SetTTL(%q) took %v", o.A, simrt.Elapsed()-j.from)
			}
			if !j.accepted {
				j.rang = 1 << 20 // not expected
				for i, x := range jobs {
					if x == j {
						jobs = append(jobs[:i:i], jobs[i+1:]...)
						break
					}
				}
				if !mayBe(o.A) && leaf {
					fail("ttl-state", "SetTTL(%q) returned %d for an existing key", o.A, state)
				}
			}
		}
	})
	var end time.Duration
	slow := false
	for _, j := range jobs {
		slow = slow || j.slow
		end = max(end, j.from+j.d)
	}
	for i := 0; i < 30; i++ {
		simrt.Sleep(max(end-simrt.Elapsed(), 0) + 50*time.Millisecond)
		simrt.WaitIdle()
	}
	for _, j := range jobs {
		if j.rang != 1 {
			fail("ttl-lost", "a TTL callback of %q ran %d times; there are %d TTLs", j.key, j.rang, len(jobs))
		}
		core.Nontrivial()
	}
	if slow { // the callbacks still running held up nobody
		for _, k := range simrt.SortedKeys(m) {
			leaf, dropped := false, false
			for _, j := range jobs {
				leaf = leaf || j.key == k && !j.slow
				dropped = dropped || j.key != k && covers(j, k) && !j.slow
			}
			if v, ok := s.Get(k); (leaf || dropped) && v != nil || dropped && ok {
				fail("ttl-lost", "%q = %s, %v after its TTL, while a callback of another one takes long", k, show(v), ok)
			}
		}
		simrt.Count("probe:TTL callbacks which take long")
		simrt.Sleep(2 * long)
		simrt.WaitIdle()
	}
	got, err := s.GetM("")
	if err != nil {
		fail("enum", "GetM failed: %v", err)
	}
	for _, k := range simrt.SortedKeys(m) {
		leaf, dropped := false, false
		for _, j := range jobs {
			leaf = leaf || j.key == k
			dropped = dropped || j.key != k && covers(j, k)
		}
		v, ok := got[k]
		tag, _ := s.GetTag(k)
		switch {
		case dropped:
			if ok || s.Has(k) {
				fail("branch-kept", "%q = %s is still there after its branch expired", k, show(v))
			}
		case leaf:
			if !ok || v != nil || tag != nil {
				fail("enum", "%q = %s, tag %v after its TTL; it should be there and empty", k, show(v), tag)
			}
		default:
			if !ok || !same(v, m[k].v) || tag != m[k].tag {
				fail("enum", "%q = %s, tag %v; it should be %s, %v", k, show(v), tag, show(m[k].v), m[k].tag)
			}
		}
	}
	for k := range got {
		if _, ok := m[k]; !ok {
			fail("enum", "unexpected key %q", k)
		}
	}
	s.Close()
	view.Close()
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
}
