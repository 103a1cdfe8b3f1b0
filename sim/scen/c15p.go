package scen

import (
	"context"
	"time"

	"github.com/hedzr/store"

	"verif/sim/core"
	"verif/sim/simrt"
)

// Goroutines which have an area of the store each, and must not notice the
// others at all.

func init() {
	core.Register(&core.Scen{Prop: "C15", Name: "areas", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genAreas(g, 1) }, Run: runAreas, Real: realStore})
	core.Register(&core.Scen{Prop: "C01", Name: "areas", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genAreas(g, 0) }, Run: runAreas, Real: realStore})
	core.Register(&core.Scen{Prop: "C07", Name: "areas", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genAreas(g, 3) }, Run: runAreas, Real: realStore})
	core.Register(&core.Scen{Prop: "C06", Name: "areas", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genAreas(g, 4) }, Run: runAreas, Real: realStore})
}

var areaSets = [][]string{
	{"app", "apple", "ap", "a"}, {"a", "b", "c", "d"}, {"x.a", "x.ab", "x.b", "xa"}, {"log", "logging", "lo.g", "l"},
	{"日", "日本", "é", "ée"}, {"s1", "s10", "s11", "s2"}, {"a.b.c", "a.b.cd", "a.bc", "a.bd"},
}

func genAreas(g *core.Gen, loads int) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(5) == 0 {
		p.Sim = g.Sync()
	}
	p.I["set"] = g.Intn(len(areaSets))
	p.I["flat"] = g.Intn(2)
	keys := keyPool(g, simrt.Choose(g.Rand, 2, 4, 8), ".")
	if g.Intn(2) == 0 {
		keys = properPool(g, simrt.Choose(g.Rand, 2, 4, 8), ".")
	}
	nc := 2 + g.Intn(3)
	size := simrt.Choose(g.Rand, 4, 8, 16)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := opC01(g, keys, ".", false)
			if g.Intn(8) < loads {
				o = core.Op{K: "load", M: map[string]string{}, B: g.Name("d"), X: g.Intn(6), N: g.Intn(3)}
				for n := 1 + g.Intn(4); n > 0; n-- {
					o.M[core.Pick(g, keys)] = g.Str()
				}
			} else if g.Intn(10) == 0 {
				o = core.Op{K: "dup"}
			} else if g.Intn(3) == 0 && o.K != "all" {
				o.X = 1
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runAreas(p *core.Prog) {
	s := store.New(store.WithFlattenSlice(p.Int("flat") == 1))
	all := NewTree(".")
	var hs []*Handle
	for c := range p.Clients {
		area := areaSets[p.Int("set")][c]
		h := storeHandle(s.WithPrefix(area), NewTree("."), area)
		h.Part = true
		hs = append(hs, h)
	}
	clients(p, func(c int, o core.Op) {
		h := hs[c]
		switch o.K {
		case "load":
			areaLoad(s, h, o)
		case "dup":
			d := s.Dup().WithPrefix(h.Prefix)
			dh := storeHandle(d, h.T, h.Prefix)
			dh.Part, dh.Marks = true, false
			dh.checkAll()
		default:
			if o.X == 1 { // by its name in the whole store
				rh := storeHandle(s, h.T, "")
				rh.Part = true
				if o.C != "" && o.K != "comment" {
					o.C = h.full(o.C)
				}
				if o.A == "" {
					o.A = h.Prefix
				} else {
					o.A = h.full(o.A)
				}
				rh.apply(o)
				break
			}
			h.apply(o)
		}
		if mutates[o.K] || o.C != "" || o.K == "load" {
			h.checkKeys()
		}
	})
	for _, h := range hs {
		for k, e := range h.T.M {
			all.M[k] = e
		}
		for k := range h.T.Ghost {
			all.Ghost[k] = true
		}
	}
	storeHandle(s, all, "").checkAll()
	s.Close()
}

func areaLoad(s store.Store, h *Handle, o core.Op) {
	pr := &prov{data: map[string]store.ValPkg{}}
	for _, k := range simrt.SortedKeys(o.M) {
		if o.N == 2 {
			pr.data[h.full(k)] = store.ValPkg{Value: mk(o.M[k]), Desc: o.B, Comment: o.B + "c", Tag: o.B + "t"}
			continue
		}
		pr.data[k] = store.ValPkg{Value: mk(o.M[k]), Desc: o.B, Comment: o.B + "c", Tag: o.B + "t"}
	}
	switch o.X {
	case 1, 2:
		pr.readErr, pr.partial = opErr(o)
	case 3:
		count("fault:slow provider")
		pr.slow = 300 * time.Microsecond
	}
	var wr store.Writeable
	var err error
	if o.N == 2 { // by their names in the whole store
		wr, err = s.Load(context.Background(), store.WithProvider(pr))
	} else if o.N == 1 { // through its view, which is no other load's business
		wr, err = h.S.Load(context.Background(), store.WithProvider(pr))
	} else {
		wr, err = s.Load(context.Background(), store.WithProvider(pr), store.WithStorePrefix(h.Prefix))
	}
	if pr.nread == 0 { // another load of the store was in progress
		if wr != nil || err != nil || o.N == 1 {
			fail("load", "Load returned %v, %v, but has read nothing", wr, err)
		}
		return
	}
	if pr.readErr != nil {
		if err == nil || wr != nil {
			fail("load", "the provider failed, Load returned %v, %v", wr, err)
		}
		return
	}
	if err != nil || wr == nil {
		fail("load", "Load returned %v, %v", wr, err)
	}
	for _, k := range simrt.SortedKeys(o.M) {
		key := h.full(k)
		h.setModel(key, mk(o.M[k]), false)
		e := h.T.M[key]
		e.Desc, e.Cmt, e.Tag = o.B, o.B+"c", o.B+"t"
	}
	count("probe:loaded while others change keys")
}
