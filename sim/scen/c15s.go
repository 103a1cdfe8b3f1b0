package scen

import (
	"github.com/hedzr/store"

	"verif/sim/core"
	"verif/sim/simrt"
)

// Goroutines which have a store each, with delimiters of their own: they share
// nothing, except what the package keeps for all stores (its pools).

func init() {
	for _, prop := range []string{"C15", "C01", "C02"} {
		core.Register(&core.Scen{Prop: prop, Name: "apart", Weight: 1, Gen: genApart, Run: runApart, Real: realStore})
	}
}

func genApart(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{"dup": g.Intn(2)}, S: map[string]string{}}
	if g.Intn(5) == 0 {
		p.Sim = g.Sync()
	}
	nc := 2 + g.Intn(2)
	size := simrt.Choose(g.Rand, 4, 8, 16)
	p.S["delims"] = simrt.Choose(g.Rand, "././", "././", "./:.", "....")
	for c := 0; c < nc; c++ {
		d := p.S["delims"][c : c+1]
		keys := keyPool(g, simrt.Choose(g.Rand, 2, 4, 8), d)
		if g.Intn(2) == 0 {
			keys = properPool(g, simrt.Choose(g.Rand, 2, 4, 8), d)
		}
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := opC01(g, keys, d, false)
			o.X = g.Intn(2)
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runApart(p *core.Prog) {
	base := store.New()
	var hs []*Handle
	for c := range p.Clients {
		d := p.S["delims"][c : c+1]
		s := store.New(store.WithDelimiter(rune(d[0])))
		if p.Int("dup") == 1 {
			s = base.Dup()
			s.SetDelimiter(rune(d[0]))
		}
		hs = append(hs, storeHandle(s, NewTree(d), ""))
	}
	clients(p, func(c int, o core.Op) {
		h := hs[c]
		h.apply(o)
		if o.X == 1 {
			h.checkAll()
		}
	})
	for _, h := range hs {
		h.checkAll()
		h.S.Close()
	}
	storeHandle(base, NewTree("."), "").checkAll()
	count("probe:stores of their own")
}
