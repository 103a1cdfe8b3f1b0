package scen

import (
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C01", Name: "map", Weight: 3, Gen: genC01, Run: runC01, Real: realStore})
}

// opsC01 makes one random operation.
func opC01(g *core.Gen, keys []string, delim string, proper bool) core.Op {
	k := core.Pick(g, keys)
	switch g.Intn(22) {
	case 0, 1, 2, 3, 4:
		return core.Op{K: "set", A: k, V: g.Val()}
	case 5:
		return reenters(g, core.Op{K: "setex", A: k, V: g.Val()}, keys)
	case 6:
		o := core.Op{K: "setnode", A: k, V: g.Val(), B: g.Name("t")}
		for n := g.Intn(4); n > 0; n-- {
			o.L = append(o.L, g.Name("d"))
		}
		if g.Intn(3) == 0 {
			o.B = ""
		}
		return o
	case 7:
		return core.Op{K: "setempty", A: k}
	case 8:
		return reenters(g, core.Op{K: "update", A: k, V: g.Val()}, keys)
	case 9:
		o := core.Op{K: "merge", M: map[string]string{}}
		if g.Intn(3) > 0 {
			o.A = core.Pick(g, keys)
		}
		for n := 1 + g.Intn(4); n > 0; n-- {
			o.M[core.Pick(g, []string{"a", "b", "ab", "log", "logging", "a|b", "a|c", "b|c|d", "x" + delim + "y", "z|p" + delim + "q"})] = g.Str()
		}
		switch g.Intn(6) {
		case 0:
			o.M["log"] = "nil:"
		case 1:
			o.M[core.Pick(g, []string{"em", "a|em", "x" + delim + "em", "z|em"})] = "e:"
		case 2:
			o.M[core.Pick(g, []string{"log", "a|b", "x" + delim + "y"})] = g.Val()
		}
		for k, v := range o.M { // a nested map isn't a value
			if strings.HasPrefix(v, "m:") || strings.HasPrefix(v, "l:") || strings.HasPrefix(v, "L:") {
				o.M[k] = "i:7"
			}
		}
		delete(o.M, "a") // a plain value and a nested map can't share a name
		delete(o.M, "b")
		if len(o.M) == 0 {
			o.M["m"] = g.Str()
		}
		return o
	case 10, 11, 12, 13:
		p := k
		if g.Intn(3) == 0 {
			p = pathFrom(g, keys, delim)
		}
		return core.Op{K: "remove", A: p, N: g.Intn(2)}
	case 14:
		return core.Op{K: "comment", A: pathFrom(g, keys, delim), B: g.Name("d"), C: g.Name("c")}
	case 15:
		return core.Op{K: "tag", A: pathFrom(g, keys, delim), B: g.Name("t")}
	case 16:
		return core.Op{K: "has", A: pathFrom(g, keys, delim)}
	case 17:
		return core.Op{K: "get", A: pathFrom(g, keys, delim)}
	case 18:
		if g.Intn(3) == 0 {
			return core.Op{K: "walkset", C: core.Pick(g, keys)}
		}
		return reenters(g, core.Op{K: "getex", A: pathFrom(g, keys, delim)}, keys)
	case 19:
		return core.Op{K: "meta", A: pathFrom(g, keys, delim)}
	case 20:
		return core.Op{K: "getm", A: pathFrom(g, keys, delim)}
	}
	return core.Op{K: "all"}
}

// reenters: the callback of the operation may use the store.
func reenters(g *core.Gen, o core.Op, keys []string) core.Op {
	if c := core.Pick(g, keys); g.Intn(3) == 0 && c != o.A {
		o.C = c
	}
	return o
}

func genC01(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Atomic(), I: map[string]int{}, S: map[string]string{"delim": "."}}
	if g.Intn(8) == 0 {
		p.S["delim"] = "/"
	}
	p.I["trie"] = g.Intn(4) / 3
	n := simrt.Choose(g.Rand, 3, 5, 8, 14)
	var keys []string
	if g.Intn(3) == 0 {
		keys = properPool(g, n, p.S["delim"])
	} else {
		keys = keyPool(g, n, p.S["delim"])
	}
	nc := 1 + g.Intn(3)
	size := simrt.Choose(g.Rand, 6, 12, 25, 60)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			ops = append(ops, opC01(g, keys, p.S["delim"], false))
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

// mutates: operations after which the whole enumeration is compared.
var mutates = map[string]bool{"set": true, "setex": true, "setnode": true, "setempty": true, "update": true, "merge": true, "remove": true, "comment": true, "tag": true}

func runC01(p *core.Prog) {
	delim := p.S["delim"]
	t := NewTree(delim)
	var h *Handle
	if p.Int("trie") == 1 {
		h = &Handle{KV: radix.NewTrieBy[any](rune(delim[0])), T: t}
	} else {
		h = storeHandle(store.New(store.WithDelimiter(rune(delim[0]))), t, "")
	}
	clients(p, func(c int, o core.Op) {
		h.apply(o)
		if mutates[o.K] || o.C != "" {
			h.checkKeys()
		}
	})
	h.checkAll()
}

// clients runs the programs of the clients, one task each, with a scheduling
// point before each operation.
func clients(p *core.Prog, do func(c int, o core.Op)) {
	var ts []*simrt.Task
	for c, ops := range p.Clients {
		ts = append(ts, simrt.Client("client", func() {
			for _, o := range ops {
				simrt.Yield()
				simrt.Event("%s", o)
				do(c, o)
			}
		}))
	}
	simrt.Join(ts...)
}
