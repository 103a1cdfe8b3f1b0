package scen

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C11", Name: "linearizable", Weight: 1, Gen: genC11, Run: runC11, Real: realStore})
}

func genC11(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(4) == 0 {
		p.Sim = g.Sync()
	}
	if g.Intn(3) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	var keys []string
	if g.Intn(2) == 0 {
		keys = properPool(g, simrt.Choose(g.Rand, 2, 3, 6), ".")
	} else {
		keys = keyPool(g, simrt.Choose(g.Rand, 2, 3, 6), ".")
	}
	// typed: all values are of one type, and typed getters are reads like others
	typed := g.Intn(8)
	p.I["typed"] = typed
	val := func() string {
		switch n := g.Num(); typed {
		case 1:
			return fmt.Sprint("i:", 1+n%30000)
		case 2:
			return fmt.Sprint("s:v", n)
		case 3:
			return fmt.Sprintf("L:p%d,q%d", n, n)
		case 4:
			return fmt.Sprintf("f:%d.5", n)
		}
		return g.Uniq()
	}
	for _, k := range keys {
		p.Setup = append(p.Setup, core.Op{A: k, V: val()})
	}
	p.S["prefix"] = strings.Split(core.Pick(g, keys), ".")[0]
	p.I["handlers"] = g.Intn(4) / 3
	nc := 2 + g.Intn(3)
	size := simrt.Choose(g.Rand, 6, 12, 24)
	hot := core.Pick(g, keys)
	jobs := 0
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := core.Op{A: core.Pick(g, keys), N: g.Intn(2)}
			if g.Intn(2) == 0 {
				o.A = hot
			}
			switch g.Intn(10) {
			case 0, 1, 2:
				o.K, o.V = core.Pick(g, []string{"set", "set", "set", "setdata", "setex", "setnode"}), val()
				if g.Intn(8) == 0 {
					o.K = simrt.Choose(g.Rand, "clear", "setempty")
				}
			case 3, 4, 5, 6:
				o.K = core.Pick(g, []string{"get", "get", "mustget", "getex", "has", "data", "string"})
				if typed >= 1 && typed <= 4 && g.Intn(2) == 0 {
					o.K, o.X = "typed", g.Intn(100)
				}
			case 7:
				o.K = core.Pick(g, []string{"getm", "getr", "walk", "dump", "view", "getm"})
			case 8:
				jobs++
				o.K, o.D = "ttl", int64(simrt.Choose(g.Rand, 1, 3, 10))*int64(time.Millisecond)+int64(jobs)
			default:
				o.K, o.D = "sleep", int64(simrt.Choose(g.Rand, 1, 2, 4))*int64(time.Millisecond)
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runC11(p *core.Prog) {
	var opts []store.Opt
	hist := map[string][]linOp{}
	if p.Int("handlers") == 1 {
		opts = append(opts, store.WithOnChangeHandlers(func(path string, value, oldValue any, f bool) {}))
	}
	s := store.New(opts...)
	init := map[string]string{}
	nodes := map[string]radix.Node[any]{}
	for _, o := range p.Setup {
		s.Set(o.A, mk(o.V))
		init[o.A] = show(mk(o.V))
	}
	keys := simrt.SortedKeys(init)
	for _, k := range keys {
		k := k
		s.GetEx(k, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) { nodes[k] = nd })
		if nodes[k] == nil || nodes[k].Key() != k {
			fail("getex", "GetEx(%q) has no node", k)
		}
	}
	pre := p.S["prefix"]
	view := s.WithPrefix(pre)
	rec := func(key, who string, inv int64, write bool, v any) {
		hist[key] = append(hist[key], linOp{inv: inv, ret: simrt.Seq(), write: write, v: show(v), who: who})
		core.Nontrivial()
	}
	clients(p, func(c int, o core.Op) {
		h, path := s, o.A
		if o.N == 1 && strings.HasPrefix(o.A, pre+".") {
			h, path = view, o.A[len(pre)+1:]
		}
		if init[o.A] == "" && o.A != "" {
			return // shrinking dropped it
		}
		who := fmt.Sprintf("c%d %s", c, o.K)
		switch o.K {
		case "set", "setex", "setnode":
			v := mk(o.V)
			// the write is in the history from its start on
			inv := simrt.Seq()
			hist[o.A] = append(hist[o.A], linOp{inv: inv, write: true, v: show(v), who: who})
			i := len(hist[o.A]) - 1
			var old any
			switch o.K {
			case "set":
				_, old = h.Set(path, v)
			case "setex":
				n := 0
				old = h.SetEx(path, v, func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) { n++ })
				if n != 1 {
					fail("setex-cb", "the SetEx(%q) callback ran %d times", o.A, n)
				}
			case "setnode":
				_, old = h.(KV).SetNode(path, v, "tag")
			}
			hist[o.A][i].ret = simrt.Seq()
			hist[o.A][i].swap, hist[o.A][i].old = true, show(old)
		case "setdata", "clear", "setempty":
			var v any
			if o.K == "setdata" {
				v = mk(o.V)
			}
			inv := simrt.Seq()
			hist[o.A] = append(hist[o.A], linOp{inv: inv, write: true, v: show(v), who: who})
			i := len(hist[o.A]) - 1
			switch o.K {
			case "setdata":
				nodes[o.A].SetData(v)
			case "clear":
				nodes[o.A].SetEmpty()
			case "setempty":
				old := h.(KV).SetEmpty(path)
				hist[o.A][i].swap, hist[o.A][i].old = true, show(old)
				defer rec(o.A, who+" (again)", inv, true, nil) // it writes twice
			}
			hist[o.A][i].ret = simrt.Seq()
		case "get":
			inv := simrt.Seq()
			v, ok := h.Get(path)
			if !ok {
				fail("lost", "Get(%q) doesn't find an existing key", o.A)
			}
			rec(o.A, who, inv, false, v)
		case "mustget":
			inv := simrt.Seq()
			rec(o.A, who, inv, false, h.MustGet(path))
		case "string":
			h.MustString(path, "")
			if _, err := h.GetString(path); err != nil {
				fail("lost", "GetString(%q): %v", o.A, err)
			}
		case "typed":
			inv := simrt.Seq()
			v, err := typedGet(h, path, p.Int("typed"), o.X)
			if err != nil {
				fail("lost", "typed getter %d of %q: %v", o.X, o.A, err)
			}
			rec(o.A, fmt.Sprint(who, o.X), inv, false, v)
			count("probe:typed read")
		case "data":
			inv := simrt.Seq()
			rec(o.A, who, inv, false, nodes[o.A].Data())
		case "getex":
			n := 0
			inv := simrt.Seq()
			h.GetEx(path, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
				n++
				if branch || nd == nil || nd.Key() != o.A {
					fail("getex", "GetEx(%q) got the node %q, branch %v", o.A, nodeKey(nd), branch)
				}
				rec(o.A, who, inv, false, data)
			})
			if n != 1 {
				fail("lost", "GetEx(%q) called back %d times", o.A, n)
			}
		case "has":
			if !h.Has(path) {
				fail("lost", "Has(%q) doesn't find an existing key", o.A)
			}
		case "getm", "getr":
			inv := simrt.Seq()
			var m map[string]any
			var err error
			if o.K == "getm" {
				m, err = s.GetM("")
			} else {
				m, err = s.GetR("")
			}
			if err != nil || len(m) != len(keys) {
				fail("lost", "%s returned %d of %d keys, error %v", o.K, len(m), len(keys), err)
			}
			for _, k := range keys {
				v, ok := m[k]
				if !ok {
					fail("lost", "%s doesn't return %q", o.K, k)
				}
				rec(k, who, inv, false, v)
			}
		case "walk":
			inv := simrt.Seq()
			n := 0
			s.Walk("", func(path, fragment string, node radix.Node[any]) {
				if node.IsBranch() {
					return
				}
				n++
				if init[path] == "" {
					fail("lost", "Walk visits %q", path)
				}
				rec(path, who, inv, false, node.Data())
			})
			if n != len(keys) {
				fail("lost", "Walk visits %d of %d keys", n, len(keys))
			}
		case "dump":
			if d := s.Dump(); d == "" {
				fail("lost", "Dump is empty")
			}
		case "view":
			v := s.WithPrefix(pre)
			if v.Prefix() != pre {
				fail("lost", "the prefix of a view is %q instead of %q", v.Prefix(), pre)
			}
		case "ttl":
			due := simrt.Elapsed() + time.Duration(o.D)
			if st := h.SetTTL(path, time.Duration(o.D), func(t *radix.TTL[any], nd radix.Node[any]) {
				if simrt.Elapsed() < due {
					fail("ttl-early", "the TTL of %q rang before it was due", o.A)
				}
				// the value is cleared some time after this callback
				hist[o.A] = append(hist[o.A], linOp{inv: simrt.Seq(), write: true, v: show(nil), who: "expiry"})
				count("probe:TTL rang")
			}); st != 0 {
				fail("ttl-state", "SetTTL(%q) returned %d", o.A, st)
			}
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		}
	})
	for i := 0; i < 3; i++ {
		simrt.Sleep(20 * time.Millisecond)
		simrt.WaitIdle()
	}
	// all clearings are over
	for _, k := range keys {
		for i := range hist[k] {
			if hist[k][i].ret == 0 {
				hist[k][i].ret = simrt.Seq()
			}
		}
	}
	for _, k := range keys {
		inv := simrt.Seq()
		v, _ := s.Get(k)
		rec(k, "finally", inv, false, v)
	}
	s.Close()
	view.Close()
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	for _, k := range keys {
		core.State(fmt.Sprint(k, len(hist[k])))
		written := map[string]bool{init[k]: true}
		for _, o := range hist[k] {
			if o.write {
				written[o.v] = true
			}
		}
		for _, o := range hist[k] {
			if !written[o.v] || o.swap && !written[o.old] {
				fail("phantom", "%q: %v, but this value was never written to this key", k, o)
			}
		}
		if len(hist[k]) > 60 {
			continue
		}
		if !linearizable(init[k], hist[k]) {
			var sb strings.Builder
			for _, o := range hist[k] {
				fmt.Fprintf(&sb, "\n    %v", o)
			}
			fail("linearizability", "%q: the history is not linearizable, initially %s:%s", k, init[k], sb.String())
		}
		if len(hist[k]) > 2 {
			count("probe:history checked")
		}
	}
}

// typedGet reads a number, a string, or a list with a typed getter; a zero
// result is that of an emptied key.
func typedGet(h store.Store, path string, typ, n int) (v any, err error) {
	switch typ {
	case 1:
		var i int64
		switch n % 14 {
		case 0:
			i, err = h.GetInt64(path)
		case 1:
			i = h.MustInt64(path)
		case 2:
			i = int64(h.MustInt(path))
		case 3:
			i = int64(h.MustInt32(path))
		case 4:
			i = int64(h.MustInt16(path))
		case 5:
			i = int64(h.MustUint64(path))
		case 6:
			i = int64(h.MustUint(path))
		case 7:
			i = int64(h.MustUint32(path))
		case 8:
			i = int64(h.MustUint16(path))
		case 9:
			i = int64(h.MustFloat64(path))
		case 10:
			i = int64(h.MustFloat32(path))
		case 11:
			i = int64(real(h.MustComplex128(path)))
		case 12:
			i, _ = strconv.ParseInt(h.MustString(path), 10, 64)
		case 13:
			var j int
			j, err = h.GetInt(path)
			i = int64(j)
		}
		if i != 0 {
			v = int(i)
		}
	case 2:
		var s string
		if n%2 == 0 {
			s, err = h.GetString(path)
		} else {
			s = h.MustString(path)
		}
		if s != "" && s != "<nil>" {
			v = s
		}
	case 3:
		var l []string
		if n%2 == 0 {
			l, err = h.GetStringSlice(path)
		} else {
			l = h.MustStringSlice(path)
		}
		if len(l) > 0 {
			v = l
		}
	case 4:
		var f float64
		if n%2 == 0 {
			f, err = h.GetFloat64(path)
		} else {
			f = h.MustFloat64(path)
		}
		if f != 0 {
			v = f
		}
	}
	return
}
