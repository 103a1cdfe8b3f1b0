package scen

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

// Goroutines which add, remove, read and annotate keys, a watcher which does
// the same in the background, and loads, all statement by statement.

func init() {
	core.Register(&core.Scen{Prop: "C15", Name: "changing-keys", Weight: 1, Gen: genC15, Run: runC15, Real: realStore})
}

const absent = "∅"

func genC15(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(5) == 0 {
		p.Sim = g.Sync()
	}
	p.Sim.Tear = true
	if g.Intn(4) == 0 {
		p.Sim.StallP = simrt.Choose(g.Rand, 0.02, 0.1)
	}
	var keys []string
	if g.Intn(2) == 0 {
		keys = properPool(g, simrt.Choose(g.Rand, 2, 4, 8), ".")
	} else {
		keys = keyPool(g, simrt.Choose(g.Rand, 2, 4, 8), ".")
	}
	p.S["prefix"] = strings.Split(core.Pick(g, keys), ".")[0]
	p.I["handlers"] = g.Intn(3) / 2
	for _, k := range keys {
		if g.Intn(2) == 0 {
			p.Setup = append(p.Setup, core.Op{A: k, V: g.Uniq()})
		}
	}
	nc := 2 + g.Intn(3)
	size := simrt.Choose(g.Rand, 6, 12, 24)
	hot := core.Pick(g, keys)
	due, at := int64(0), 1+g.Intn(2)
	if g.Intn(3) == 0 {
		due = int64(time.Millisecond)
	}
	branch := func(k string) string { // one above which is no key itself
		i := strings.LastIndex(k, ".")
		if j := strings.LastIndex(k[:max(i, 0)], "."); j > 0 && g.Intn(2) == 0 {
			i = j
		}
		if i <= 0 || slices.Contains(keys, k[:i]) {
			return ""
		}
		return k[:i]
	}
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := core.Op{A: core.Pick(g, keys), N: g.Intn(2)}
			if g.Intn(3) == 0 {
				o.A = hot
			}
			switch g.Intn(12) {
			case 0, 1, 2, 3:
				o.K, o.V = core.Pick(g, []string{"set", "set", "set", "setex", "merge", "event", "load", "setnode"}), g.Uniq()
				switch o.K {
				case "merge", "event", "load": // maps are flattened
					o.V = g.Str()
					if o.K != "merge" && g.Intn(4) == 0 {
						o.X = 1 + g.Intn(2) // fails, is slow
					}
				}
			case 4, 5, 6:
				o.K = core.Pick(g, []string{"remove", "remove", "removeex", "unevent"})
			case 7, 8, 9:
				o.K = core.Pick(g, []string{"get", "get", "mustget", "getex", "has"})
			case 10:
				o.K = core.Pick(g, []string{"getm", "getr", "walk", "dump", "dup", "locate"})
			case 11:
				o.K, o.B = core.Pick(g, []string{"comment", "tag", "meta"}), g.Name("d")
			}
			if due > 0 && i == at { // expiries meet the operations after this
				o = core.Op{K: "sleep", D: due}
			}
			if due > 0 && i < at && g.Intn(2) == 0 {
				if b := branch(o.A); b != "" {
					o = core.Op{K: "ttl", A: b, N: g.Intn(2), X: g.Intn(2), D: due}
				}
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func runC15(p *core.Prog) {
	var opts []store.Opt
	if p.Int("handlers") == 1 {
		opts = append(opts, store.WithOnChangeHandlers(func(path string, value, oldValue any, f bool) {}),
			store.WithOnNewHandlers(func(path string, value any, f bool) {}), store.WithOnDeleteHandlers(func(path string, value any, f bool) {}))
	}
	s := store.New(append(opts, store.WithWatchEnable(true))...)
	w := &provW{prov: prov{data: map[string]store.ValPkg{}}}
	if _, err := s.Load(context.Background(), store.WithProvider(w)); err != nil || w.cb == nil {
		fail("load", "a watched source can't be loaded: %v", err)
	}
	keys, init, hist := []string{}, map[string]string{}, map[string][]linOp{}
	known := func(k string) {
		if _, ok := init[k]; !ok && k != "" {
			init[k] = absent
			keys = append(keys, k)
		}
	}
	for _, o := range p.Setup {
		known(o.A)
		s.Set(o.A, mk(o.V))
		init[o.A] = show(mk(o.V))
	}
	for _, c := range p.Clients {
		for _, o := range c {
			if o.K == "ttl" {
				continue
			}
			known(o.A)
		}
	}
	sorted(keys)
	below := func(k string) (l []string) { // k and the keys below it
		for _, x := range keys {
			if x == k || strings.HasPrefix(x, k+".") {
				l = append(l, x)
			}
		}
		return
	}
	pre := p.S["prefix"]
	view := s.WithPrefix(pre)
	// start puts a write into the history; it may take effect until it has returned
	start := func(k, who, v string) *linOp {
		hist[k] = append(hist[k], linOp{inv: simrt.Seq(), write: true, v: v, who: who})
		return &linOp{ret: int64(len(hist[k]) - 1)}
	}
	end := func(k string, h *linOp, f func(o *linOp)) {
		o := &hist[k][h.ret]
		o.ret = simrt.Seq()
		if f != nil {
			f(o)
		}
	}
	read := func(k, who string, inv int64, v string) {
		hist[k] = append(hist[k], linOp{inv: inv, ret: simrt.Seq(), v: v, who: who})
		core.Nontrivial()
	}
	old := func(v any) func(o *linOp) {
		return func(o *linOp) {
			o.swap, o.old = true, show(v)
			if v == nil {
				o.old = absent
			}
		}
	}
	// an enumeration reads each key once
	enum := func(who string, inv int64, m map[string]any) {
		for _, k := range simrt.SortedKeys(m) {
			if _, ok := init[k]; !ok {
				fail("phantom", "%s returns the key %q", who, k)
			}
		}
		for _, k := range keys {
			if v, ok := m[k]; ok {
				read(k, who, inv, show(v))
			} else {
				read(k, who, inv, absent)
			}
		}
		count("probe:enumeration while keys change")
	}
	type expiry struct {
		k string
		x *linOp
	}
	var expiries []expiry
	var rings []*int
	clients(p, func(c int, o core.Op) {
		h, path := s, o.A
		if o.N == 1 && strings.HasPrefix(o.A, pre+".") {
			h, path = view, o.A[len(pre)+1:]
		}
		who := fmt.Sprintf("c%d %s", c, o.K)
		inv := simrt.Seq()
		k := o.A
		switch o.K {
		case "set":
			x := start(k, who, show(mk(o.V)))
			_, v := h.Set(path, mk(o.V))
			end(k, x, old(v))
		case "setex":
			x := start(k, who, show(mk(o.V)))
			v := h.SetEx(path, mk(o.V), func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {})
			end(k, x, old(v))
		case "setnode":
			x := start(k, who, show(mk(o.V)))
			_, v := h.(KV).SetNode(path, mk(o.V), "tag", "desc", "comment")
			end(k, x, old(v))
		case "merge":
			x := start(k, who, show(mk(o.V)))
			if i := strings.LastIndex(path, "."); i > 0 {
				h.Merge(path[:i], map[string]any{path[i+1:]: mk(o.V)})
			} else {
				h.Merge("", map[string]any{path: mk(o.V)})
			}
			end(k, x, nil)
		case "event":
			x := start(k, who, show(mk(o.V)))
			if o.X == 1 {
				count("fault:watch event error")
				w.cb(nil, errWatch)
				end(k, x, func(o *linOp) { o.write, o.v = false, "" })
				break
			}
			w.cb(&change{op: store.OpWrite, keys: []string{k}, vals: []any{mk(o.V)}, p: w}, nil)
			end(k, x, nil)
		case "load":
			x := start(k, who, show(mk(o.V)))
			pr := &prov{data: map[string]store.ValPkg{k: {Value: mk(o.V), Desc: "d", Tag: "t"}}}
			switch o.X {
			case 1:
				pr.readErr, pr.partial = opErr(o)
			case 2:
				count("fault:slow provider")
				pr.slow = time.Duration(1+o.N) * 500 * time.Microsecond
			}
			wr, err := s.Load(context.Background(), store.WithProvider(pr))
			if err != nil != (pr.nread > 0 && pr.readErr != nil) {
				fail("load", "Load: %v", err)
			}
			end(k, x, func(o *linOp) {
				if wr == nil { // failed, or another load was in progress
					o.write, o.v = false, ""
				}
			})
		case "remove", "removeex", "unevent":
			// whether something is removed is known afterwards only
			type wr struct {
				k string
				x *linOp
			}
			var l []wr
			for _, x := range below(k) {
				l = append(l, wr{x, start(x, who, absent)})
			}
			removed := true
			switch o.K {
			case "remove":
				removed = h.Remove(path)
			case "removeex":
				var nd radix.Node[any]
				nd, _, removed = h.(KV).RemoveEx(path)
				if removed && nd == nil {
					fail("remove", "RemoveEx(%q) returned no node", k)
				}
			case "unevent":
				w.cb(&change{op: store.OpRemove, keys: []string{k}, vals: []any{nil}, p: w}, nil)
			}
			for i, y := range l {
				end(y.k, y.x, func(q *linOp) {
					if !removed {
						q.write, q.v = false, ""
						return
					}
					// a path between the keys needn't be one of its own
					q.opt = o.K == "unevent" && y.k != k
					if i == 0 && len(l) == 1 && o.K != "unevent" {
						q.swap, q.old = true, "*" // there was one
					}
				})
			}
			if !removed {
				read(k, who, inv, absent)
			}
		case "get":
			v, ok := h.Get(path)
			switch {
			case !ok:
				read(k, who, inv, absent)
			case v != nil:
				read(k, who, inv, show(v))
			case len(below(k)) == 1:
				read(k, who, inv, "nil")
			}
		case "mustget":
			if v := h.MustGet(path); v != nil {
				read(k, who, inv, show(v))
			} else {
				read(k, who, inv, absent)
			}
		case "getex":
			n := 0
			h.GetEx(path, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
				n++
				if data != nil {
					read(k, who, inv, show(data))
					if nd.Key() != k {
						fail("getex", "GetEx(%q) got the node %q", k, nodeKey(nd))
					}
				}
			})
			if n == 0 {
				read(k, who, inv, absent)
			}
		case "has":
			if !h.Has(path) {
				read(k, who, inv, absent)
			} else if len(below(k)) == 1 {
				read(k, who, inv, "*")
			}
		case "getm":
			m, err := s.GetM("")
			if err != nil {
				fail("enum", "GetM: %v", err)
			}
			enum(who, inv, m)
		case "getr":
			m, err := s.GetR("")
			if err != nil {
				fail("enum", "GetR: %v", err)
			}
			enum(who, inv, m)
		case "dup":
			d := s.Dup()
			m, err := d.GetM("")
			if err != nil {
				fail("enum", "GetM of a copy: %v", err)
			}
			enum(who, inv, m)
			for _, k := range keys { // and it is a tree of its own
				if v, ok := d.Get(k); ok && v != nil {
					if x, ok := m[k]; !ok || !same(v, x) {
						fail("dup", "Get(%q) of a copy returns %s, its GetM has %s", k, show(v), show(x))
					}
				} else if x, ok := m[k]; ok {
					fail("dup", "Get(%q) of a copy returns %s, %v, its GetM has %s", k, show(v), ok, show(x))
				}
			}
		case "walk":
			m := map[string]any{}
			s.Walk("", func(path, fragment string, node radix.Node[any]) {
				if !node.IsBranch() {
					m[path] = node.Data()
				}
			})
			enum(who, inv, m)
		case "dump":
			s.Dump()
		case "locate":
			h.Locate(path, nil)
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "ttl": // drops the branch, unless it is another one then
			var l []expiry
			for _, x := range below(k) {
				l = append(l, expiry{x, start(x, who, absent)})
			}
			rung, due := 0, simrt.Elapsed()+time.Duration(o.D)
			var cb radix.OnTTLRinging[any]
			if o.X == 1 {
				cb = func(*radix.TTL[any], radix.Node[any]) {
					if rung++; rung > 1 || simrt.Elapsed() < due {
						fail("ttl", "the TTL of %q rang for the %d. time at %v, due %v", k, rung, simrt.Elapsed(), due)
					}
				}
			}
			if h.SetTTL(path, time.Duration(o.D), cb) != 0 {
				for _, x := range l {
					end(x.k, x.x, func(q *linOp) { q.write, q.v = false, "" })
				}
				break // no branch of its own
			}
			count("probe:ttl while keys change")
			expiries = append(expiries, l...)
			if o.X == 1 {
				rings = append(rings, &rung)
			}
		case "comment":
			h.SetComment(path, o.B, o.B+"c")
		case "tag":
			h.SetTag(path, o.B)
		case "meta":
			h.GetDesc(path)
			h.GetComment(path)
			h.GetTag(path)
		}
	})
	simrt.Sleep(10 * time.Millisecond)
	simrt.WaitIdle()
	for _, x := range expiries {
		end(x.k, x.x, func(q *linOp) { q.opt = true })
	}
	for _, n := range rings {
		if *n != 1 {
			fail("ttl", "a TTL rang %d times", *n)
		}
	}
	final := map[string]*Ent{}
	for _, k := range keys {
		inv := simrt.Seq()
		v, ok := s.Get(k)
		if ok && v != nil {
			read(k, "finally", inv, show(v))
			final[k] = &Ent{V: v}
		} else {
			read(k, "finally", inv, absent)
		}
	}
	m, err := s.GetM("")
	if err != nil {
		fail("enum", "GetM failed: %v", err)
	}
	cmpMaps("enum", "GetM at the end", m, final)
	s.Close()
	view.Close()
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	for _, k := range keys {
		var l []linOp
		for _, o := range hist[k] {
			if o.write || o.v != "" {
				l = append(l, o)
			}
		}
		core.State(fmt.Sprint(k, len(l)))
		if len(l) > 60 {
			continue
		}
		if !linearizable(init[k], l) {
			var sb strings.Builder
			for _, o := range l {
				fmt.Fprintf(&sb, "\n    %v", o)
			}
			fail("linearizability", "%q: the history is not linearizable, initially %s:%s", k, init[k], sb.String())
		}
		if len(l) > 2 {
			count("probe:history checked")
		}
	}
}
