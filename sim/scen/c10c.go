package scen

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

// The notifications of goroutines which change keys at once: what the
// handlers are told is the history of the keys.

func init() {
	core.Register(&core.Scen{Prop: "C10", Name: "concurrent-handlers", Weight: 1, Gen: genC10C, Run: runC10C, Real: realStore})
}

func genC10C(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(4) == 0 {
		p.Sim = g.Sync()
	}
	keys := properPool(g, simrt.Choose(g.Rand, 1, 2, 4, 8), ".")
	p.S["prefix"] = strings.Split(core.Pick(g, keys), ".")[0]
	p.I["handlers"] = 1 + g.Intn(2)
	p.I["uses"] = g.Intn(3) / 2
	p.I["slow"] = g.Intn(4) / 3 // the handlers take their time
	for _, k := range keys {
		switch g.Intn(4) {
		case 0, 1:
			p.Setup = append(p.Setup, core.Op{K: "set", A: k, V: g.Uniq()})
		case 2:
			if g.Intn(3) == 0 {
				p.Setup = append(p.Setup, core.Op{K: "empty", A: k})
			}
		}
	}
	nc := 2 + g.Intn(3)
	size := simrt.Choose(g.Rand, 4, 10, 20)
	hot := core.Pick(g, keys)
	var due int64
	if g.Intn(4) == 0 {
		due = int64(time.Millisecond)
	}
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := core.Op{A: core.Pick(g, keys), N: g.Intn(3)}
			if g.Intn(2) == 0 {
				o.A = hot
			}
			switch g.Intn(12) {
			case 0, 1, 2, 3:
				o.K, o.V = "set", g.Uniq()
			case 4, 5:
				o.K, o.V = core.Pick(g, []string{"merge", "load", "event"}), g.Str()
				for n := g.Intn(3); n > 0 && o.K != "merge"; n-- {
					if k := core.Pick(g, keys); k != o.A && !contains(o.L, k) {
						o.L = append(o.L, k)
					}
				}
				if o.K == "load" && g.Intn(3) == 0 {
					o.X = 1 + g.Intn(2)
				}
			case 6, 7, 8:
				o.K = core.Pick(g, []string{"remove", "remove", "removeex", "unevent"})
			case 9:
				o.K = core.Pick(g, []string{"empty", "setex", "setnode"})
				if o.K != "empty" {
					o.V = g.Uniq()
				}
			case 10:
				o.K = core.Pick(g, []string{"get", "walk", "getm", "comment"})
			case 11:
				o.K = core.Pick(g, []string{"rmbranch", "ttl", "sleep"})
				o.D = due
				if o.K != "sleep" {
					j := strings.LastIndex(o.A, ".")
					if j < 0 || o.K == "ttl" && due == 0 {
						o.K = "get"
						break
					}
					o.A = o.A[:j]
				} else if due == 0 {
					o.K = "get"
				}
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

const sideKey = "~side.key" // which the handlers set

// a change under way, and what the handlers were told of it
type chg struct {
	key  string
	del  bool
	v    any
	flag bool
	at   int // in the history of the key; -1: a branch
	got  []levent
}

func runC10C(p *core.Prog) {
	nh := p.Int("handlers")
	var s store.Store
	cur := map[int][]*chg{} // by goroutine
	keys, init, hist := []string{}, map[string]string{}, map[string][]linOp{}
	quiet := true
	read := func(k, who string, inv int64, v string) {
		hist[k] = append(hist[k], linOp{inv: inv, ret: simrt.Seq(), v: v, who: who})
	}
	rec := func(h int, e levent) {
		if quiet || e.key == sideKey {
			return
		}
		var c *chg
		for _, x := range cur[simrt.CurID()] {
			if x.key == e.key && x.del == (e.kind == "delete") && (x.del || same(x.v, e.v)) {
				c = x
			}
		}
		if c == nil {
			fail("event", "handler %d is told %v, which nobody does", h, e)
		}
		if e.flag != c.flag {
			fail("event", "handler %d is told %v, the flag is wrong", h, e)
		}
		for _, x := range c.got {
			if x.by == h {
				fail("event", "handler %d is told %v and then %v", h, x, e)
			}
			if x.kind != e.kind || !same(x.old, e.old) || !same(x.v, e.v) {
				fail("event", "one handler is told %v, another one %v", x, e)
			}
		}
		e.by, e.v, e.old = h, deep(e.v), deep(e.old)
		if len(c.got) == 0 && c.at >= 0 {
			o := &hist[c.key][c.at]
			o.ret = simrt.Seq() // it has been stored before
			o.swap = true
			switch {
			case e.kind == "new":
				o.old = absent
			case e.kind == "delete":
				o.old = show(e.v)
			default:
				o.old = show(e.old)
			}
		}
		c.got = append(c.got, e)
		if p.Int("uses") == 1 { // a handler may use the store
			inv := simrt.Seq()
			if v, ok := s.Get(c.key); c.at < 0 {
				// a branch
			} else if ok {
				read(c.key, "handler", inv, show(v))
			} else {
				read(c.key, "handler", inv, absent)
			}
			s.Set(sideKey, h)
			if v, ok := s.Get(sideKey); !ok || v == nil {
				fail("event", "a key which a handler sets isn't there: %v, %v", v, ok)
			}
			count("probe:a handler uses the store")
		}
		if p.Int("slow") == 1 {
			simrt.Sleep(200 * time.Microsecond)
		}
		count("probe:notified while others change keys")
	}
	opts := []store.Opt{store.WithWatchEnable(true)}
	for i := 0; i < nh; i++ {
		opts = append(opts,
			store.WithOnNewHandlers(func(path string, value any, f bool) {
				rec(i, levent{kind: "new", key: path, v: value, flag: f})
			}),
			store.WithOnChangeHandlers(func(path string, value, old any, f bool) {
				rec(i, levent{kind: "change", key: path, v: value, old: old, flag: f})
			}),
			store.WithOnDeleteHandlers(func(path string, value any, f bool) {
				rec(i, levent{kind: "delete", key: path, v: value, flag: f})
			}))
	}
	s = store.New(opts...)
	w := &provW{prov: prov{data: map[string]store.ValPkg{}}}
	if _, err := s.Load(context.Background(), store.WithProvider(w)); err != nil || w.cb == nil {
		fail("load", "a watched source can't be loaded: %v", err)
	}
	known := func(k string) {
		if _, ok := init[k]; !ok {
			init[k] = absent
			keys = append(keys, k)
		}
	}
	for _, o := range p.Setup {
		known(o.A)
		if o.K == "empty" {
			s.(KV).SetEmpty(o.A)
			init[o.A] = show(nil)
		} else {
			s.Set(o.A, mk(o.V))
			init[o.A] = show(mk(o.V))
		}
	}
	for _, c := range p.Clients {
		for _, o := range c {
			if o.K != "ttl" && o.K != "rmbranch" {
				known(o.A)
				for _, k := range o.L {
					known(k)
				}
			}
		}
	}
	sorted(keys)
	pre := p.S["prefix"]
	view := s.WithPrefix(pre)
	br := s.WithPrefix(pre).BR() // writes go to where they are asked for
	quiet = false

	begin := func(k, who, v string) int {
		hist[k] = append(hist[k], linOp{inv: simrt.Seq(), write: true, v: v, who: who})
		return len(hist[k]) - 1
	}
	end := func(k string, at int) *linOp {
		o := &hist[k][at]
		if o.ret == 0 {
			o.ret = simrt.Seq()
		}
		return o
	}
	drop := func(o *linOp) { o.write, o.v, o.swap = false, "", false }
	below := func(b string) (l []string) {
		for _, k := range keys {
			if strings.HasPrefix(k, b+".") {
				l = append(l, k)
			}
		}
		return
	}
	type expiry struct {
		k  string
		at int
	}
	var expiries []expiry
	clients(p, func(ci int, o core.Op) {
		h, path := s, o.A
		if strings.HasPrefix(o.A, pre+".") {
			switch o.N {
			case 1:
				h, path = view, o.A[len(pre)+1:]
			case 2:
				if o.K == "set" || o.K == "merge" {
					h, path = br, o.A[len(pre)+1:]
				}
			}
		}
		who := fmt.Sprintf("c%d %s", ci, o.K)
		me := simrt.CurID()
		inv := simrt.Seq()
		sets := func(flag bool, ks ...string) (l []*chg) {
			for _, k := range ks {
				l = append(l, &chg{key: k, v: mk(o.V), flag: flag, at: begin(k, who, show(mk(o.V)))})
			}
			cur[me] = l
			return
		}
		told := func(l []*chg) {
			for _, c := range l {
				if len(c.got) != nh {
					fail("event", "%s %q: %d of %d handlers were notified of %q", who, o.A, len(c.got), nh, c.key)
				}
				if c.at >= 0 {
					end(c.key, c.at)
				}
			}
		}
		untold := func(l []*chg) {
			for _, c := range l {
				if len(c.got) > 0 {
					fail("event", "%s %q did nothing, but the handlers are told %v", who, o.A, c.got[0])
				}
				if c.at >= 0 {
					drop(end(c.key, c.at))
				}
			}
		}
		defer delete(cur, me)
		switch o.K {
		case "set":
			l := sets(false, o.A)
			_, old := h.Set(path, mk(o.V))
			told(l)
			if e := l[0].got[0]; e.kind == "new" && old != nil || e.kind == "change" && !same(old, e.old) {
				fail("event", "Set(%q) returned %s, but the handlers are told %v", o.A, show(old), e)
			}
		case "merge":
			l := sets(true, o.A)
			if i := strings.LastIndex(path, "."); i > 0 {
				h.Merge(path[:i], map[string]any{path[i+1:]: mk(o.V)})
			} else {
				h.Merge("", map[string]any{path: mk(o.V)})
			}
			told(l)
		case "load":
			ks := append([]string{o.A}, o.L...)
			l := sets(true, ks...)
			pr := &prov{data: map[string]store.ValPkg{}}
			for _, k := range ks {
				pr.data[k] = store.ValPkg{Value: mk(o.V), Desc: "d"}
			}
			switch o.X {
			case 1:
				pr.readErr, pr.partial = opErr(o)
			case 2:
				count("fault:slow provider")
				pr.slow = 300 * time.Microsecond
			}
			if wr, _ := s.Load(context.Background(), store.WithProvider(pr)); wr != nil {
				told(l)
			} else { // failed, or another load was in progress
				untold(l)
			}
		case "event":
			ks := append([]string{o.A}, o.L...)
			l := sets(false, ks...)
			var vs []any
			for range ks {
				vs = append(vs, mk(o.V))
			}
			w.cb(&change{op: store.OpWrite, keys: ks, vals: vs, p: w}, nil)
			told(l)
		case "remove", "removeex", "unevent":
			l := []*chg{{key: o.A, del: true, at: begin(o.A, who, absent)}}
			cur[me] = l
			var removed bool
			switch o.K {
			case "remove":
				removed = h.Remove(path)
			case "removeex":
				_, _, removed = h.(KV).RemoveEx(path)
			default:
				w.cb(&change{op: store.OpRemove, keys: []string{o.A}, vals: []any{nil}, p: w}, nil)
				removed = len(l[0].got) > 0
			}
			if removed {
				told(l)
			} else {
				untold(l)
				read(o.A, who, inv, absent)
			}
		case "rmbranch":
			l := []*chg{{key: o.A, del: true, at: -1}}
			cur[me] = l
			for _, k := range below(o.A) {
				l = append(l, &chg{key: k, del: true, at: begin(k, who, absent)})
			}
			removed := h.Remove(path)
			for _, c := range l[1:] {
				if q := end(c.key, c.at); !removed {
					drop(q)
				}
			}
			if removed {
				told(l[:1])
			} else {
				untold(l[:1])
			}
		case "ttl":
			var l []expiry
			for _, k := range below(o.A) {
				l = append(l, expiry{k, begin(k, who, absent)})
			}
			if h.SetTTL(path, time.Duration(o.D), nil) != 0 {
				for _, x := range l {
					drop(end(x.k, x.at))
				}
				break
			}
			expiries = append(expiries, l...)
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "empty":
			// two steps: it puts the key, then it clears its value
			at, then := begin(o.A, who, show(nil)), begin(o.A, who, show(nil))
			h.(KV).SetEmpty(path)
			end(o.A, at)
			end(o.A, then).opt = true
		case "setex":
			at, n := begin(o.A, who, show(mk(o.V))), 0
			var told any
			old := h.SetEx(path, mk(o.V), func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
				n, told = n+1, oldData
				if path != o.A || node.Key() != o.A {
					fail("event", "the callback of SetEx(%q) got %q and the node %q", o.A, path, nodeKey(node))
				}
			})
			if n != 1 || !same(old, told) {
				fail("event", "SetEx(%q) returned %s, its callback ran %d times, with %s", o.A, show(old), n, show(told))
			}
			if q := end(o.A, at); old != nil {
				q.swap, q.old = true, show(old)
			}
		case "setnode":
			at := begin(o.A, who, show(mk(o.V)))
			_, old := h.(KV).SetNode(path, mk(o.V), "tag", "desc", "comment")
			if q := end(o.A, at); old != nil {
				q.swap, q.old = true, show(old)
			}
		case "get":
			if v, ok := h.Get(path); ok {
				read(o.A, who, inv, show(v))
			} else {
				read(o.A, who, inv, absent)
			}
		case "walk":
			s.Walk("", func(path, fragment string, node radix.Node[any]) {})
		case "getm":
			s.GetM("")
		case "comment":
			h.SetComment(path, "d", "c")
		}
	})
	simrt.Sleep(10 * time.Millisecond)
	simrt.WaitIdle()
	for _, x := range expiries {
		end(x.k, x.at).opt = true
	}
	for _, k := range keys {
		inv := simrt.Seq()
		if v, ok := s.Get(k); ok {
			read(k, "finally", inv, show(v))
		} else {
			read(k, "finally", inv, absent)
		}
	}
	s.Close()
	view.Close()
	br.Close()
	for _, k := range keys {
		var l []linOp
		for _, o := range hist[k] {
			if o.write || o.v != "" {
				l = append(l, o)
			}
		}
		core.State(fmt.Sprint(k, len(l)))
		if len(l) > 60 {
			continue
		}
		if !linearizable(init[k], l) {
			var sb strings.Builder
			for _, o := range l {
				fmt.Fprintf(&sb, "\n    %v", o)
			}
			fail("events", "%q: what the handlers were told is not its history, initially %s:%s", k, init[k], sb.String())
		}
		if len(l) > 2 {
			count("probe:notifications checked against the history of a key")
		}
		core.Nontrivial()
	}
}
