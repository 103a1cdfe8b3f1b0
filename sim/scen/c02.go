package scen

import (
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C02", Name: "views", Weight: 1, Gen: genC02, Run: runC02, Real: realStore})
}

// ttlOp: durations are unique and never a whole millisecond, client times are
// always whole milliseconds: an expiry and a client operation never meet.
func ttlOp(g *core.Gen, path string, n *int) core.Op {
	*n++
	ms := simrt.Choose(g.Rand, 0, 1, 1, 2, 2, 5, 5, 20, 100)
	d := time.Duration(ms)*time.Millisecond + time.Duration(*n)*time.Microsecond
	if g.Intn(3) == 0 {
		d += time.Duration(g.Intn(999))
	}
	return core.Op{K: "ttl", A: path, N: g.Intn(6) / 3 * (1 + g.Intn(2)), X: g.Intn(3) / 2, D: int64(d)}
}

func sleepOp(g *core.Gen) core.Op {
	return core.Op{K: "sleep", D: int64(time.Duration(simrt.Choose(g.Rand, 1, 2, 4, 10, 60)) * time.Millisecond)}
}

func genC02(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Atomic(), I: map[string]int{}, S: map[string]string{"delim": "."}}
	if g.Intn(8) == 0 {
		p.S["delim"] = "/"
	}
	d := p.S["delim"]
	keys := keyPool(g, simrt.Choose(g.Rand, 3, 5, 8), d)
	var pres []string
	for _, k := range keys {
		if i := strings.Index(k, d); i > 0 {
			pres = append(pres, k[:i])
		} else {
			pres = append(pres, k)
		}
	}
	rel := func() string {
		k := core.Pick(g, keys)
		if i := strings.Index(k, d); i > 0 && g.Intn(3) > 0 {
			return k[i+1:]
		}
		return k
	}
	nc := 1 + g.Intn(3)
	size := simrt.Choose(g.Rand, 8, 16, 30)
	jobs := 0
	ttl := g.Intn(2) == 0
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+2; i++ {
			h := g.Intn(12)
			var o core.Op
			switch g.Intn(10) {
			case 0, 1:
				o = core.Op{K: "view", N: g.Intn(6)}
				for n := 1 + g.Intn(2); n > 0; n-- {
					o.L = append(o.L, core.Pick(g, pres))
				}
				switch g.Intn(8) {
				case 0:
					o.L = nil
				case 1:
					o.X = 1 // below a prefix that is equal to its own one
				}
			case 2:
				o = core.Op{K: "dup", N: g.Intn(2)}
				if g.Intn(4) == 0 {
					o = core.Op{K: "setprefix", L: []string{core.Pick(g, pres)}}
					if g.Intn(3) == 0 {
						o.L = nil
					}
				}
			case 4:
				if g.Intn(3) == 0 {
					o = core.Op{K: "mutval", A: rel(), B: g.Name("mut")}
					break
				}
				fallthrough
			case 3:
				if ttl {
					if g.Intn(2) == 0 {
						o = ttlOp(g, rel(), &jobs)
					} else {
						o = sleepOp(g)
					}
					break
				}
				fallthrough
			default:
				o = opC01(g, append(keys, rel(), rel()), d, false)
			}
			o.H = h
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

// world is a set of stores: several handles on several trees.
type world struct {
	delim string
	hs    []*Handle
	trees []*Tree
}

func (w *world) pick(i int) *Handle { return w.hs[i%len(w.hs)] }

func (w *world) view(h *Handle, o core.Op) {
	tasks := len(simrt.Tasks())
	if o.X == 1 && h.Prefix != "" {
		o.L = []string{h.Prefix}
		if o.N != 5 && o.N != 1 {
			o.L[0] += w.delim + "log"
		}
	}
	pre := strings.Join(o.L, w.delim)
	n := &Handle{T: h.T, Marks: true, Prefix: h.Prefix, BR: h.BR}
	switch o.N {
	case 0:
		n.S = h.S.WithPrefix(o.L...)
		n.Prefix = strings.Join(nonEmpty(h.Prefix, pre), w.delim)
	case 1:
		n.S = h.S.WithPrefixReplaced(o.L...)
		n.Prefix = pre
	case 2:
		n.S, n.BR = h.S.N(), false
	case 3:
		n.S, n.BR = h.S.R(), false
	case 4:
		n.S, n.BR = h.S.BR(), true
	case 5:
		n.S = h.S.WithPrefix()
		n.S.SetPrefix(o.L...)
		n.Prefix = pre
	}
	n.KV = n.S.(KV)
	if len(simrt.Tasks()) != tasks {
		fail("view-task", "creating a view (%s) started a goroutine", o)
	}
	mode := h.S.RecursiveMode()
	switch o.N {
	case 2:
		mode = radix.RecusiveNone
	case 3:
		mode = radix.RecusiveDown
	case 4:
		mode = radix.RecusiveUp
	}
	if m := n.S.RecursiveMode(); m != mode {
		fail("view-mode", "the view (%s) has the mode %v, it should be %v", o, m, mode)
	}
	if n.S.Prefix() != n.Prefix {
		fail("view-prefix", "the view (%s) of a store with the prefix %q has the prefix %q, it should be %q", o, h.Prefix, n.S.Prefix(), n.Prefix)
	}
	w.hs = append(w.hs, n)
	simrt.Count("probe:view made")
}

func nonEmpty(l ...string) (r []string) {
	for _, s := range l {
		if s != "" {
			r = append(r, s)
		}
	}
	return
}

func (w *world) dup(h *Handle, o core.Op) {
	tasks := len(simrt.Tasks())
	n := &Handle{T: h.T.dup(), Marks: true, Prefix: h.Prefix, BR: h.BR}
	if o.N == 0 {
		n.S = h.S.Dup()
	} else {
		n.S = h.S.Clone()
	}
	n.KV = n.S.(KV)
	if len(simrt.Tasks()) != tasks {
		fail("view-task", "duplicating a store started a goroutine")
	}
	w.hs = append(w.hs, n)
	w.trees = append(w.trees, n.T)
	h0(n).checkAll()
	simrt.Count("probe:duplicate made")
	if h.BR {
		return
	}
	for _, k := range h.T.keys() { // the inner paths, whatever they have
		for i := range k {
			if !strings.HasPrefix(k[i:], w.delim) || i == 0 {
				continue
			}
			p := k[:i]
			if h.Prefix != "" {
				if !strings.HasPrefix(p, h.Prefix+w.delim) {
					continue
				}
				p = p[len(h.Prefix)+1:]
			}
			a := fmt.Sprint(h.S.Has(p), h.S.MustGetDesc(p), h.S.MustGetComment(p), h.S.MustGetTag(p))
			b := fmt.Sprint(n.S.Has(p), n.S.MustGetDesc(p), n.S.MustGetComment(p), n.S.MustGetTag(p))
			if a != b {
				fail("dup-inner", "the path %q of the duplicate has %s, the original has %s", k[:i], b, a)
			}
		}
	}
}

// check compares each handle of each tree: all of them, as a change of one
// tree must not show up in another.
func (w *world) check(touched *Tree) {
	for _, h := range w.hs {
		if h.BR {
			if h.T == touched {
				h.checkUp()
			}
			continue
		}
		if h.T == touched || h.Prefix == "" {
			h.checkKeys()
		}
	}
}

func runC02(p *core.Prog) {
	delim := p.S["delim"]
	w := &world{delim: delim}
	t := NewTree(delim)
	w.hs = append(w.hs, storeHandle(store.New(store.WithDelimiter(rune(delim[0]))), t, ""))
	w.trees = append(w.trees, t)
	clients(p, func(c int, o core.Op) {
		h := w.pick(o.H)
		for _, t := range w.trees {
			t.lazy()
		}
		for _, h := range w.hs {
			h.resolve()
		}
		switch o.K {
		case "view":
			if len(w.hs) < 14 {
				w.view(h, o)
			}
		case "dup":
			if len(w.trees) < 4 {
				w.dup(h, o)
			}
		case "setprefix":
			h.S.SetPrefix(o.L...)
			h.Prefix = strings.Join(o.L, delim)
			if h.S.Prefix() != h.Prefix {
				fail("view-prefix", "SetPrefix(%q): the prefix is %q", o.L, h.S.Prefix())
			}
			simrt.Count("probe:prefix changed")
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "ttl":
			if h.BR && h.T.M[h.full(o.A)] == nil {
				return
			}
			h.setTTL(o)
		default:
			if h.BR && o.K != "mutval" && !mutates[o.K] && h.T.M[h.full(o.A)] == nil {
				if o.K == "get" || o.K == "has" {
					h.getUp(o.A)
				}
				return // finds it upwards
			}
			if h.BR && (o.K == "remove" || o.K == "tag" || o.K == "comment") && h.T.M[h.full(o.A)] == nil {
				return
			}
			if o.K == "all" && h.BR {
				return
			}
			h.apply(o)
		}
		if mutates[o.K] || o.C != "" || o.K == "mutval" || o.K == "view" || o.K == "dup" || o.K == "setprefix" || o.K == "sleep" {
			for _, t := range w.trees {
				t.lazy()
			}
			for _, h := range w.hs {
				h.resolve()
			}
			w.check(h.T)
		}
	})
	drain(w.trees...)
	for _, t := range w.trees {
		t.lazy()
	}
	for _, h := range w.hs {
		h.resolve()
		if h.BR {
			h.checkUp()
		} else {
			h.checkAll()
		}
		h.T.overdue()
	}
	for _, h := range w.hs {
		h.S.Close()
	}
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
	for _, h := range w.hs {
		if !h.BR {
			h.checkKeys()
		}
	}
}

// drain waits until all TTLs of the trees have rung.
func drain(ts ...*Tree) {
	var end time.Duration
	for _, t := range ts {
		for _, j := range t.Jobs {
			end = max(end, j.Due)
		}
	}
	if now := simrt.Elapsed(); end >= now {
		simrt.Sleep((end-now)/time.Millisecond*time.Millisecond + 2*time.Millisecond)
	}
	simrt.WaitIdle()
	for i := 0; i < 20; i++ { // stalls: the timer was started late
		left := 0
		for _, t := range ts {
			for _, j := range t.Jobs {
				if j.Cb && j.Rang == 0 {
					left++
				}
			}
		}
		if left == 0 {
			break
		}
		simrt.Sleep(50 * time.Millisecond)
		simrt.WaitIdle()
	}
}

// getUp looks up a key which is missing, in the recursive-up mode: the last
// piece of it is looked up at each parent.
func (h *Handle) getUp(k string) {
	key := h.full(k)
	if h.T.Ghost[key] {
		return
	}
	ps := strings.Split(key, h.T.Delim)
	var want *Ent
	at := ""
	for len(ps) > 2 && want == nil {
		ps = append(ps[:len(ps)-2:len(ps)-2], ps[len(ps)-1])
		at = strings.Join(ps, h.T.Delim)
		if h.T.Ghost[at] {
			return // an inner path: unspecified
		}
		want = h.T.M[at]
	}
	if want == nil && (h.T.M[ps[len(ps)-1]] != nil || h.T.Ghost[ps[len(ps)-1]]) {
		return // whether the root is a parent is unspecified
	}
	v, ok := h.Get(k)
	mv := h.MustGet(k)
	if want == nil {
		if ok || v != nil || mv != nil {
			fail("get-up", "Get(%q) = %s, %v, MustGet = %s in the recursive-up mode; there is no such key at any parent", key, show(v), ok, show(mv))
		}
		simrt.Count("probe:not found upwards")
		return
	}
	if !ok || !okV(want, v) || !okV(want, mv) {
		fail("get-up", "Get(%q) = %s, %v, MustGet = %s in the recursive-up mode; %q has %s", key, show(v), ok, show(mv), at, wants(want))
	}
	simrt.Count("probe:found upwards")
}

// checkUp looks up each key from somewhere below its parent.
func (h *Handle) checkUp() {
	for i, k := range simrt.SortedKeys(h.view()) {
		ps := strings.Split(k, h.T.Delim)
		last := len(ps) - 1
		for _, mid := range [][]string{{"zz"}, {"l", "zz"}, {ps[last]}}[i%3:][:1] {
			up := append(append(append([]string{}, ps[:last]...), mid...), ps[last])
			if q := strings.Join(up, h.T.Delim); h.T.M[h.full(q)] == nil {
				h.getUp(q)
			}
		}
	}
}
