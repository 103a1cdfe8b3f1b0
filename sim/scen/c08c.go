package scen

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"

	"verif/sim/core"
	"verif/sim/simrt"
)

// Goroutines which write, load and save at once, statement by statement.

func init() {
	core.Register(&core.Scen{Prop: "C08", Name: "concurrent-save", Weight: 1, Gen: genC08C, Run: runC08C, Real: realStore})
}

func genC08C(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.Stmt(), I: map[string]int{}, S: map[string]string{}}
	if g.Intn(4) == 0 {
		p.Sim = g.Sync()
	}
	keys := properPool(g, simrt.Choose(g.Rand, 2, 4, 8), ".")
	if g.Intn(3) == 0 {
		p.S["prefix"] = core.Pick(g, []string{"app", "a.b", "z"})
	}
	p.S["codec"] = core.Pick(g, []string{"json", "json", "yaml", "toml", "hjson", "nestext", "gob"})
	// some keys are delivered by loads (and may be written by the user), the
	// others are written (and removed) by the user only
	var loaded, own []string
	for _, k := range keys {
		if g.Intn(2) == 0 {
			loaded = append(loaded, k)
			p.Setup = append(p.Setup, core.Op{K: "loaded", A: k, V: g.Str()})
		} else {
			own = append(own, k)
			if g.Intn(3) == 0 {
				p.Setup = append(p.Setup, core.Op{K: "set", A: k, V: g.Str()})
			}
		}
	}
	nc := 2 + g.Intn(3)
	size := simrt.Choose(g.Rand, 4, 10, 20)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			o := core.Op{A: core.Pick(g, keys), N: g.Intn(2)}
			switch g.Intn(10) {
			case 0, 1, 2, 3:
				o.K, o.V = core.Pick(g, []string{"set", "set", "merge"}), g.Str()
			case 4:
				o.K = "remove"
				if len(own) == 0 {
					o.K = "get"
					break
				}
				o.A = core.Pick(g, own)
			case 5:
				o.K = "load"
				if len(loaded) == 0 {
					o.K = "get"
					break
				}
				for n := 1 + g.Intn(3); n > 0; n-- {
					if k := core.Pick(g, loaded); !contains(o.L, k) {
						o.L = append(o.L, k)
					}
				}
				o.V = g.Str()
				o.X = g.Intn(5) // 1: fails, 2: slow
			case 6, 7, 8:
				o.K, o.X = "save", g.Intn(6) // 1: the write fails, 2: slow, 3: the codec fails
				if g.Intn(5) == 0 {
					o.K = "saveas"
				}
			default:
				o.K = "get"
			}
			ops = append(ops, o)
		}
		p.Clients = append(p.Clients, ops)
	}
	return p
}

// saveProv takes what is saved, apart for each goroutine.
type saveProv struct {
	once
	watcher
	got map[int][][]byte
	flt map[int]int
}

func (p *saveProv) Write(data []byte) error {
	me := simrt.CurID()
	simrt.SyncPoint()
	switch p.flt[me] {
	case 1:
		count("fault:provider write error")
		return errWrite
	case 2:
		count("fault:slow provider")
		simrt.Sleep(300 * time.Microsecond)
	}
	p.got[me] = append(p.got[me], append([]byte{}, data...))
	return nil
}

type saveCodec struct {
	store.Codec
	p *saveProv
}

func (c *saveCodec) Marshal(m map[string]any) ([]byte, error) {
	simrt.SyncPoint()
	if c.p.flt[simrt.CurID()] == 3 {
		count("fault:encoder error")
		return nil, errWrite
	}
	return c.Codec.Marshal(m)
}

func runC08C(p *core.Prog) {
	pre := p.S["prefix"]
	cd := codecs[p.S["codec"]]
	s := store.New(store.WithWatchEnable(true))
	keys, init, hist := []string{}, map[string]string{}, map[string][]linOp{}
	loadable := map[string]bool{}
	known := func(k string) {
		if _, ok := init[k]; !ok {
			init[k] = absent
			keys = append(keys, k)
		}
	}
	src := map[string]any{}
	for _, o := range p.Setup {
		known(o.A)
		if o.K == "loaded" {
			loadable[o.A] = true
			put(src, strings.Split(o.A, "."), mk(o.V))
			init[o.A] = show(mk(o.V))
		}
	}
	pr := &saveProv{got: map[int][][]byte{}, flt: map[int]int{}}
	if len(src) > 0 {
		b, err := cd.enc(src)
		if err != nil {
			panic(err)
		}
		pr.b = b
	} else if b, err := cd.enc(map[string]any{"zzz": "1"}); err == nil {
		pr.b = b
		known("zzz")
		loadable["zzz"] = true
		init["zzz"] = show("1")
	}
	wr, err := s.Load(context.Background(), store.WithProvider(pr), store.WithCodec(&saveCodec{cd.mk(), pr}), store.WithStorePrefix(pre))
	if err != nil || wr == nil {
		fail("load", "Load: %v, %v", wr, err)
	}
	at := s
	if pre != "" {
		at = s.WithPrefix(pre)
	}
	begun := map[string]bool{}  // the user has begun to write it
	wrote := map[string]int64{} // when the first write returned
	for _, o := range p.Setup {
		if o.K == "set" {
			at.Set(o.A, mk(o.V))
			init[o.A] = show(mk(o.V))
			begun[o.A], wrote[o.A] = true, simrt.Seq()
		}
	}
	for _, c := range p.Clients {
		for _, o := range c {
			switch o.K {
			case "save", "saveas":
			case "load":
				for _, k := range o.L { // (the shrinker may have dropped the set-up)
					known(k)
					loadable[k] = true
				}
			default:
				known(o.A)
			}
		}
	}
	sorted(keys)
	start := func(k, who, v string) int {
		hist[k] = append(hist[k], linOp{inv: simrt.Seq(), write: true, v: v, who: who})
		return len(hist[k]) - 1
	}
	end := func(k string, at int) *linOp {
		o := &hist[k][at]
		o.ret = simrt.Seq()
		return o
	}
	drop := func(o *linOp) { o.write, o.v = false, "" }
	read := func(k, who string, inv int64, v string) {
		hist[k] = append(hist[k], linOp{inv: inv, ret: simrt.Seq(), v: v, who: who})
		core.Nontrivial()
	}
	// saved: what a Save has handed over is what the user wrote
	saved := func(who string, inv int64, all bool, l [][]byte) {
		if len(l) > 1 {
			fail("save", "%s: the provider was handed %d contents", who, len(l))
		}
		m := map[string]any{}
		if len(l) == 1 {
			x, err := cd.dec(l[0])
			if err != nil {
				fail("save", "%s handed over what can't be decoded: %v: %q", who, err, l[0])
			}
			flatten(x, "", ".", m)
			if len(m) == 0 {
				fail("save", "%s handed over %q", who, l[0])
			}
		}
		for _, k := range simrt.SortedKeys(m) {
			if _, ok := init[k]; !ok {
				fail("save", "%s handed over %q", who, k)
			}
			if !all && !begun[k] {
				fail("save", "%s handed over %q, which was loaded only", who, k)
			}
		}
		for _, k := range keys {
			v, ok := m[k]
			switch {
			case ok:
				read(k, who, inv, show(v))
			case all || !loadable[k]:
				// a write still under way may count from its end on
				busy := false
				for _, o := range hist[k] {
					busy = busy || !all && o.write && (o.ret == 0 || o.ret > inv)
				}
				if !busy {
					read(k, who, inv, absent)
				}
			case wrote[k] != 0 && wrote[k] < inv:
				fail("save", "%s has not handed over %q, which the user wrote before", who, k)
			}
		}
		count("probe:saved contents compared while others write")
	}
	clients(p, func(ci int, o core.Op) {
		who := fmt.Sprintf("c%d %s", ci, o.K)
		me := simrt.CurID()
		inv := simrt.Seq()
		h, path := at, o.A
		if o.N == 1 && pre != "" {
			h, path = s, pre+"."+o.A
		}
		switch o.K {
		case "set", "merge":
			x := start(o.A, who, show(mk(o.V)))
			begun[o.A] = true
			switch o.K {
			case "set":
				h.Set(path, mk(o.V))
			case "merge":
				if i := strings.LastIndex(path, "."); i > 0 {
					h.Merge(path[:i], map[string]any{path[i+1:]: mk(o.V)})
				} else {
					h.Merge("", map[string]any{path: mk(o.V)})
				}
			}
			end(o.A, x)
			if wrote[o.A] == 0 {
				wrote[o.A] = simrt.Seq()
			}
		case "remove":
			x := start(o.A, who, absent)
			if !h.Remove(path) {
				drop(end(o.A, x))
				read(o.A, who, inv, absent)
			} else {
				end(o.A, x)
			}
		case "load":
			l := map[string]int{}
			q := &prov{data: map[string]store.ValPkg{}}
			for _, k := range o.L {
				l[k] = start(k, who, show(mk(o.V)))
				q.data[k] = store.ValPkg{Value: mk(o.V), Desc: "d"}
			}
			switch o.X {
			case 1:
				q.readErr, q.partial = opErr(o)
			case 2:
				count("fault:slow provider")
				q.slow = 300 * time.Microsecond
			}
			wr, _ := s.Load(context.Background(), store.WithProvider(q), store.WithStorePrefix(pre))
			for _, k := range o.L {
				if x := end(k, l[k]); wr == nil {
					drop(x)
				}
			}
		case "save":
			pr.flt[me], pr.got[me] = o.X, nil
			if o.X > 3 {
				pr.flt[me] = 0
			}
			err := wr.Save(context.Background())
			got := pr.got[me]
			if err == nil {
				saved(who, inv, false, got)
			} else if o.X != 1 && o.X != 3 {
				fail("save", "Save: %v", err)
			}
		case "saveas":
			q := &saveProv{got: map[int][][]byte{}, flt: map[int]int{}}
			if o.X <= 3 {
				q.flt[me] = o.X
			}
			ld, ok := wr.(interface {
				SaveAs(ctx context.Context, outfile string, opts ...store.SaveAsOpt) error
			})
			if !ok {
				return
			}
			err := ld.SaveAs(context.Background(), "", store.WithSaveAsProvider(q), store.WithSaveAsCodec(&saveCodec{cd.mk(), q}))
			if err == nil {
				saved(who, inv, true, q.got[me])
			} else if o.X != 1 && o.X != 3 {
				fail("save", "SaveAs: %v", err)
			}
		case "get":
			if v, ok := h.Get(path); ok {
				read(o.A, who, inv, show(v))
			} else {
				read(o.A, who, inv, absent)
			}
		}
	})
	me := simrt.CurID()
	pr.flt[me], pr.got[me] = 0, nil
	inv := simrt.Seq()
	if err := wr.Save(context.Background()); err != nil {
		fail("save", "Save at the end: %v", err)
	}
	saved("finally", inv, false, pr.got[me])
	for _, k := range keys {
		inv := simrt.Seq()
		if v, ok := at.Get(k); ok {
			read(k, "finally", inv, show(v))
		} else {
			read(k, "finally", inv, absent)
		}
	}
	s.Close()
	for _, k := range keys {
		var l []linOp
		for _, o := range hist[k] {
			if o.write || o.v != "" {
				l = append(l, o)
			}
		}
		core.State(fmt.Sprint(k, len(l)))
		if len(l) > 60 {
			continue
		}
		if !linearizable(init[k], l) {
			var sb strings.Builder
			for _, o := range l {
				fmt.Fprintf(&sb, "\n    %v", o)
			}
			fail("save", "%q: what was saved is not its history, initially %s:%s", k, init[k], sb.String())
		}
	}
}

func put(m map[string]any, path []string, v any) {
	for ; len(path) > 1; path = path[1:] {
		n, _ := m[path[0]].(map[string]any)
		if n == nil {
			n = map[string]any{}
			m[path[0]] = n
		}
		m = n
	}
	m[path[0]] = v
}
