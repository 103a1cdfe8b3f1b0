package scen

import (
	"fmt"
	"strings"
	"time"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	for _, s := range []struct {
		prop, name string
		gen        func(g *core.Gen) *core.Prog
	}{
		{"C06", "load faults", genC06},
		{"C07", "load contents", genC07},
		{"C08", "save", genC08},
		{"C09", "watch", genC09},
		{"C10", "handlers", genC10},
	} {
		core.Register(&core.Scen{Prop: s.prop, Name: s.name, Weight: 3, Gen: s.gen, Run: lwRun, Real: loadReal, Stub: loadStub})
	}
}

// lmix: how often which operation.
type lmix struct {
	*core.Gen
	p      *core.Prog
	keys   []string
	proper bool
	kinds  []int
	faultP float64
	plain  bool // values every codec can hold
	nulls  bool // the codecs in use can hold nulls
	w      map[string]int
}

func newMix(g *core.Gen, proper bool) *lmix {
	m := &lmix{Gen: g, p: &core.Prog{Sim: g.Atomic(), I: map[string]int{}, S: map[string]string{}}, proper: proper}
	n := simrt.Choose(g.Rand, 3, 5, 8, 14)
	if proper {
		m.keys = properPool(g, n, ".")
	} else {
		m.keys = keyPool(g, n, ".")
	}
	for k := 0; k < kinds; k++ {
		m.kinds = append(m.kinds, k)
	}
	m.p.I["flat"] = g.Intn(2)
	m.p.I["allow"] = 1
	if g.Intn(6) == 0 {
		m.p.I["allow"] = 0
	}
	return m
}

func (m *lmix) val() string {
	if m.plain {
		if m.nulls && m.Intn(12) == 0 {
			return "nil:"
		}
		switch m.Intn(20) {
		case 0, 1, 5, 6:
			return fmt.Sprintf("i:%d", 1+m.Intn(100000))
		case 2:
			return fmt.Sprintf("f:%d.5", m.Intn(1000))
		case 3:
			return fmt.Sprintf("b:%v", m.Intn(2) == 0)
		case 4:
			return "l:" + m.Name("e") + "," + m.Name("f")
		case 7, 8:
			return core.Pick(m.Gen, []string{"s:", "i:0", "b:false", "f:0.0"})
		case 9:
			return core.Pick(m.Gen, []string{"s: ", "s:true", "s:0", "s:null", "s:~", "s:12e3", "s:a: b", "s:#x", "s:\"q\"", "s:'", "s:x\ny", "s:é𠀀", "s:[a", "s:2024-01-01"})
		}
		return m.Str()
	}
	n := m.Name("")
	switch m.Intn(16) {
	case 0:
		return "lm:p=" + n + ",q=1;p=2"
	case 1:
		return "ll:" + n + ",y;z"
	case 2:
		return "LM:p=" + n + ";q=2"
	case 3:
		return "LA:p=" + n + ";q=2,r=3"
	case 4:
		return "b:true"
	case 5:
		return "nil:"
	case 6:
		return core.Pick(m.Gen, []string{"l0:", "l0:", "LM0:", "LA0:"})
	case 7: // ten and more
		w := strings.Repeat("w,", 9+m.Intn(4))
		return core.Pick(m.Gen, []string{"l:" + w + n, "LM:" + strings.Repeat("p=w;", 9+m.Intn(4)) + "q=" + n, "LA:" + strings.Repeat("p=w;", 10) + "q=" + n, "lm:" + strings.Repeat("p=w;", 10) + "q=" + n})
	}
	return m.Uniq()
}

// data of a source; top: '|' nests.
func (m *lmix) data(max int) map[string]string {
	d := map[string]string{}
	for n := 1 + m.Intn(max); n > 0; n-- {
		k := core.Pick(m.Gen, m.keys)
		ps := strings.Split(k, ".")
		s := ps[0]
		for _, p := range ps[1:] {
			if m.Intn(4) > 0 {
				s += "|"
			} else {
				s += "."
			}
			s += p
		}
		for x := range d {
			if strings.ReplaceAll(x, "|", ".") == k {
				delete(d, x)
			}
		}
		v := m.val()
		if !m.proper && (v[0] == 'm' || strings.HasPrefix(v, "l") || strings.HasPrefix(v, "L")) {
			v = m.Str()
		}
		d[s] = v
	}
	// a name is either plain or nested
	for x := range d {
		for y := range d {
			if x != y && strings.HasPrefix(strings.ReplaceAll(y, "|", ".")+".", strings.ReplaceAll(x, "|", ".")+".") && strings.HasPrefix(y, x+"|") {
				delete(d, x)
			}
		}
	}
	return d
}

func (m *lmix) dur() int64 {
	if m.Intn(3) > 0 {
		return 0
	}
	return int64(1+m.Intn(4)) * int64(time.Millisecond)
}

func (m *lmix) load() core.Op {
	o := core.Op{K: "load", N: core.Pick(m.Gen, m.kinds), C: core.Pick(m.Gen, codecList), M: m.data(6), D: m.dur()}
	if m.nulls {
		o.C = core.Pick(m.Gen, []string{"json", "yaml", "hjson"})
	}
	for b := xWatchable; b <= xSlowNext; b <<= 1 {
		if m.Intn(3) == 0 {
			o.X |= b
		}
	}
	if m.w["event"] > 0 {
		if m.Intn(3) > 0 {
			o.X |= xWatchable
			o.X &^= xNoWatch
		}
	}
	if m.Intn(4) == 0 {
		o.A = m.prefix()
	}
	if o.N == kRead {
		for k := range o.M {
			if !strings.Contains(k, "|") {
				o.L = append(o.L, k)
			}
		}
		sorted(o.L)
		o.L = o.L[:m.Intn(len(o.L)+1)]
	}
	if o.N == kMaps {
		for k, v := range o.M {
			if strings.HasPrefix(v, "LA:") {
				o.M[k] = "lm:" + v[3:]
			}
		}
	}
	if m.Float64() < m.faultP {
		pos := m.Intn(200)
		o.B = simrt.Choose(m.Rand, "read", "open", "decode", "nil", fmt.Sprint("trunc:", pos), fmt.Sprint("flip:", pos), fmt.Sprint("garbage:", pos), fmt.Sprint("trunc:", pos), fmt.Sprint("flip:", pos), "empty:0",
			fmt.Sprint("dup:", pos), fmt.Sprint("dup:", pos), fmt.Sprint("drop:", pos), fmt.Sprint("swap:", pos), fmt.Sprint("torn:", pos))
	}
	return o
}

func (m *lmix) prefix() string {
	if m.Intn(3) == 0 {
		if k := core.Pick(m.Gen, m.keys); strings.Contains(k, ".") {
			return k[:strings.LastIndex(k, ".")]
		}
	}
	return core.Pick(m.Gen, []string{"app", "zz", "zz.y", "log"})
}

func (m *lmix) op() core.Op {
	sum := 0
	ks := simrt.SortedKeys(m.w)
	for _, k := range ks {
		sum += m.w[k]
	}
	n := m.Intn(sum)
	var kind string
	for _, k := range ks {
		if n -= m.w[k]; n < 0 {
			kind = k
			break
		}
	}
	o := core.Op{K: kind, H: 0}
	if m.Intn(2) == 0 {
		o.H = m.Intn(5)
	}
	k := core.Pick(m.Gen, m.keys)
	switch kind {
	case "load":
		l := m.load()
		l.H = o.H
		return l
	case "again", "close", "all":
		o.N = m.Intn(100)
	case "view":
		o.N = m.Intn(4)
		o.L = []string{core.Pick(m.Gen, []string{"app", "zz", "a", "log"})}
		if m.Intn(3) == 0 {
			o.L = append(o.L, core.Pick(m.Gen, []string{"y", "server"}))
		}
	case "set":
		o.A, o.V = k, m.val()
	case "merge":
		o.M = m.data(4)
		if m.Intn(2) == 0 {
			o.A = m.prefix()
		}
	case "remove":
		o.A, o.N = k, m.Intn(2)
	case "within":
		o.M, o.D = m.data(3), m.dur()
	case "event":
		o.N, o.X, o.M = m.Intn(16), m.Intn(100), m.data(4)
		if m.Intn(3) == 0 {
			// a path of a branch, or one of other sources
			if ps := strings.Split(k, "."); len(ps) > 1 {
				o.M[strings.Join(ps[:1+m.Intn(len(ps)-1)], ".")] = m.Str()
			}
		}
		if m.Intn(2) == 0 {
			o.N = m.Intn(3)
		}
	case "save", "saveas":
		o.N, o.X, o.D = m.Intn(100), m.Intn(30), m.dur()
		if m.Float64() < m.faultP {
			o.B = simrt.Choose(m.Rand, "write", "marshal")
		}
	case "sleep":
		o.D = int64(1+m.Intn(5)) * int64(time.Millisecond)
		if m.Intn(6) == 0 {
			o.D = int64(30 * time.Hour)
		}
	case "get", "has", "meta", "getm", "comment", "tag":
		o.A, o.B, o.C = pathFrom(m.Gen, m.keys, "."), m.Name("d"), m.Name("c")
	}
	return o
}

func (m *lmix) done(nc, size int) *core.Prog {
	m.p.I["badcodec"] = m.Intn(2)
	for c := 0; c < nc; c++ {
		var ops []core.Op
		for i := 0; i < size/nc+1; i++ {
			ops = append(ops, m.op())
		}
		m.p.Clients = append(m.p.Clients, ops)
	}
	return m.p
}

func genC06(g *core.Gen) *core.Prog {
	m := newMix(g, g.Intn(2) == 0)
	m.faultP = 0.6
	m.w = map[string]int{"load": 10, "set": 4, "merge": 1, "remove": 2, "view": 1, "sleep": 1, "within": 1, "again": 1, "get": 1}
	return m.done(1+g.Intn(3), simrt.Choose(g.Rand, 4, 8, 16, 30))
}

func genC07(g *core.Gen) *core.Prog {
	m := newMix(g, g.Intn(2) == 0)
	m.w = map[string]int{"load": 10, "set": 3, "remove": 2, "view": 1, "again": 3, "get": 1, "meta": 1, "getm": 1, "comment": 1, "tag": 1, "all": 1}
	return m.done(1+g.Intn(2), simrt.Choose(g.Rand, 3, 6, 12, 24))
}

func genC08(g *core.Gen) *core.Prog {
	m := newMix(g, true)
	m.plain = true
	m.nulls = g.Intn(6) == 0
	m.kinds = []int{kOnce, kOnce, kOnce, kFile, kRead, kStream}
	m.faultP = simrt.Choose(g.Rand, 0, 0.25)
	m.w = map[string]int{"load": 4, "set": 8, "merge": 2, "remove": 2, "view": 1, "sleep": 2, "within": 2, "save": 6, "saveas": 2}
	p := m.done(1+g.Intn(3), simrt.Choose(g.Rand, 5, 10, 20, 40))
	if g.Intn(3) > 0 {
		l := m.load()
		l.N, l.B = kOnce, ""
		p.Setup = append(p.Setup, l)
	}
	return p
}

func genC09(g *core.Gen) *core.Prog {
	m := newMix(g, g.Intn(2) == 0)
	m.kinds = []int{kRead, kOnce, kStream, kRead, kRead, kMaps, kFile}
	m.p.I["handlers"] = g.Intn(2)
	m.w = map[string]int{"load": 5, "set": 3, "remove": 2, "view": 1, "event": 12, "sleep": 1, "get": 1, "within": 1}
	if g.Intn(2) == 0 {
		m.w["close"] = 1
	}
	return m.done(1+g.Intn(3), simrt.Choose(g.Rand, 5, 10, 20, 40))
}

func genC10(g *core.Gen) *core.Prog {
	m := newMix(g, g.Intn(2) == 0)
	m.p.I["handlers"] = 1 + g.Intn(3)
	m.p.I["nilh"] = g.Intn(3) / 2
	if g.Intn(3) == 0 {
		m.p.S["prefix"] = simrt.Choose(g.Rand, "app", "log.x", "root")
	}
	m.faultP = simrt.Choose(g.Rand, 0, 0.3)
	m.w = map[string]int{"load": 4, "set": 8, "merge": 3, "remove": 5, "view": 1, "event": 2, "sleep": 1, "within": 2, "again": 1}
	return m.done(1+g.Intn(3), simrt.Choose(g.Rand, 5, 10, 20, 40))
}
