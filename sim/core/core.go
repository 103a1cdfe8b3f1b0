// Package core runs the scenarios: seeded search, shrinking, replay, evidence.
package core

import (
	"fmt"
	"sort"

	"verif/sim/simrt"
)

// Op is one step of a program; the meaning of the fields depends on K.
type Op struct {
	K string            `json:"k"`
	H int               `json:"h,omitempty"`
	A string            `json:"a,omitempty"`
	B string            `json:"b,omitempty"`
	C string            `json:"c,omitempty"`
	V string            `json:"v,omitempty"`
	N int               `json:"n,omitempty"`
	X int               `json:"x,omitempty"`
	D int64             `json:"d,omitempty"`
	L []string          `json:"l,omitempty"`
	M map[string]string `json:"m,omitempty"`
}

func (o Op) String() string {
	s := o.K
	if o.H != 0 {
		s += fmt.Sprintf(" h%d", o.H)
	}
	for _, x := range []string{o.A, o.B, o.C, o.V} {
		if x != "" {
			s += fmt.Sprintf(" %q", x)
		}
	}
	if o.N != 0 || o.X != 0 {
		s += fmt.Sprintf(" n=%d x=%d", o.N, o.X)
	}
	if o.D != 0 {
		s += fmt.Sprintf(" d=%d", o.D)
	}
	if len(o.L) > 0 {
		s += fmt.Sprintf(" %q", o.L)
	}
	if len(o.M) > 0 {
		ks := make([]string, 0, len(o.M))
		for k := range o.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			s += fmt.Sprintf(" %q:%q", k, o.M[k])
		}
	}
	return s
}

// Prog is an explicit program: what the clients do and which faults happen.
// Together with a schedule it is a replay.
type Prog struct {
	Prop    string            `json:"prop"`
	Scen    string            `json:"scen"`
	Sim     simrt.Config      `json:"sim"`
	I       map[string]int    `json:"i,omitempty"`
	S       map[string]string `json:"s,omitempty"`
	Setup   []Op              `json:"setup,omitempty"`
	Clients [][]Op            `json:"clients"`
}

// Int parameter.
func (p *Prog) Int(k string) int { return p.I[k] }

// Scen is a scenario.
type Scen struct {
	Prop   string
	Name   string
	Weight int
	Gen    func(g *Gen) *Prog
	Run    func(p *Prog)
	Real   []string // components running real code
	Stub   []string // components replaced
}

var Scens []*Scen

// Register a scenario.
func Register(s *Scen) {
	if s.Weight == 0 {
		s.Weight = 1
	}
	Scens = append(Scens, s)
}

// Of lists the scenarios of a property.
func Of(prop string) (l []*Scen) {
	for _, s := range Scens {
		if s.Prop == prop {
			l = append(l, s)
		}
	}
	return
}

// Find a scenario.
func Find(prop, name string) *Scen {
	for _, s := range Scens {
		if s.Prop == prop && s.Name == name {
			return s
		}
	}
	return nil
}

// Gen has the randomness of program generation.
type Gen struct {
	*simrt.Rand
	n int
}

// Num is a fresh number.
func (g *Gen) Num() int {
	g.n++
	return g.n
}

// Uniq makes a fresh value literal, of a random type.
func (g *Gen) Uniq() string {
	g.n++
	switch g.Intn(12) {
	case 0, 1:
		return fmt.Sprintf("i:%d", 1000+g.n)
	case 2:
		return fmt.Sprintf("l:e%d,f%d", g.n, g.n)
	case 3:
		return fmt.Sprintf("L:p%d,q%d", g.n, g.n)
	case 4:
		return fmt.Sprintf("f:%d.5", g.n)
	case 5:
		return fmt.Sprintf("m:k=v%d", g.n)
	}
	return fmt.Sprintf("s:v%d", g.n)
}

// Val is a fresh value, or sometimes a zero one.
func (g *Gen) Val() string {
	if g.Intn(10) == 0 {
		return Pick(g, []string{"s:", "i:0", "b:false", "nil:", "f:0"})
	}
	return g.Uniq()
}

// Str makes a fresh string literal value.
func (g *Gen) Str() string { g.n++; return fmt.Sprintf("s:v%d", g.n) }

// Name makes a fresh plain string.
func (g *Gen) Name(p string) string { g.n++; return fmt.Sprintf("%s%d", p, g.n) }

// Pick one.
func Pick[T any](g *Gen, l []T) T { return l[g.Intn(len(l))] }

// Atomic, Sync and Stmt are usual simulator configurations.
func (g *Gen) Atomic() simrt.Config {
	c := simrt.Config{Mode: simrt.ModeAtomic, Policy: "rw"}
	g.env(&c)
	return c
}

func (g *Gen) env(c *simrt.Config) {
	if g.Intn(4) != 0 {
		c.MapSeed = g.Uint64() | 1
	}
	if g.Intn(2) == 0 {
		c.PoolSeed = g.Uint64() | 1
	}
	c.MaxSteps = 50_000_000
}

func (g *Gen) Sync() simrt.Config {
	c := simrt.Config{Mode: simrt.ModeSync, Policy: "rw"}
	c.SyncP = simrt.Choose(g.Rand, 0.05, 0.2, 0.5)
	if g.Intn(3) == 0 {
		c.Policy, c.Depth, c.PreemptP = "pct", 1+g.Intn(4), 0.5
	}
	c.Tear = g.Intn(3) != 0
	g.env(&c)
	return c
}

func (g *Gen) Stmt() simrt.Config {
	c := simrt.Config{Mode: simrt.ModeStmt, Policy: "rw"}
	c.PreemptP = simrt.Choose(g.Rand, 0.01, 0.03, 0.1, 0.3)
	c.SyncP = simrt.Choose(g.Rand, 0.05, 0.2, 0.5)
	if g.Intn(3) == 0 {
		c.Policy, c.Depth, c.PreemptP = "pct", 1+g.Intn(5), 0.5
	}
	c.Tear = g.Intn(3) != 0
	g.env(&c)
	return c
}

// Any of the three.
func (g *Gen) AnyCfg() simrt.Config {
	switch g.Intn(4) {
	case 0:
		return g.Atomic()
	case 1:
		return g.Sync()
	}
	return g.Stmt()
}
