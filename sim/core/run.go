package core

import (
	"hash/fnv"

	"verif/sim/simrt"
)

// SeedOf derives the seed of a run.
func SeedOf(base uint64, prop string, idx int) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(prop))
	return simrt.Mix(simrt.Mix(base, h.Sum64()), uint64(idx)+1)
}

// Generate the program of a seed.
func Generate(prop string, seed uint64) (*Scen, *Prog) {
	g := &Gen{Rand: simrt.NewRand(seed)}
	l := Of(prop)
	sum := 0
	for _, s := range l {
		sum += s.Weight
	}
	k := g.Intn(sum)
	for _, s := range l {
		if k -= s.Weight; k < 0 {
			p := s.Gen(g)
			p.Prop, p.Scen = s.Prop, s.Name
			return s, p
		}
	}
	panic("no scenario for " + prop)
}

// Result of a run.
type Result struct {
	V     *simrt.Violation
	Sch   *simrt.Schedule
	Stats simrt.Stats
	Log   []string
}

// Exec runs a program: with the scheduler seeded, or with a schedule.
func Exec(s *Scen, p *Prog, seed uint64, sch *simrt.Schedule, keepLog bool) *Result {
	sim := simrt.New(p.Sim, simrt.Mix(seed, 0x5eed), sch, keepLog)
	v, rec, st := sim.Run(func() { s.Run(p) })
	return &Result{v, rec, st, sim.LogLines()}
}
