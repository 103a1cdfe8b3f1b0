package core

import (
	"encoding/json"
	"time"

	"verif/sim/simrt"
)

func clone(p *Prog) *Prog {
	b, _ := json.Marshal(p)
	q := &Prog{}
	_ = json.Unmarshal(b, q)
	return q
}

// Shrink a failing program and its schedule.
func Shrink(s *Scen, p *Prog, sch *simrt.Schedule, kind string, limit time.Duration) (*Prog, *simrt.Schedule, *Result) {
	end := time.Now().Add(limit)
	late := func() bool { return time.Now().After(end) }
	best, bsch := clone(p), sch
	var bres *Result
	ok := func(r *Result) bool { return r.V != nil && r.V.Kind == kind }
	// try a program: with the schedule we have, then without any
	// preemption, then with fresh seeds
	try := func(q *Prog) bool {
		if r := Exec(s, q, 0, bsch, false); ok(r) {
			best, bres = q, r
			return true
		}
		if r := Exec(s, q, 0, &simrt.Schedule{}, false); ok(r) {
			best, bsch, bres = q, &simrt.Schedule{}, r
			return true
		}
		for i := 0; i < 12 && !late(); i++ {
			r := Exec(s, q, uint64(i)*7919+13, nil, false)
			if ok(r) {
				// the recorded schedule has to reproduce it
				if r2 := Exec(s, q, 0, r.Sch, false); ok(r2) {
					best, bsch, bres = q, r.Sch, r2
					return true
				}
			}
		}
		return false
	}
	for round := 0; round < 4 && !late(); round++ {
		changed := false
		// whole clients
		for i := 0; i < len(best.Clients) && !late(); i++ {
			if len(best.Clients[i]) == 0 {
				continue
			}
			q := clone(best)
			q.Clients[i] = nil
			if try(q) {
				changed = true
			}
		}
		// operations, chunks first
		lists := len(best.Clients) + 1
		for li := 0; li < lists && !late(); li++ {
			get := func(q *Prog) *[]Op {
				if li == 0 {
					return &q.Setup
				}
				return &q.Clients[li-1]
			}
			for chunk := max(len(*get(best))/2, 1); chunk >= 1 && !late(); chunk /= 2 {
				for at := 0; at < len(*get(best)) && !late(); {
					q := clone(best)
					l := get(q)
					hi := min(at+chunk, len(*l))
					*l = append((*l)[:at:at], (*l)[hi:]...)
					if try(q) {
						changed = true
					} else {
						at += chunk
					}
				}
				if chunk == 1 {
					break
				}
			}
			// smaller maps and lists inside of an operation
			for i := 0; i < len(*get(best)) && !late(); i++ {
				for _, k := range simrt.SortedKeys((*get(best))[i].M) {
					q := clone(best)
					delete((*get(q))[i].M, k)
					if try(q) {
						changed = true
					}
				}
			}
		}
		if best.Sim.MapSeed != 0 || best.Sim.PoolSeed != 0 {
			q := clone(best)
			q.Sim.MapSeed, q.Sim.PoolSeed = 0, 0
			if try(q) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// the schedule
	trySch := func(c *simrt.Schedule) bool {
		if r := Exec(s, best, 0, c, false); ok(r) {
			bsch, bres = c, r
			return true
		}
		return false
	}
	if bsch != nil {
		trySch(&simrt.Schedule{})
		for round := 0; round < 3 && !late(); round++ {
			n := len(bsch.Switches) + len(bsch.Picks) + len(bsch.Sels)
			shrinkList(&late, len(bsch.Switches), func(lo, hi int) bool {
				c := *bsch
				c.Switches = append(append([]simrt.Switch{}, bsch.Switches[:lo]...), bsch.Switches[hi:]...)
				return trySch(&c)
			}, func() int { return len(bsch.Switches) })
			shrinkList(&late, len(bsch.Picks), func(lo, hi int) bool {
				c := *bsch
				c.Picks = append(append([]simrt.Pick{}, bsch.Picks[:lo]...), bsch.Picks[hi:]...)
				return trySch(&c)
			}, func() int { return len(bsch.Picks) })
			shrinkList(&late, len(bsch.Sels), func(lo, hi int) bool {
				c := *bsch
				c.Sels = append(append([]simrt.Pick{}, bsch.Sels[:lo]...), bsch.Sels[hi:]...)
				return trySch(&c)
			}, func() int { return len(bsch.Sels) })
			if len(bsch.Switches)+len(bsch.Picks)+len(bsch.Sels) == n {
				break
			}
		}
	}
	return best, bsch, bres
}

func shrinkList(late *func() bool, n int, del func(lo, hi int) bool, size func() int) {
	for chunk := max(n/2, 1); chunk >= 1; chunk /= 2 {
		for at := 0; at < size(); {
			if (*late)() {
				return
			}
			if !del(at, min(at+chunk, size())) {
				at += chunk
			}
		}
		if chunk == 1 {
			return
		}
	}
}
