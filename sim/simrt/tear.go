package simrt

import "unsafe"

// Values of several words (interfaces, strings, slices) and maps are not
// written at once by a real machine. With Config.Tear a write of one takes a
// while: another task may run before it is complete, and if that task reads or
// writes the same place then, a real run could see half of it.

// W is put after an assignment to a field.
func W[T any](p *T) {
	if s := cur; s != nil && s.cfg.Tear {
		s.window(unsafe.Pointer(p), "a write of a value")
	}
}

// R is put around a read of a field.
func R[T any](p *T) *T {
	if s := cur; s != nil && s.cfg.Tear && len(s.tears) > 0 {
		s.overlap(unsafe.Pointer(p), "a value is read")
	}
	return p
}

// MW is put after a write of a map.
func MW[M ~map[K]V, K comparable, V any](m M) {
	if s := cur; s != nil && s.cfg.Tear && m != nil {
		s.window(*(*unsafe.Pointer)(unsafe.Pointer(&m)), "a write of a map")
	}
}

// MR is put around a map which is read.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if s := cur; s != nil && s.cfg.Tear && len(s.tears) > 0 && m != nil {
		s.overlap(*(*unsafe.Pointer)(unsafe.Pointer(&m)), "a map is read")
	}
	return m
}

type tear struct {
	p    unsafe.Pointer
	t    *Task
	what string
	site int
}

func (s *Sim) window(p unsafe.Pointer, what string) {
	t := s.cur
	if s.inSched || t == nil || t.killed || len(s.runq) < 2 {
		return
	}
	s.overlap(p, what)
	n := len(s.tears)
	s.tears = append(s.tears, tear{p, t, what, t.site})
	s.stats.Windows++
	s.syncPoint()
	for i := range s.tears { // others may have come and gone meanwhile
		if s.tears[i].t == t {
			n = i
		}
	}
	s.tears = append(s.tears[:n], s.tears[n+1:]...)
}

func (s *Sim) overlap(p unsafe.Pointer, what string) {
	t := s.cur
	if s.inSched || t == nil || t.killed {
		return
	}
	for _, x := range s.tears {
		if x.p == p && x.t != t {
			s.fail("torn", what+" at "+siteName(t.site)+" while "+x.what+" at "+siteName(x.site)+" is in progress", "")
			panic(killed)
		}
	}
}
