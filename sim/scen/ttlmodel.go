package scen

import (
	"time"

	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

// Job is a pending TTL of the model.
type Job struct {
	ID     int
	Key    string
	Branch bool
	Gen    int
	From   time.Duration
	Due    time.Duration
	Cb     bool
	Rang   int
	Done   bool // rung, or never going to have an effect
	Gone   bool // its branch was removed
	Maybe  bool // its branch lost all keys: may have kept its identity or not
	loose  bool // statement level: the clearing may still be in progress
	h      *Handle
	task   *simrt.Task // it rang in
}

// jobsRemoved: the branch at p, and all below, was removed.
func (t *Tree) jobsRemoved(p string) {
	for _, j := range t.Jobs {
		if j.Branch && !j.Done && (j.Key == p || t.under(j.Key, p)) {
			j.Gone = true
		}
	}
}

// expire applies the effect of a job to the model.
func (t *Tree) expire(j *Job) {
	if j.Done {
		return
	}
	j.Done = true
	t.ranTTL++
	if !j.Branch {
		if e := t.M[j.Key]; e != nil && e.Gen == j.Gen {
			e.V, e.Tag, e.Alt = nil, nil, nil
			simrt.Count("probe:leaf expired")
		} else {
			simrt.Count("probe:expired after its key was removed")
		}
		return
	}
	if j.Gone {
		simrt.Count("probe:expired after its branch was removed")
		return
	}
	if j.Maybe {
		j.loose = true // resolved by look
		return
	}
	n := t.removeAll(j.Key, false)
	t.jobsRemoved(j.Key)
	simrt.Count("probe:branch expired")
	if n > 1 {
		simrt.Count("probe:branch with several keys expired")
	}
}

// lazy applies the jobs without callback which are due.
func (t *Tree) lazy() {
	for {
		var best *Job
		for _, j := range t.Jobs {
			if !j.Cb && !j.Done && j.Due <= simrt.Elapsed() && (best == nil || j.Due < best.Due) {
				best = j
			}
		}
		if best == nil {
			return
		}
		t.expire(best)
	}
}

// resolve looks at the real store, where the model allows both.
func (h *Handle) resolve() {
	t := h.T
	for _, j := range t.Jobs {
		if !j.Branch || !j.loose {
			continue
		}
		j.loose = false
		any := false
		m, _ := h.GetM("")
		for k := range m {
			if t.under(h.full(k), j.Key) {
				any = true
			}
		}
		if !any {
			t.removeAll(j.Key, false)
			t.jobsRemoved(j.Key)
		}
		simrt.Count("probe:expiry of a branch that was emptied before")
	}
}

// setTTL runs the operation. After atomic client operations only.
func (h *Handle) setTTL(o core.Op) {
	t := h.T
	key := h.full(o.A)
	e := t.M[key]
	d := time.Duration(o.D)
	j := &Job{ID: len(t.Jobs), Key: key, From: simrt.Elapsed(), Due: simrt.Elapsed() + d, Cb: o.X != 1, h: h}
	if e != nil {
		j.Gen = e.Gen
	} else {
		j.Branch = true
	}
	var cb radix.OnTTLRinging[any]
	if j.Cb {
		cb = func(s *radix.TTL[any], nd radix.Node[any]) {
			j.task = simrt.CurTask()
			h.rang(j, nd, o)
		}
	}
	// the call may block: it is pending meanwhile
	if d >= 200 {
		if j.Branch && !t.hasUnder(key) {
			j.Maybe = true
		}
		t.Jobs = append(t.Jobs, j)
	}
	ghost := t.Ghost[key]
	state := 0
	defer func() {
		if state != 0 {
			for i, x := range t.Jobs {
				if x == j {
					t.Jobs = append(t.Jobs[:i:i], t.Jobs[i+1:]...)
				}
			}
		}
	}()
	switch o.N {
	case 1, 2:
		var node radix.Node[any]
		h.GetEx(o.A, func(nd radix.Node[any], data any, branch bool, kvpair radix.KVPair) { node = nd })
		if node == nil {
			if e != nil {
				fail("getex", "GetEx(%q) doesn't find an existing key", key)
			}
			state = -1
			return
		}
		if o.N == 1 {
			state = h.SetTTLFast(node, d, cb)
		} else {
			node.SetTTL(d, h.trie(), cb)
		}
	default:
		state = h.SetTTL(o.A, d, cb)
	}
	switch {
	case e != nil && state != 0:
		fail("ttl-state", "SetTTL(%q) returned %d for an existing key", key, state)
	case e == nil && state == 0 && !ghost:
		fail("ttl-state", "SetTTL(%q) returned 0, there is no such key or branch", key)
	}
}

func (h *Handle) trie() radix.Trie[any] {
	if t, ok := h.KV.(radix.Trie[any]); ok {
		return t
	}
	// the trie inside of a store isn't reachable: SetTTLFast is what it calls
	return fastTrie{kv: h.KV}
}

type fastTrie struct {
	radix.Trie[any]
	kv KV
}

func (t fastTrie) SetTTLFast(node radix.Node[any], ttl time.Duration, cb radix.OnTTLRinging[any]) (state int) {
	return t.kv.SetTTLFast(node, ttl, cb)
}

// rang is the callback of a job: the effect follows right after.
func (h *Handle) rang(j *Job, nd radix.Node[any], o core.Op) {
	t := h.T
	if t.stmt {
		h.rangStmt(j, nd)
		return
	}
	t.lazy()
	h.resolve()
	j.Rang++
	if j.Rang > 1 {
		fail("ttl-twice", "the TTL callback of %q ran %d times", j.Key, j.Rang)
	}
	if simrt.Elapsed() < j.Due {
		fail("ttl-early", "the TTL of %q rang at %v, it is due at %v", j.Key, simrt.Elapsed(), j.Due)
	}
	if !j.Branch {
		if e := t.M[j.Key]; e != nil && e.Gen == j.Gen {
			v, ok := h0(h).Get(j.Key)
			if !ok || !okV(e, v) {
				fail("ttl-early", "in the TTL callback of %q its value is %s, %v; the model has %s", j.Key, show(v), ok, wants(e))
			}
			if nodeKey(nd) != j.Key || !okV(e, nd.Data()) {
				fail("ttl-node", "the TTL callback of %q got the node %q with %s; the model has %s", j.Key, nodeKey(nd), show(nd.Data()), wants(e))
			}
			core.Nontrivial()
		}
	} else if !j.Gone {
		h0(h).checkKeys() // nothing may have been dropped yet
	}
	switch o.X { // the callback uses the store
	case 2:
		if !j.Branch || j.Gone {
			h.apply(core.Op{K: "set", A: o.B, V: "s:cb"})
		}
	case 3:
		if !j.Branch && t.M[j.Key] != nil {
			h.apply(core.Op{K: "set", A: o.A, V: "s:cb"})
		}
	case 4:
		if len(t.Jobs) < 12 {
			n := o
			n.X, n.N, n.D = 0, 0, o.D+int64(100*time.Microsecond)
			h.setTTL(n)
		}
	}
	t.expire(j)
}

// rangStmt: as rang, where the client may be in the middle of an operation
// and the clearing may happen any time until this task has ended.
func (h *Handle) rangStmt(j *Job, nd radix.Node[any]) {
	t := h.T
	j.Rang++
	if j.Rang > 1 {
		fail("ttl-twice", "the TTL callback of %q ran %d times", j.Key, j.Rang)
	}
	if simrt.Elapsed() < j.Due {
		fail("ttl-early", "the TTL of %q rang at %v, it is due at %v", j.Key, simrt.Elapsed(), j.Due)
	}
	if !j.Branch && nodeKey(nd) != j.Key {
		fail("ttl-node", "the TTL callback of %q got the node %q", j.Key, nodeKey(nd))
	}
	j.Done = true
	t.ranTTL++
	if e := t.M[j.Key]; e != nil && e.Gen == j.Gen {
		pre, busy, ops := e.allowed(), t.busy, t.ops
		if v := nd.Data(); busy != j.Key && ops == t.ops && t.M[j.Key] == e && !oneOf(pre, v) && !okV(e, v) {
			fail("ttl-node", "the TTL callback of %q got a node with %s; the model has %s", j.Key, show(v), wants(e))
		}
		e.Win = append(e.Win, simrt.CurTask())
		e.opened++
		if t.busy == j.Key {
			e.wrote = true
			simrt.Count("probe:leaf expired while it was written")
		}
		core.Nontrivial()
		simrt.Count("probe:leaf expired")
		if t.busy != "" {
			simrt.Count("probe:leaf expired in the middle of an operation")
		}
	} else {
		simrt.Count("probe:expired after its key was removed")
	}
}

// settle: all clearings of the key in progress have ended.
func (e *Ent) settle() {
	for _, t := range e.Win {
		if !t.Done() {
			return
		}
	}
	e.Win = nil
	if e.wrote {
		e.wrote = false
		e.Alt = []any{nil} // the write or the clearing was the last one
		return
	}
	e.V, e.Tag, e.Alt = nil, nil, nil
}

// h0 is a handle of the same tree without a prefix.
func h0(h *Handle) *Handle {
	if h.Prefix == "" {
		return h
	}
	if h.S != nil {
		n := storeHandle(h.S.WithPrefixReplaced(), h.T, "")
		n.BR = h.BR
		return n
	}
	if t, ok := h.KV.(radix.Trie[any]); ok {
		return &Handle{KV: t.WithPrefixReplaced(), T: h.T}
	}
	return h
}

// overdue: after the system got idle, all due jobs must have rung.
func (t *Tree) overdue() {
	for _, j := range t.Jobs {
		if j.Cb && j.Rang == 0 && j.Due < simrt.Elapsed() {
			fail("ttl-lost", "the TTL of %q, due at %v, has not rung at %v", j.Key, j.Due, simrt.Elapsed())
		}
	}
}
