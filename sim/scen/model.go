// Package scen has the scenarios: programs against the real code, checked by
// small reference models.
package scen

import (
	"fmt"
	"io"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hashicorp/go-hclog"
	logz "github.com/hedzr/logg/slog"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"

	"verif/sim/core"
	"verif/sim/simrt"
)

func init() {
	logz.SetLevel(logz.OffLevel)
	hclog.DefaultOutput = io.Discard
}

var realStore = []string{"store.go, load.go, new.go (package store)", "radix/* (package radix)"}

// --- values

// mk builds the value of a literal.
func mk(lit string) any {
	k, v, _ := strings.Cut(lit, ":")
	switch k {
	case "s":
		return v
	case "i":
		n, _ := strconv.Atoi(v)
		return n
	case "f":
		f, _ := strconv.ParseFloat(v, 64)
		return f
	case "b":
		return v == "true"
	case "l":
		var l []any
		for _, x := range strings.Split(v, ",") {
			l = append(l, x)
		}
		return l
	case "L":
		return strings.Split(v, ",")
	case "m":
		return smallMap(v)
	case "lm": // a list of maps
		var l []any
		for _, x := range strings.Split(v, ";") {
			l = append(l, smallMap(x))
		}
		return l
	case "LM":
		var l []map[string]any
		for _, x := range strings.Split(v, ";") {
			l = append(l, smallMap(x))
		}
		return l
	case "LA":
		var l []map[any]any
		for _, x := range strings.Split(v, ";") {
			m := map[any]any{}
			for k, y := range smallMap(x) {
				m[k] = y
			}
			l = append(l, m)
		}
		return l
	case "e":
		return map[string]any{}
	case "l0":
		return []any{}
	case "LM0":
		return []map[string]any{}
	case "LA0":
		return []map[any]any{}
	case "ll": // a list of lists
		var l []any
		for _, x := range strings.Split(v, ";") {
			l = append(l, mk("l:"+x))
		}
		return l
	}
	return nil
}

func smallMap(v string) map[string]any {
	m := map[string]any{}
	for _, x := range strings.Split(v, ",") {
		a, b, _ := strings.Cut(x, "=")
		m[a] = b
	}
	return m
}

func show(v any) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

func deep(v any) any {
	switch z := v.(type) {
	case []any:
		n := make([]any, len(z))
		for i := range z {
			n[i] = deep(z[i])
		}
		return n
	case []string:
		return append([]string{}, z...)
	case map[string]any:
		n := map[string]any{}
		for k, x := range z {
			n[k] = deep(x)
		}
		return n
	}
	return v
}

func same(a, b any) bool { return show(a) == show(b) }

// --- the model

// Ent is a key of the model.
type Ent struct {
	V         any
	Desc, Cmt string
	Tag       any
	Mod       bool
	ModAny    bool // unspecified
	Gen       int
	Alt       []any         // other values allowed right now (a racing expiry)
	Win       []*simrt.Task // clearings in progress
	wrote     bool          // written meanwhile
	opened    int           // clearings started
}

// Tree is the reference model: a plain map of full dotted keys.
type Tree struct {
	M      map[string]*Ent
	Ghost  map[string]bool // inner paths which exist, or existed
	Delim  string
	gen    int
	Jobs   []*Job
	ranTTL int
	stmt   bool   // one client; TTLs may ring in the middle of its operations
	busy   string // its operation in progress
	opened int
	ops    int
}

// NewTree is an empty one.
func NewTree(delim string) *Tree {
	return &Tree{M: map[string]*Ent{}, Ghost: map[string]bool{}, Delim: delim}
}

func (t *Tree) keys() []string { return simrt.SortedKeys(t.M) }

func (t *Tree) ent(key string) *Ent {
	e := t.M[key]
	if e == nil {
		t.gen++
		e = &Ent{Gen: t.gen}
		t.M[key] = e
		for i := 0; i < len(key); i++ {
			if strings.HasPrefix(key[i:], t.Delim) {
				t.Ghost[key[:i]] = true
			}
		}
	}
	return e
}

func (t *Tree) under(key, p string) bool { return strings.HasPrefix(key, p+t.Delim) }

// removeAll drops the key and all below.
func (t *Tree) removeAll(p string, self bool) (n int) {
	for _, k := range t.keys() {
		if self && k == p || t.under(k, p) {
			t.del(k)
			n++
		}
	}
	return
}

func (t *Tree) del(k string) {
	delete(t.M, k)
	// a branch whose last key went away may, or may not, keep its identity
	for _, j := range t.Jobs {
		if !j.Done && j.Branch && t.under(k, j.Key) && !t.hasUnder(j.Key) {
			j.Maybe = true
		}
	}
}

func (t *Tree) hasUnder(p string) bool {
	for k := range t.M {
		if t.under(k, p) {
			return true
		}
	}
	return false
}

// proper: no key is an ancestor of another one.
func (t *Tree) proper() bool {
	for k := range t.M {
		if t.hasUnder(k) {
			return false
		}
	}
	return true
}

func (t *Tree) dup() *Tree {
	n := NewTree(t.Delim)
	n.gen = t.gen
	for k, e := range t.M {
		c := *e
		c.V = deep(e.V)
		n.M[k] = &c
	}
	for k := range t.Ghost {
		n.Ghost[k] = true
	}
	return n
}

func (t *Tree) String() string {
	var sb strings.Builder
	for _, k := range t.keys() {
		e := t.M[k]
		fmt.Fprintf(&sb, "%s=%s|%s|%s|%v|%v;", k, show(e.V), e.Desc, e.Cmt, e.Tag, e.Mod)
	}
	return sb.String()
}

// --- handles

// KV is what a store and a trie have in common.
type KV interface {
	Set(path string, data any) (node radix.Node[any], oldData any)
	SetEx(path string, data any, cb radix.OnSetEx[any]) (oldData any)
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (ret radix.Node[any], oldData any)
	SetEmpty(path string) (oldData any)
	Update(path string, cb func(node radix.Node[any], old any))
	Merge(pathAt string, data map[string]any) (err error)
	Remove(path string) (removed bool)
	RemoveEx(path string) (nodeRemoved, parent radix.Node[any], removed bool)
	Has(path string) (found bool)
	Get(path string) (data any, found bool)
	MustGet(path string) (data any)
	GetEx(path string, cb func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair))
	SetComment(path, description, comment string) (ok bool)
	SetTag(path string, tags any) (ok bool)
	GetDesc(path string) (desc string, err error)
	MustGetDesc(path string) (desc string)
	GetTag(path string) (tag any, err error)
	MustGetTag(path string) (tag any)
	GetComment(path string) (comment string, err error)
	MustGetComment(path string) (comment string)
	GetM(path string, opts ...radix.MOpt[any]) (ret map[string]any, err error)
	GetR(path string, defaultVal ...map[string]any) (ret map[string]any, err error)
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
	Dump() string
	SetTTL(path string, ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	SetTTLFast(node radix.Node[any], ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	Prefix() string
}

var _ KV = radix.Trie[any](nil)

// Handle is a view of a tree.
type Handle struct {
	KV
	S      store.Store // nil for a bare trie
	T      *Tree
	Prefix string
	BR     bool
	Part   bool // others change the rest of the store meanwhile
	// marks user writes as modified (a store does, a trie doesn't)
	Marks bool
}

func (h *Handle) full(p string) string {
	if h.Prefix == "" {
		return p
	}
	return h.Prefix + h.T.Delim + p
}

func storeHandle(s store.Store, t *Tree, prefix string) *Handle {
	return &Handle{KV: s.(KV), S: s, T: t, Prefix: prefix, Marks: true}
}

func fail(kind, format string, args ...any) { simrt.Fail(kind, format, args...) }

// okV: is v an allowed value of e?
func okV(e *Ent, v any) bool {
	if len(e.Win) > 0 {
		e.settle()
	}
	if len(e.Win) > 0 && v == nil {
		return true
	}
	if same(e.V, v) {
		return true
	}
	for _, a := range e.Alt {
		if same(a, v) {
			return true
		}
	}
	return false
}

// allowed values right now.
func (e *Ent) allowed() (l []any) {
	if e == nil {
		return nil
	}
	if len(e.Win) > 0 {
		e.settle()
	}
	if len(e.Win) > 0 {
		l = append(l, nil)
	}
	return append(append(l, e.V), e.Alt...)
}

func oneOf(l []any, v any) bool {
	for _, x := range l {
		if same(x, v) {
			return true
		}
	}
	return false
}

func wants(e *Ent) string {
	s := show(e.V)
	for _, a := range e.Alt {
		s += " or " + show(a)
	}
	return s
}

// entOf splits "key a/b" style nested literals: '|' nests, the delimiter stays.
func nested(m map[string]string) map[string]any {
	out := map[string]any{}
	for _, k := range simrt.SortedKeys(m) {
		cur := out
		parts := strings.Split(k, "|")
		for _, p := range parts[:len(parts)-1] {
			n, ok := cur[p].(map[string]any)
			if !ok {
				n = map[string]any{}
				cur[p] = n
			}
			cur = n
		}
		cur[parts[len(parts)-1]] = mk(m[k])
	}
	return out
}

// setModel writes a key of the model as the user.
func (h *Handle) setModel(key string, v any, user bool) (old any, isNew bool) {
	e := h.T.M[key]
	if e == nil {
		isNew = true
		e = h.T.ent(key)
	} else {
		old = e.V
	}
	e.V, e.Alt = v, nil
	if len(e.Win) > 0 {
		e.wrote = true
	}
	if h.T.stmt && !isNew && e.opened != h.T.opened {
		e.Alt = []any{nil} // cleared while it was written
	}
	if user && h.Marks {
		e.Mod, e.ModAny = true, false
	}
	return
}

// apply runs one operation on the handle, and compares with the model.
// It returns false if it doesn't know the operation.
func (h *Handle) apply(o core.Op) bool {
	t := h.T
	key := h.full(o.A)
	e := t.M[key]
	var prev any
	if e != nil {
		if len(e.Win) > 0 {
			e.settle()
		}
		prev = e.V
	}
	pre := e.allowed()
	okOld := func(old any) bool {
		if e == nil {
			return old == nil
		}
		return t.stmt && oneOf(pre, old) || okV(e, old)
	}
	if t.stmt && mutates[o.K] {
		t.busy = key
		t.ops++
		if e != nil {
			t.opened = e.opened
		}
		defer func() { t.busy = "" }()
	}
	switch o.K {
	case "set":
		v := mk(o.V)
		node, old := h.Set(o.A, v)
		if !okOld(old) {
			fail("set-old", "Set(%q) returned the previous value %s, the model has %s", key, show(old), show(prev))
		}
		if node == nil || node.Key() != key {
			fail("set-node", "Set(%q) returned a node of the key %q", key, nodeKey(node))
		}
		if nv := node.Data(); !same(nv, v) && !(t.stmt && nv == nil) {
			fail("set-node", "Set(%q) returned a node with the value %s instead of %s", key, show(node.Data()), show(v))
		}
		h.setModel(key, mk(o.V), true)
	case "setex":
		v, n := mk(o.V), 0
		old := h.SetEx(o.A, v, func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
			n++
			if path != key || !okOld(oldData) || node == nil || node.Key() != key || !same(node.Data(), v) && !t.stmt {
				fail("setex-cb", "the SetEx(%q) callback got path %q, old %s, node %q", key, path, show(oldData), nodeKey(node))
			}
			if v1, ok := h.Get(o.A); !t.stmt && !h.BR && (!ok || !same(v1, v)) {
				fail("setex-cb", "in the SetEx(%q) callback, Get says %s, %v", key, show(v1), ok)
			}
			h.reenter(o)
		})
		if n != 1 {
			fail("setex-cb", "the SetEx(%q) callback ran %d times", key, n)
		}
		if !okOld(old) {
			fail("set-old", "SetEx(%q) returned the previous value %s, the model has %s", key, show(old), show(prev))
		}
		h.setModel(key, mk(o.V), false)
	case "setnode":
		v := mk(o.V)
		var tag any
		if o.B != "" {
			tag = o.B
		}
		node, old := h.SetNode(o.A, v, tag, o.L...)
		if !okOld(old) || node == nil || node.Key() != key {
			fail("set-old", "SetNode(%q) returned %q and %s, the model has %s", key, nodeKey(node), show(old), show(prev))
		}
		h.setModel(key, mk(o.V), false)
		e = t.M[key]
		e.Tag = tag
		if len(o.L) > 0 {
			e.Desc = o.L[0]
		}
		if len(o.L) > 1 {
			e.Cmt = strings.Join(o.L[1:], "\n")
		}
	case "setempty":
		old := h.SetEmpty(o.A)
		if !okOld(old) {
			fail("set-old", "SetEmpty(%q) returned the previous value %s, the model has %s", key, show(old), show(prev))
		}
		h.setModel(key, nil, false)
		t.M[key].Tag = nil
	case "update":
		v, n := mk(o.V), 0
		h.Update(o.A, func(node radix.Node[any], old any) {
			n++
			if node == nil || node.Key() != key || !okOld(old) {
				fail("update-cb", "the Update(%q) callback got the node %q and the old value %s, the model has %s", key, nodeKey(node), show(old), show(prev))
			}
			node.SetData(v)
			if v1, ok := h.Get(o.A); !t.stmt && !h.BR && (!ok || !same(v1, v)) {
				fail("update-cb", "in the Update(%q) callback, Get says %s, %v", key, show(v1), ok)
			}
			h.reenter(o)
		})
		if n != 1 {
			fail("update-cb", "the Update(%q) callback ran %d times", key, n)
		}
		h.setModel(key, mk(o.V), false)
	case "merge":
		m := nested(o.M)
		if err := h.Merge(o.A, m); err != nil {
			fail("merge-err", "Merge(%q) failed: %v", key, err)
		}
		for k, lit := range o.M {
			if lit == "e:" {
				continue // an empty map has no keys
			}
			p := strings.ReplaceAll(k, "|", t.Delim)
			if o.A != "" {
				p = o.A + t.Delim + p
			}
			h.setModel(h.full(p), mk(lit), true)
		}
	case "remove":
		var got bool
		had := e == nil && t.Ghost[key] && h.Has(o.A)
		if o.N == 1 {
			var nd radix.Node[any]
			nd, _, got = h.RemoveEx(o.A)
			if got && e != nil && (nd == nil || nd.Key() != key) {
				fail("remove-node", "RemoveEx(%q) returned the node %q", key, nodeKey(nd))
			}
		} else {
			got = h.Remove(o.A)
		}
		switch {
		case e != nil:
			if !got {
				fail("remove-result", "Remove(%q) returned false for an existing key", key)
			}
			t.removeAll(key, true)
			t.jobsRemoved(key)
		case t.Ghost[key]:
			if got != had {
				fail("remove-result", "Remove(%q) = %v, Has was %v", key, got, had)
			}
			if got {
				t.removeAll(key, false)
				t.jobsRemoved(key)
				simrt.Count("probe:removed a branch")
			}
		case got:
			fail("remove-result", "Remove(%q) returned true, there is no such key or branch", key)
		}
	case "has":
		got := h.Has(o.A)
		if e != nil && !got || e == nil && got && !t.Ghost[key] {
			fail("has", "Has(%q) = %v, in the model: %v", key, got, e != nil)
		}
	case "get":
		v, ok := h.Get(o.A)
		mv := h.MustGet(o.A)
		switch {
		case e != nil:
			if !ok || !okV(e, v) {
				fail("get", "Get(%q) = %s, %v; the model has %s", key, show(v), ok, wants(e))
			}
			if !okV(e, mv) {
				fail("get", "MustGet(%q) = %s; the model has %s", key, show(mv), wants(e))
			}
		case v != nil || mv != nil:
			fail("get", "Get(%q) = %s, MustGet = %s; there is no such key", key, show(v), show(mv))
		case ok && !t.Ghost[key]:
			fail("get", "Get(%q) reports a key which is not there", key)
		}
	case "getex":
		n := 0
		h.GetEx(o.A, func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
			n++
			switch {
			case e != nil:
				if branch || node == nil || node.Key() != key || !okV(e, data) {
					fail("getex", "GetEx(%q) got the node %q, %s, branch %v; the model has %s", key, nodeKey(node), show(data), branch, wants(e))
				}
			case !t.Ghost[key] || !branch || data != nil:
				fail("getex", "GetEx(%q) got the node %q, %s, branch %v; there is no such key", key, nodeKey(node), show(data), branch)
			}
			h.reenter(o)
		})
		if e != nil && n != 1 || n > 1 {
			fail("getex", "GetEx(%q) called back %d times", key, n)
		}
	case "comment":
		ok := h.SetComment(o.A, o.B, o.C)
		if e != nil {
			if !ok {
				fail("comment", "SetComment(%q) refused an existing key", key)
			}
			e.Desc, e.Cmt = o.B, o.C
		} else if ok && !t.Ghost[key] {
			fail("comment", "SetComment(%q) accepted a key which is not there", key)
		}
	case "tag":
		ok := h.SetTag(o.A, o.B)
		if e != nil {
			if !ok {
				fail("tag", "SetTag(%q) refused an existing key", key)
			}
			e.Tag = o.B
		} else if ok && !t.Ghost[key] {
			fail("tag", "SetTag(%q) accepted a key which is not there", key)
		}
	case "mutval": // the user changes a stored slice or map in place
		if e == nil || e.Alt != nil {
			break
		}
		v, _ := h.Get(o.A)
		for _, x := range []any{v, e.V} {
			switch z := x.(type) {
			case []any:
				z[0] = o.B
			case []string:
				z[0] = o.B
			case map[string]any:
				z["k"] = o.B
			}
		}
	case "walkset": // the callback uses the store
		n := 0
		h.Walk("", func(path, fragment string, node radix.Node[any]) {
			if n++; n == 1 {
				h.reenter(o)
			}
		})
	case "meta":
		h.checkMeta(o.A)
	case "getm":
		h.checkSub(o.A)
	case "all":
		h.checkAll()
	default:
		return false
	}
	return true
}

// reenter is a callback which uses the store itself: it sets o.C, or it
// removes it, if it is o.B that is "rm".
func (h *Handle) reenter(o core.Op) {
	if o.C == "" || h.T.stmt {
		return
	}
	simrt.Count("probe:a callback uses the store")
	if o.B == "rm" {
		h.apply(core.Op{K: "remove", A: o.C})
		return
	}
	h.apply(core.Op{K: "set", A: o.C, V: "s:cb"})
}

func nodeKey(n radix.Node[any]) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if simrt.Killed() {
				panic(r)
			}
			s = "<nil>"
		}
	}()
	if n == nil {
		return "<nil>"
	}
	return n.Key()
}

func (h *Handle) checkMeta(p string) {
	key := h.full(p)
	e := h.T.M[key]
	d, err1 := h.GetDesc(p)
	c, err2 := h.GetComment(p)
	g, err3 := h.GetTag(p)
	if e == nil {
		if !h.T.Ghost[key] && (err1 == nil || err2 == nil || err3 == nil || d != "" || c != "" || g != nil || h.MustGetDesc(p) != "" || h.MustGetComment(p) != "" || h.MustGetTag(p) != nil) {
			fail("meta", "%q is not there, but has the description %q, comment %q, tag %v (%v %v %v)", key, d, c, g, err1, err2, err3)
		}
		return
	}
	if err1 != nil || err2 != nil || err3 != nil || d != e.Desc || c != e.Cmt || !same(g, e.Tag) {
		fail("meta", "%q has the description %q, comment %q, tag %v (%v %v %v), the model has %q %q %v", key, d, c, g, err1, err2, err3, e.Desc, e.Cmt, e.Tag)
	}
	if h.MustGetDesc(p) != d || h.MustGetComment(p) != c || !same(h.MustGetTag(p), g) {
		fail("meta", "%q: MustGetDesc/MustGetComment/MustGetTag differ from GetDesc/GetComment/GetTag", key)
	}
}

// view is the part of the model below the handle's prefix.
func (h *Handle) view() map[string]*Ent {
	m := map[string]*Ent{}
	for k, e := range h.T.M {
		if h.Prefix == "" {
			m[k] = e
		} else if h.T.under(k, h.Prefix) {
			m[k[len(h.Prefix)+len(h.T.Delim):]] = e
		}
	}
	return m
}

func cmpMaps(kind, what string, got map[string]any, want map[string]*Ent) {
	for _, k := range simrt.SortedKeys(want) {
		v, ok := got[k]
		if !ok {
			fail(kind, "%s: the key %q is missing (%s)", what, k, wants(want[k]))
		}
		if !okV(want[k], v) {
			fail(kind, "%s: %q = %s, the model has %s", what, k, show(v), wants(want[k]))
		}
	}
	for _, k := range simrt.SortedKeys(got) {
		if want[k] == nil {
			fail(kind, "%s: unexpected key %q = %s", what, k, show(got[k]))
		}
	}
}

// checkKeys compares the enumeration with the model.
func (h *Handle) checkKeys() {
	m, err := h.GetM("")
	if err != nil {
		fail("enum", "GetM failed: %v", err)
	}
	cmpMaps("enum", "GetM(\"\")", m, h.view())
	core.State(h.T.String())
	core.Nontrivial()
}

// checkAll compares everything: enumerations, each key, its metadata, and
// keys close to existing ones.
func (h *Handle) checkAll() {
	h.checkKeys()
	if h.Prefix == "" {
		r, err := h.GetR("")
		if err != nil {
			fail("enum", "GetR failed: %v", err)
		}
		cmpMaps("enum", "GetR(\"\")", r, h.T.M)
	}
	w := map[string]any{}
	h.Walk("", func(path, fragment string, node radix.Node[any]) {
		if node.IsBranch() || h.Part && !h.T.under(path, h.Prefix) {
			return
		}
		if _, dup := w[path]; dup {
			fail("enum", "Walk visits %q twice", path)
		}
		w[path] = node.Data()
		if e := h.T.M[path]; e != nil {
			if node.Key() != path || node.Description() != e.Desc || node.Comment() != e.Cmt || !same(node.Tag(), e.Tag) {
				fail("meta", "Walk: the node of %q has %q %q %v, the model has %q %q %v", path, node.Description(), node.Comment(), node.Tag(), e.Desc, e.Cmt, e.Tag)
			}
			if h.Marks && !e.ModAny && node.Modified() != e.Mod {
				fail("modified", "%q: modified is %v, the model has %v", path, node.Modified(), e.Mod)
			}
		}
	})
	cmpMaps("enum", "Walk", w, h.T.M)
	view := h.view()
	near := map[string]bool{}
	for _, k := range simrt.SortedKeys(view) {
		h.apply(core.Op{K: "get", A: k})
		h.apply(core.Op{K: "has", A: k})
		h.checkMeta(k)
		r := []rune(k)
		near[string(r[:len(r)-1])] = true
		near[k+"x"] = true
		near[k+h.T.Delim+"x"] = true
		near[string(r[1:])] = true
	}
	if h.BR {
		return // a missing key may be found upwards
	}
	for _, k := range simrt.SortedKeys(near) {
		if plain(k, h.T.Delim) && view[k] == nil {
			h.apply(core.Op{K: "get", A: k})
			h.apply(core.Op{K: "has", A: k})
			h.apply(core.Op{K: "getex", A: k})
		}
	}
}

func plain(k, delim string) bool {
	return k != "" && !strings.HasPrefix(k, delim) && !strings.HasSuffix(k, delim) && !strings.Contains(k, delim+delim)
}

// checkSub compares the subtree at a path, where it is unambiguous.
func (h *Handle) checkSub(p string) {
	key := h.full(p)
	want := map[string]*Ent{}
	for k, e := range h.T.M {
		switch {
		case k == key:
			return
		case h.T.under(k, key):
			want[k] = e
		case strings.HasPrefix(k, key):
			return // shares the leading chars only
		}
	}
	if len(want) == 0 {
		return
	}
	r, err := h.GetR(p)
	if err != nil {
		fail("enum", "GetR(%q) failed: %v", key, err)
	}
	cmpMaps("enum", fmt.Sprintf("GetR(%q)", key), r, want)
	if !h.T.proper() {
		return
	}
	for _, e := range want {
		if _, ok := e.V.(map[string]any); ok {
			return // a map value and a nested map look the same
		}
	}
	m, err := h.GetM(p)
	if err != nil {
		fail("enum", "GetM(%q) failed: %v", key, err)
	}
	rel := map[string]*Ent{}
	for k, e := range want {
		rel[k[len(key)+len(h.T.Delim):]] = e
	}
	cmpMaps("enum", fmt.Sprintf("GetM(%q)", key), flatten(m, "", h.T.Delim, map[string]any{}), rel)
	simrt.Count("probe:subtree compared")
}

func flatten(m map[string]any, p, delim string, out map[string]any) map[string]any {
	for k, v := range m {
		if p != "" {
			k = p + delim + k
		}
		if s, ok := v.(map[string]any); ok {
			flatten(s, k, delim, out)
		} else {
			out[k] = v
		}
	}
	return out
}

// --- keys of programs

var pieces = []string{"a", "ab", "abc", "b", "log", "logging", "lo", "l", "app", "server", "é", "ée", "日", "日本", "x1", "x12", "cmd", "c",
	"š", "šb", "ǩ", "𠀀", "𠀀a", // š and a, ǩ and é have the same low byte
	"A", "AB", "LOG", "App", "É", "e\u0301", "0", "true", "1", "10", "01", "a-b", "a_b", "x-"}

// keyPool makes keys which share leading characters and nest.
func keyPool(g *core.Gen, n int, delim string) (l []string) {
	k := 2 + g.Intn(4)
	segs := make([]string, k)
	for i := range segs {
		segs[i] = core.Pick(g, pieces)
		if g.Intn(60) == 0 {
			segs[i] += strings.Repeat("very-long-", simrt.Choose(g.Rand, 3, 7, 14, 30)) + core.Pick(g, pieces)
		}
	}
	if g.Intn(12) == 0 { // many children
		wide := g.Intn(3) == 0
		pre := ""
		if g.Intn(2) == 0 {
			pre = segs[0] + simrt.Choose(g.Rand, "", delim)
		}
		for i, m := 0, 4+g.Intn(max(n*2, 24))+32*b2i(wide); i < m; i++ {
			k := pre + "abcdefghijklmnopqrstuvwxyz0123456789"[g.Intn(36):][:1]
			if g.Intn(4) == 0 || wide && g.Intn(2) == 0 {
				k = pre + string(rune(0x3041+g.Intn(80)))
			}
			if g.Intn(4) == 0 {
				k += delim + segs[1]
			}
			if !slices.Contains(l, k) {
				l = append(l, k)
			}
		}
		if len(l) > 0 {
			return
		}
	}
	if g.Intn(25) == 0 { // deep
		deep := segs[0]
		for i := 6 + g.Intn(12)*simrt.Choose(g.Rand, 1, 1, 3); i > 0; i-- {
			deep += delim + core.Pick(g, segs)
		}
		l = append(l, deep)
	}
	seen := map[string]bool{}
	for tries := 0; len(l) < n && tries < n*8; tries++ {
		var p []string
		for d := 1 + g.Intn(3); d >= 0; d-- {
			p = append(p, core.Pick(g, segs))
		}
		if g.Intn(3) == 0 {
			p = p[:1]
		}
		if g.Intn(6) == 0 {
			p[len(p)-1] += core.Pick(g, pieces)
		}
		if g.Intn(12) == 0 {
			p = append(p, core.Pick(g, pieces), core.Pick(g, pieces))
		}
		s := strings.Join(p, delim)
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return
}

// properPool: no key is an ancestor of another.
func properPool(g *core.Gen, n int, delim string) (l []string) {
	for _, k := range keyPool(g, n, delim) {
		ok := true
		for _, x := range l {
			if strings.HasPrefix(x, k+delim) || strings.HasPrefix(k, x+delim) || x == k {
				ok = false
			}
		}
		if ok {
			l = append(l, k)
		}
	}
	return
}

// pathFrom is a key, an ancestor of a key, or something close.
func pathFrom(g *core.Gen, keys []string, delim string) string {
	k := core.Pick(g, keys)
	switch g.Intn(8) {
	case 0:
		if i := strings.LastIndex(k, delim); i > 0 {
			return k[:i]
		}
	case 1:
		r := []rune(k)
		if s := string(r[:len(r)-1]); plain(s, delim) {
			return s
		}
	case 2:
		return k + core.Pick(g, pieces)
	case 3:
		return k + delim + core.Pick(g, pieces)
	}
	return k
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sorted(l []string) []string { sort.Strings(l); return l }
