package scen

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/hedzr/store"
	penv "github.com/hedzr/store/providers/env"
	pfile "github.com/hedzr/store/providers/file"
	pflags "github.com/hedzr/store/providers/flags"
	pfs "github.com/hedzr/store/providers/fs"
	pmaps "github.com/hedzr/store/providers/maps"

	"verif/sim/core"
	simos "verif/sim/shim/os"
	"verif/sim/simfs"
	"verif/sim/simrt"
)

// The load world: a store with views, loaded from, saved to and watched
// through providers; C06 to C10 weigh the operations differently.

var loadReal = append([]string{"codecs/{json,yaml,toml,hjson,nestext,gob}", "providers/{maps,env,flags,fs,file}", "internal/cvt"}, realStore...)
var loadStub = []string{"remote and watchable providers: simulated", "disk (simfs), environment", "clock, goroutines, map iteration order, sync.Pool: simulated"}

// bits of Op.X of a load
const (
	xWatchable = 1 << iota
	xNoWatch
	xWatchErr
	xAnyMaps  // nested maps are map[any]any
	xBg       // the watcher runs a goroutine
	xPvdCodec // the codec is given to the provider
	xSlowNext
)

// kinds of providers
const (
	kRead = iota
	kOnce
	kStream
	kMaps
	kEnv
	kFlags
	kJSON // bytes, no codec
	kFS
	kFile
	kinds
)

type lent struct {
	v         any
	desc, cmt string
	tag       any
	key       string
}

// lload is a load done, or in progress.
type lload struct {
	w        *lw
	op       core.Op
	h        *lhandle
	base     string
	pr       store.Provider
	watch    *watcher
	on       *once
	codec    *cdc
	unBad    *bool
	marBad   *bool
	file     string
	want     []lent // what it delivers
	wantErr  bool
	wantNone bool // nothing, without an error
	skip     bool // the oracle can't tell
	applied  bool
	stream   bool
	ok       bool
	wr       store.Writeable
	opts     []store.LoadOpt
	nread    func() int
	closedBy bool
	saving   bool
}

type lhandle struct {
	*Handle
	parent *lhandle
	busy   int // loads and WithinLoadings in progress
	within int // WithinLoadings in progress
	closes int
	loads  []*lload
}

func (h *lhandle) inWithin() bool {
	for p := h; p != nil; p = p.parent {
		if p.within > 0 {
			return true
		}
	}
	return false
}

type levent struct {
	kind     string
	key      string
	v, old   any
	flag     bool
	anyFlag  bool
	anyValue bool
	by       int // the handler
}

func (e levent) String() string {
	f := fmt.Sprint(e.flag)
	if e.anyFlag {
		f = "*"
	}
	return fmt.Sprintf("%s %q %s <- %s flag %s", e.kind, e.key, show(e.v), show(e.old), f)
}

func (e levent) same(x levent) bool {
	return e.kind == x.kind && e.key == x.key && (e.anyFlag || x.anyFlag || e.flag == x.flag) &&
		(e.anyValue || x.anyValue || same(e.v, x.v)) && same(e.old, x.old)
}

type lw struct {
	p      *core.Prog
	t      *Tree
	delim  string
	hs     []*lhandle
	flat   bool
	allow  bool
	loads  []*lload
	nh     int // handlers of each kind
	got    [][]levent
	exp    []levent
	saved  map[string][]byte
	nfiles int
}

// --- flattening: the reference

func (w *lw) flatten(v any, key string, out map[string]any) {
	var n int
	w.flattenN(v, key, out, &n)
}

// usual: not an unspecified kind of key.
func (w *lw) usual(k string) bool {
	for _, r := range k {
		if !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' && r != '-' && string(r) != w.delim {
			return false
		}
	}
	return plain(k, w.delim)
}

func (w *lw) flattenN(v any, key string, out map[string]any, n *int) {
	join := func(k string) string {
		if key == "" {
			return k
		}
		return key + w.delim + k
	}
	switch z := v.(type) {
	case store.ValPkg:
		w.flattenN(z.Value, key, out, n)
		return
	case map[string]any:
		for k, x := range z {
			w.flattenN(x, join(k), out, n)
		}
		return
	case map[any]any:
		for k, x := range z {
			w.flattenN(x, join(fmt.Sprint(k)), out, n)
		}
		return
	case []any:
		if w.flat {
			for i, x := range z {
				w.flattenN(x, join(fmt.Sprint(i)), out, n)
			}
			return
		}
	case []map[string]any:
		if w.flat {
			for i, x := range z {
				w.flattenN(x, join(fmt.Sprint(i)), out, n)
			}
			return
		}
	case []map[any]any:
		if w.flat {
			for i, x := range z {
				w.flattenN(x, join(fmt.Sprint(i)), out, n)
			}
			return
		}
	}
	*n++
	out[key] = v
}

func anyMaps(v any, top bool) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	if top {
		n := map[string]any{}
		for k, x := range m {
			n[k] = anyMaps(x, false)
		}
		return n
	}
	n := map[any]any{}
	for k, x := range m {
		var key any = k
		if i, err := strconv.Atoi(k); err == nil && strconv.Itoa(i) == k {
			if key = i; i > 9 {
				key = int64(i)
			}
		} else if k == "true" || k == "false" {
			key = k == "true"
		}
		n[key] = anyMaps(x, false)
	}
	return n
}

// --- the model's side

// put writes a key of the model, and expects the notifications.
func (w *lw) put(h *lhandle, key string, v any, user, flag, anyFlag bool) *Ent {
	e := w.t.M[key]
	ev := levent{kind: "new", key: key, v: v, flag: flag, anyFlag: anyFlag}
	if e != nil {
		ev.kind, ev.old = "change", e.V
	}
	w.exp = append(w.exp, ev)
	h.setModel(key, v, user)
	return w.t.M[key]
}

func (w *lw) abs(base, k string) string {
	if base == "" {
		return k
	}
	return base + w.delim + k
}

// settle compares the notifications with the expected ones.
func (w *lw) settle(what string) {
	exp := w.exp
	w.exp = nil
	for i := range w.got {
		got := w.got[i]
		w.got[i] = nil
		left := append([]levent{}, exp...)
		for _, e := range got {
			ok := false
			for j, x := range left {
				if x.same(e) {
					left = append(left[:j], left[j+1:]...)
					ok = true
					break
				}
			}
			if !ok {
				fail("event", "%s: handler %d got the unexpected notification %v (expected: %v)", what, i, e, exp)
			}
		}
		if len(left) > 0 {
			fail("event", "%s: handler %d was not notified of %v", what, i, left)
		}
		if len(got) > 0 {
			count("probe:notification compared")
		}
	}
}

func (l *lload) apply() {
	if l.applied {
		return
	}
	l.applied = true
	if l.stream {
		return
	}
	for _, e := range l.want {
		l.put(e)
	}
	l.w.settle("Load")
	count("probe:load applied")
}

func (l *lload) put(e lent) {
	ent := l.w.put(l.h, l.w.abs(l.base, e.key), e.v, false, true, false)
	if e.desc != "" || e.cmt != "" {
		ent.Desc, ent.Cmt = e.desc, e.cmt
	}
	if e.tag != nil {
		ent.Tag = e.tag
	}
}

// --- providers which tell the model what happens

type hookW struct {
	*watcher
	l *lload
}

func (x hookW) Watch(ctx context.Context, cb func(event any, err error)) error {
	x.l.apply() // all keys are in the store by now
	return x.watcher.Watch(ctx, cb)
}

type wRead struct {
	*prov
	hookW
}
type wOnce struct {
	*once
	hookW
}
type hStream struct {
	*stream
	l    *lload
	prev string
	has  bool
}
type wStream struct {
	*hStream
	hookW
}

func (s *hStream) done() {
	if s.has {
		s.has = false
		s.l.put(lent{key: s.prev, v: deep(s.vals[s.prev])})
		s.l.w.settle("Load (stream)")
	}
}

func (s *hStream) Next() (string, bool) {
	s.done()
	if s.l.op.X&xSlowNext != 0 {
		simrt.Sleep(time.Millisecond)
	}
	k, eol := s.stream.Next()
	if !eol && s.readErr == nil {
		s.prev, s.has = k, true
	}
	return k, eol
}

// simFS is an fs.FS with faults.
type simFS struct {
	b     []byte
	fault string
	chunk int
	open  int
	nread int
}

type simFile struct {
	f   *simFS
	pos int
}

func (f *simFS) Open(name string) (fs.File, error) {
	f.nread++
	if f.fault == "open" {
		count("fault:fs open error")
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	f.open++
	return &simFile{f: f}, nil
}
func (s *simFile) Stat() (fs.FileInfo, error) { return nil, errors.New("no stat") }
func (s *simFile) Close() error               { s.f.open--; return nil }
func (s *simFile) Read(p []byte) (int, error) {
	if s.f.fault == "read" && s.pos >= len(s.f.b)/2 {
		count("fault:fs read error")
		return 0, errRead
	}
	if s.pos >= len(s.f.b) {
		return 0, io.EOF
	}
	n := min(len(p), s.f.chunk, len(s.f.b)-s.pos)
	if s.f.fault == "read" {
		n = min(n, len(s.f.b)/2-s.pos)
		if n == 0 {
			count("fault:fs read error")
			return 0, errRead
		}
	}
	copy(p, s.f.b[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// damage applies a fault to bytes.
func damage(b []byte, fault string) []byte {
	var kind string
	var pos int
	fmt.Sscanf(strings.ReplaceAll(fault, ":", " "), "%s %d", &kind, &pos)
	b = append([]byte{}, b...)
	if len(b) == 0 {
		return b
	}
	switch kind {
	case "trunc":
		count("fault:truncated bytes")
		return b[:pos%len(b)]
	case "flip":
		count("fault:corrupted bytes")
		b[pos%len(b)] ^= byte(1 << (pos % 7))
	case "garbage":
		count("fault:corrupted bytes")
		i := pos % len(b)
		return append(append(append([]byte{}, b[:i]...), "{[:\x00}"...), b[i:]...)
	case "dup", "drop", "swap", "torn":
		// pieces: lines, or comma separated parts of a single one
		sep := "\n"
		if bytes.Count(b, []byte(sep)) < 3 {
			sep = ","
		}
		ps := strings.Split(string(b), sep)
		i, j := pos%len(ps), pos/7%len(ps)
		switch kind {
		case "dup":
			count("fault:duplicated piece")
			ps = append(ps[:i+1:i+1], ps[i:]...)
		case "drop":
			count("fault:lost piece")
			ps = append(ps[:i:i], ps[i+1:]...)
		case "swap":
			count("fault:reordered pieces")
			ps[i], ps[j] = ps[j], ps[i]
		case "torn": // a stale tail follows
			count("fault:stale tail")
			ps = append(ps, ps[i:]...)
		}
		return []byte(strings.Join(ps, sep))
	case "empty":
		count("fault:empty source")
		return nil
	}
	return b
}

var byteKinds = map[int]bool{kOnce: true, kJSON: true, kFS: true, kFile: true}

// names is how env and flags map names to keys.
type names struct {
	prefix, strip, at string
	lower, dots       bool
	cb                func(string) string
}

func namesOf(o core.Op) (n names) {
	n.lower = o.X&xNoWatch == 0
	if o.X&xWatchable != 0 {
		n.prefix = "APP_"
		if n.strip = "app_"; !n.lower {
			n.strip = "APP_"
		}
		if o.X&xWatchErr != 0 {
			n.strip = ""
		}
	}
	n.dots = o.X&xAnyMaps != 0
	if o.X&xPvdCodec != 0 {
		n.at = "env"
	}
	if o.X&xBg != 0 {
		n.cb = func(k string) string { return "cb_" + k + "x" }
	}
	return
}

func (n names) key(k string) (string, bool) {
	if !strings.HasPrefix(k, n.prefix) {
		return "", false
	}
	if n.lower {
		k = strings.ToLower(k)
	}
	k = strings.TrimPrefix(k, n.strip)
	if n.dots {
		r := []byte(k)
		for i := 1; i+1 < len(r); i++ {
			if r[i] == '_' && r[i+1] != '_' {
				r[i] = '.'
			}
		}
		k = string(r)
	}
	if n.cb != nil {
		k = n.cb(k)
	}
	if k == "" { // it's the prefix itself
		return "", false
	}
	if n.at != "" {
		k = n.at + "." + k
	}
	return k, true
}

// slashed gives the top level keys another delimiter; false: a key is the parent of another one.
func (w *lw) slashed(m map[string]any) (map[string]any, bool) {
	out := map[string]any{}
	flat := map[string]any{}
	n := 0
	w.flattenN(m, "", flat, &n)
	for a := range flat {
		for b := range flat {
			if strings.HasPrefix(b, a+w.delim) {
				return nil, false
			}
		}
	}
	for k, v := range m {
		if strings.Contains(k, "/") {
			return nil, false
		}
		out[strings.ReplaceAll(k, w.delim, "/")] = v
	}
	return out, true
}

// prepare builds the provider of a load, and what it should deliver.
func (w *lw) prepare(h *lhandle, o core.Op) *lload {
	l := &lload{w: w, op: o, h: h, base: h.Prefix, nread: func() int { return 1 }}
	if o.A != "" {
		l.base = o.A
	}
	slow := time.Duration(o.D)
	kind := o.N % kinds
	data := nested(o.M)
	deliver := func(m map[string]any) {
		out := map[string]any{}
		n := 0
		w.flattenN(m, "", out, &n)
		if n != len(out) {
			l.skip = true // two entries for the same key
		}
		for _, k := range simrt.SortedKeys(out) {
			if !w.usual(k) {
				l.skip = true
			}
			l.want = append(l.want, lent{key: k, v: deep(out[k])})
		}
	}
	if byteKinds[kind] {
		name := "json"
		if kind != kJSON {
			name = o.C
		}
		l.codec = codecs[name]
		b, err := l.codec.enc(data)
		if err != nil {
			l.skip = true
			return l
		}
		if strings.Contains(o.B, ":") {
			if name == "gob" && !strings.HasPrefix(o.B, "trunc") {
				b = []byte("no gob at all")
			} else {
				b = damage(b, o.B)
			}
		}
		m, err, strange := l.codec.decode(b)
		l.skip = strange
		l.wantErr = err != nil
		l.wantNone = err == nil && m == nil
		if err == nil {
			deliver(m)
		}
		if kind != kJSON {
			c := l.codec.mk()
			l.unBad, l.marBad = new(bool), new(bool)
			if o.B == "decode" || w.p.Int("badcodec") == 1 {
				c = badCodec{c, l.unBad, l.marBad}
			}
			if o.B == "decode" {
				*l.unBad, l.wantErr = true, true
			}
			if o.X&xPvdCodec == 0 {
				l.opts = append(l.opts, store.WithCodec(c))
			}
			defer func() {
				if o.X&xPvdCodec != 0 {
					l.pr.WithCodec(c)
				}
			}()
		}
		if o.B == "read" || o.B == "open" {
			l.wantErr = true
		}
		switch kind {
		case kOnce, kJSON:
			on := &once{b: b}
			on.slow = slow
			if o.B == "read" || o.B == "open" {
				on.readErr, on.partial = opErr(o)
			}
			l.on, l.pr = on, on
			l.nread = func() int { return on.nread }
			if o.X&xWatchable != 0 {
				l.watch = &watcher{}
				l.pr = &wOnce{on, hookW{l.watch, l}}
			}
		case kFS:
			f := &simFS{b: b, fault: o.B, chunk: 1 + len(o.A) + len(b)/3}
			l.pr = pfs.New(f, "conf")
			l.nread = func() int { return f.nread }
		case kFile:
			w.nfiles++
			l.file = fmt.Sprintf("/sim/conf%d", w.nfiles)
			simfs.Get().Files[l.file] = &simfs.Inode{Data: b, Mode: 0o600}
			if o.B == "open" {
				delete(simfs.Get().Files, l.file)
			}
			if o.B == "read" {
				simfs.Get().Faults = append(simfs.Get().Faults, &simfs.Fault{Op: "read", N: 1, At: len(b) / 2, Err: "EIO"})
			}
			l.pr = pfile.New(l.file, pfile.WithWriteBackEnabled(true))
		}
	}
	switch kind {
	case kRead:
		pr := &prov{data: map[string]store.ValPkg{}}
		pr.slow = slow
		d := any(data)
		if o.X&xAnyMaps != 0 {
			d = anyMaps(d, true)
		}
		meta := map[string]int{}
		for i, k := range o.L {
			meta[k] = i + 1
		}
		for k, v := range d.(map[string]any) {
			vp := store.ValPkg{Value: v}
			out := map[string]any{}
			w.flatten(v, k, out)
			if n := meta[k]; n > 0 {
				if n%3 != 0 {
					vp.Desc = fmt.Sprintf("desc %s %d", k, n)
				}
				if n%2 == 0 {
					vp.Comment = "comment " + k
				}
				if n%4 != 0 {
					vp.Tag = "tag " + k
				}
			}
			pr.data[k] = vp
			for _, x := range simrt.SortedKeys(out) {
				l.want = append(l.want, lent{key: x, v: deep(out[x]), desc: vp.Desc, cmt: vp.Comment, tag: vp.Tag})
			}
		}
		switch o.B {
		case "":
		case "nil":
			pr.data, l.want, l.wantNone = nil, nil, true
		default:
			l.wantErr = true
			pr.readErr, pr.partial = opErr(o)
		}
		l.pr = pr
		l.nread = func() int { return pr.nread }
		if o.X&xPvdCodec != 0 {
			l.codec, l.unBad, l.marBad = codecs[o.C], new(bool), new(bool)
			c := l.codec.mk()
			if w.p.Int("badcodec") == 1 {
				c = badCodec{c, l.unBad, l.marBad}
			}
			l.opts = append(l.opts, store.WithCodec(c))
			if o.X&xBg != 0 {
				l.on = &once{}
				l.pr = &wrRead{pr, l.on}
			}
		}
		if o.X&xWatchable != 0 {
			l.watch = &watcher{}
			l.pr = &wRead{pr, hookW{l.watch, l}}
			if l.on != nil {
				l.pr = &wrwRead{wrRead{pr, l.on}, hookW{l.watch, l}}
			}
		}
	case kStream:
		st := &stream{vals: map[string]any{}}
		st.slow = slow
		for _, k := range simrt.SortedKeys(o.M) {
			f := strings.ReplaceAll(k, "|", w.delim)
			st.keys = append(st.keys, f)
			st.vals[f] = mk(o.M[k])
		}
		if o.B != "" {
			l.wantErr = true
			st.readErr, st.partial = opErr(o)
		}
		l.stream = true
		hs := &hStream{stream: st, l: l}
		l.pr = hs
		l.nread = func() int { return st.nread }
		if o.X&xWatchable != 0 {
			l.watch = &watcher{}
			l.pr = &wStream{hs, hookW{l.watch, l}}
		}
	case kMaps:
		m := any(data)
		if o.X&xAnyMaps != 0 {
			m = anyMaps(m, true)
		}
		deliver(m.(map[string]any))
		d := w.delim
		if o.X&xPvdCodec == 0 {
			d = ""
		}
		mm := m.(map[string]any)
		if o.X&xNoWatch != 0 {
			if x, ok := w.slashed(mm); ok {
				mm, d = x, "/"
				count("probe:maps with slashes")
			}
		}
		l.pr = pmaps.New(mm, d)
	case kEnv:
		simos.Clearenv()
		nm := namesOf(o)
		opts := []penv.Opt{penv.WithLowerCase(nm.lower)}
		if nm.prefix != "" {
			if nm.strip != "" {
				opts = append(opts, penv.WithPrefix(nm.prefix, nm.strip))
			} else {
				opts = append(opts, penv.WithPrefix(nm.prefix))
			}
		}
		if nm.dots {
			opts = append(opts, penv.WithUnderlineToDot())
		}
		if nm.at != "" {
			opts = append(opts, penv.WithStorePrefix(nm.at))
		}
		if nm.cb != nil {
			opts = append(opts, penv.WithKeyCB(nm.cb))
		}
		for i, k := range simrt.SortedKeys(o.M) {
			name := strings.ToUpper(strings.NewReplacer("|", "_", w.delim, "_").Replace(k))
			val := fmt.Sprint(mk(o.M[k]))
			if i%3 == 2 || nm.prefix == "" {
				simos.Setenv(name, val)
			} else {
				simos.Setenv(nm.prefix+name, val)
			}
		}
		if nm.prefix != "" && len(o.M)%3 == 1 {
			simos.Setenv(nm.prefix, "prefix only")
			count("probe:a variable named as the prefix")
		}
		simos.Setenv("PATH", "/bin")
		for _, kv := range simos.Environ() {
			k, v, _ := strings.Cut(kv, "=")
			if key, ok := nm.key(k); ok {
				l.want = append(l.want, lent{key: key, v: v})
			}
		}
		l.pr = penv.New(opts...)
	case kFlags:
		flag.CommandLine = flag.NewFlagSet("sim", flag.ContinueOnError)
		nm := namesOf(o)
		opts := []pflags.Opt{pflags.WithLowerCase(nm.lower)}
		if nm.prefix != "" {
			if nm.strip != "" {
				opts = append(opts, pflags.WithPrefix(nm.prefix, nm.strip))
			} else {
				opts = append(opts, pflags.WithPrefix(nm.prefix))
			}
		}
		if nm.dots {
			opts = append(opts, pflags.WithUnderlineToDot())
		}
		if nm.at != "" {
			opts = append(opts, pflags.WithStorePrefix(nm.at))
		}
		if nm.cb != nil {
			opts = append(opts, pflags.WithKeyCB(nm.cb))
		}
		for i, k := range simrt.SortedKeys(o.M) {
			name := strings.NewReplacer("|", "_", w.delim, "_").Replace(k)
			if i == 1 && nm.prefix != "" && len(o.M)%3 == 2 {
				name = nm.prefix
			} else if i%3 != 2 {
				name = nm.prefix + name
			}
			if key, _ := nm.key(name); flag.Lookup(name) != nil || key != "" && slices.ContainsFunc(l.want, func(e lent) bool { return e.key == key }) {
				continue // which one wins isn't specified
			}
			val := fmt.Sprint(mk(o.M[k]))
			usage := ""
			if i%2 == 0 {
				usage = "usage of " + name
			}
			flag.String(name, "default", usage)
			if i%3 != 0 {
				flag.Set(name, val)
			}
			f := flag.Lookup(name)
			if key, ok := nm.key(name); ok {
				l.want = append(l.want, lent{key: key, v: reflect.ValueOf(f.Value).Elem().Interface(), desc: usage, tag: "default"})
			}
		}
		l.pr = pflags.New(opts...)
	}
	if l.watch != nil {
		if o.X&xWatchErr != 0 {
			l.watch.err = errWatch
		}
		l.watch.bg = o.X&xBg != 0
	}
	if o.X&xNoWatch != 0 {
		l.opts = append(l.opts, store.WithoutWatch(true))
	}
	if o.A != "" {
		l.opts = append(l.opts, store.WithStorePrefix(o.A))
	}
	return l
}

// opErr: how the source of a load fails.
func opErr(o core.Op) (error, bool) {
	h := fnv.New32a()
	fmt.Fprint(h, o.A, o.C, o.X, o.B, simrt.SortedKeys(o.M))
	n := int(h.Sum32() >> 1)
	return anErr(n / 2), n%2 == 0
}

func properKeys(l []lent, delim string) bool {
	for _, a := range l {
		for _, b := range l {
			if strings.HasPrefix(b.key, a.key+delim) {
				return false
			}
		}
	}
	return true
}

// --- operations

func (w *lw) load(h *lhandle, o core.Op) {
	w.doLoad(w.prepare(h, o))
}

func (w *lw) doLoad(l *lload) {
	h := l.h
	if l.skip {
		if l.file != "" {
			simfs.Get().Faults = nil
		}
		return
	}
	gate := h.busy > 0
	before := l.nread()
	w.loads = append(w.loads, l)
	h.busy++
	watchedBefore := 0
	if l.watch != nil {
		watchedBefore = l.watch.watched
	}
	wr, err := h.S.Load(context.TODO(), append([]store.LoadOpt{store.WithProvider(l.pr)}, l.opts...)...)
	h.busy--
	if l.file != "" {
		simfs.Get().Faults = nil
	}
	simrt.Event("load returned %v %v", wr != nil, err)
	watched := l.watch != nil && l.watch.watched > watchedBefore
	unread := gate && l.nread() == before
	core.Nontrivial()
	switch {
	case unread && wr == nil && err == nil:
		count("probe:load skipped, another one is in progress")
	case l.wantErr:
		if err == nil || wr != nil {
			fail("load-err", "Load of a failing source (%s) returned %v, %v", l.op, wr != nil, err)
		}
		if watched && l.watch.closed == 0 {
			fail("load-err", "Load failed, but its source is being watched")
		}
		count("probe:load failed")
	case l.wantNone:
		if err != nil {
			fail("load", "Load of nothing failed: %v", err)
		}
	default:
		if err != nil {
			fail("load", "Load failed: %v", err)
		}
		if wr == nil {
			fail("load", "Load returned no handle and no error")
		}
		l.apply()
		l.ok, l.wr = true, wr
		h.loads = append(h.loads, l)
		want := w.allow && l.op.X&xNoWatch == 0
		if l.watch != nil {
			if want != watched || l.watch.watched-watchedBefore > 1 {
				fail("watch", "Load with watching enabled %v (store) and disabled %v (load): Watch was called %d times", w.allow, l.op.X&xNoWatch != 0, l.watch.watched-watchedBefore)
			}
		}
	}
	w.settle("Load")
}

// again loads the source of an earlier load a second time.
func (w *lw) again(o core.Op) {
	l := w.pickLoad(o.N, func(l *lload) bool {
		return l.ok && l.h.busy == 0 && (l.watch == nil || l.watch.watched == 0) && l.on == nil && l.file == ""
	})
	if l == nil {
		return
	}
	l.applied = false
	if s, ok := l.pr.(*hStream); ok {
		s.i = 0
	}
	count("probe:source loaded again")
	w.doLoad(l)
}

func (w *lw) pickLoad(n int, ok func(*lload) bool) *lload {
	var c []*lload
	for _, l := range w.loads {
		if ok(l) {
			c = append(c, l)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return c[n%len(c)]
}

// event: a watched source reports a change.
func (w *lw) event(o core.Op) {
	l := w.pickLoad(o.X, func(l *lload) bool { return l.watch != nil && l.watch.live() })
	if l == nil {
		return
	}
	c := &change{p: l.pr}
	rm := o.N == 2 || o.N == 9 || o.N == 10 || o.N == 11
	wr := o.N == 0 || o.N == 1 || o.N == 8 || o.N >= 12 && o.N <= 14
	keys, branch := simrt.SortedKeys(o.M), false
	for _, k := range keys {
		f := strings.ReplaceAll(k, "|", w.delim)
		if full := w.abs(l.base, f); rm && w.t.M[full] == nil && w.t.Ghost[full] {
			// an inner path: depends on the shape of the tree
			if branch = w.hs[0].S.WithPrefixReplaced(l.base).Has(f); branch {
				c.keys, c.vals = []string{f}, []any{mk(o.M[k])}
				break
			}
			continue
		}
		c.keys = append(c.keys, f)
		c.vals = append(c.vals, mk(o.M[k]))
	}
	var ev any = c
	var err error
	switch o.N {
	case 0:
		c.op = store.OpCreate
	case 1:
		c.op = store.OpWrite
	case 2, 9:
		c.op = store.OpRemove
	case 3:
		c.op = store.OpRename
	case 4:
		err = errWatch
		count("fault:watch error event")
		if len(keys)%2 == 0 {
			ev = nil
		} else {
			c.op = store.OpWrite
		}
	case 5:
		ev = "what?"
	case 6:
		ev = nil
	case 7:
		c.op = store.OpChmod
	case 8:
		c.op = store.OpCreate | store.OpWrite
	case 10:
		c.op = store.OpRemove | store.OpChmod
	case 11:
		c.op = store.OpRemove | store.OpRename
	case 12:
		c.op = store.OpCreate | store.OpChmod
	case 13:
		c.op = store.OpWrite | store.OpChmod
	case 14:
		c.op = store.OpWrite | store.OpRename
	case 15:
		c.op = store.OpRename | store.OpChmod
	}
	core.Nontrivial()
	l.watch.cb(ev, err)
	switch {
	case err != nil:
	case wr:
		for i, k := range c.keys {
			w.put(l.h, w.abs(l.base, k), deep(c.vals[i]), false, false, true).ModAny = true
		}
		count("probe:write event applied")
	case rm:
		for _, k := range c.keys {
			full := w.abs(l.base, k)
			if e := w.t.M[full]; e != nil {
				w.exp = append(w.exp, levent{kind: "delete", key: full, v: e.V, anyFlag: true})
				w.t.removeAll(full, true)
				count("probe:remove event applied")
			} else if branch {
				w.exp = append(w.exp, levent{kind: "delete", key: full, anyFlag: true})
				w.t.removeAll(full, false)
				count("probe:remove event applied to a branch")
			}
		}
	default:
		count("probe:ignored event")
	}
	w.settle("watch event")
}

func (w *lw) remove(h *lhandle, o core.Op) {
	key := h.full(o.A)
	e := w.t.M[key]
	ghost := e == nil && w.t.Ghost[key]
	flag := h.inWithin()
	var v any
	if e != nil {
		v = e.V
	}
	n := 0
	if len(w.got) > 0 {
		n = len(w.got[0])
	}
	h.apply(o)
	if e != nil || ghost && len(w.got) > 0 && len(w.got[0]) > n {
		w.exp = append(w.exp, levent{kind: "delete", key: key, v: v, flag: flag})
	}
	w.settle("Remove")
}

func (w *lw) merge(h *lhandle, o core.Op) {
	m := nested(o.M)
	if err := h.S.Merge(o.A, m); err != nil {
		fail("merge-err", "Merge(%q) failed: %v", o.A, err)
	}
	at := h.Prefix
	if o.A != "" {
		at = h.full(o.A)
	}
	out := map[string]any{}
	w.flatten(nested(o.M), "", out)
	for _, k := range simrt.SortedKeys(out) {
		w.put(h, w.abs(at, k), out[k], !h.inWithin(), true, false)
	}
	w.settle("Merge")
}

func (w *lw) set(h *lhandle, o core.Op) {
	key := h.full(o.A)
	loading := h.inWithin()
	e := w.t.M[key]
	var old any
	if e != nil {
		old = e.V
	}
	_, got := h.S.Set(o.A, mk(o.V))
	if !same(got, old) {
		fail("set-old", "Set(%q) returned the previous value %s, the model has %s", key, show(got), show(old))
	}
	w.put(h, key, mk(o.V), !loading, loading, false)
	w.settle("Set")
}

// within runs sets as if they were loaded.
func (w *lw) within(h *lhandle, o core.Op) {
	gate := h.busy > 0
	ran := false
	h.S.WithinLoading(func() {
		ran = true
		h.busy++
		h.within++
		for i, k := range simrt.SortedKeys(o.M) {
			if i > 0 && o.D > 0 {
				simrt.Sleep(time.Duration(o.D))
			}
			w.set(h, core.Op{K: "set", A: strings.ReplaceAll(k, "|", w.delim), V: o.M[k]})
		}
		h.within--
		h.busy--
	})
	if !ran && !gate {
		fail("within", "WithinLoading did not run its function")
	}
}

// wrRead is a provider of key/value pairs that is also an io.Writer.
type wrRead struct {
	*prov
	to *once
}

func (x *wrRead) Write(b []byte) (int, error) {
	if err := x.to.Write(b); err != nil {
		return 0, err
	}
	count("probe:saved through an io.Writer")
	return len(b), nil
}

type wrwRead struct {
	wrRead
	hookW
}

// save writes back through a load handle.
func (w *lw) save(o core.Op) {
	l := w.pickLoad(o.N, func(l *lload) bool {
		return l.ok && l.op.N%kinds != kFS && l.op.N%kinds != kJSON
	})
	if l == nil || !w.t.proper() {
		return
	}
	if l.codec == nil {
		// nothing to write with
		if o.K == "save" {
			if err := l.wr.Save(context.TODO()); err != nil {
				fail("save-nothing", "Save of a source without a codec returned %v", err)
			}
			count("probe:save without a codec")
		}
		return
	}
	noWrite := o.K == "save" && l.on == nil && l.file == ""
	all := o.K == "saveas"
	pre := ""
	if l.base != "" {
		pre = l.base + w.delim
	}
	must, may := map[string]any{}, map[string]any{}
	for k, e := range w.t.M {
		if !strings.HasPrefix(k, pre) {
			continue
		}
		if n := l.codec.name; e.V == nil && (all || e.Mod || e.ModAny) && n != "json" && n != "yaml" && n != "hjson" {
			return // not every format has a nil
		}
		if e.ModAny && !all {
			may[k[len(pre):]] = deep(e.V)
		} else if e.Mod || all {
			must[k[len(pre):]] = deep(e.V)
		}
	}
	if len(may) > 0 {
		return // unspecified
	}
	tree := treeOf(must, w.delim)
	var encErr error
	if len(must) > 0 {
		var ref []byte
		ref, encErr = l.codec.enc(tree)
		if encErr == nil && !w.holds(l.codec, ref, must) {
			return // the format can't hold it
		}
	}
	var on *once
	var err error
	disk := simfs.Get()
	writes := 0
	target := l.on
	if all || noWrite {
		target = &once{}
	} else if l.saving {
		return // another Save of the same source is in progress
	}
	if !all {
		l.saving = true
		defer func() { l.saving = false }()
	}
	var before []byte
	isFile := l.file != "" && !all
	if isFile {
		before = append([]byte{}, disk.Files[l.file].Data...)
	} else {
		on = target
		writes = len(on.written)
		on.writeErr = nil
		on.slowWrite = time.Duration(o.D)
	}
	fault := o.B
	*l.marBad = false
	switch fault {
	case "write":
		if isFile {
			disk.Faults = append(disk.Faults, &simfs.Fault{Op: "write", N: 1, At: o.X, Err: "ENOSPC"})
		} else {
			on.writeErr = errWrite
		}
	case "marshal":
		if w.p.Int("badcodec") == 1 {
			*l.marBad = true
		} else {
			fault = ""
		}
	}
	if all {
		c := l.codec.mk()
		if fault == "marshal" {
			c = badCodec{c, new(bool), l.marBad}
		}
		ld := l.wr.(*store.Loader)
		var to store.Provider = on
		if o.X%4 == 0 {
			to = &wrRead{&prov{}, on}
		}
		opts := []store.SaveAsOpt{store.WithSaveAsCodec(c), store.WithSaveAsProvider(to)}
		if o.X%3 == 0 {
			to.WithCodec(c)
			opts = opts[1:]
		}
		err = ld.SaveAs(context.TODO(), "x", opts...)
	} else {
		err = l.wr.Save(context.TODO())
	}
	*l.marBad = false
	disk.Faults = nil
	core.Nontrivial()
	simrt.Event("save returned %v", err)
	var b []byte
	wrote := false
	if isFile {
		b = disk.Files[l.file].Data
		wrote = string(b) != string(before)
	} else {
		wrote = len(on.written) > writes
		if wrote {
			b = on.written[len(on.written)-1]
		}
	}
	if len(must) == 0 {
		if err != nil || wrote {
			fail("save-nothing", "Save without changes of the user: wrote %v, error %v", wrote, err)
		}
		return
	}
	if fault != "" || encErr != nil || noWrite {
		if err == nil {
			fail("save-err", "Save returned no error though it could not write (%s)", fault)
		}
		if wrote && !isFile {
			fail("save-err", "Save failed but wrote")
		}
		count("probe:save failed")
		return
	}
	if err != nil {
		fail("save", "Save failed: %v", err)
	}
	if !isFile && len(on.written) != writes+1 {
		fail("save", "Save wrote %d times", len(on.written)-writes)
	}
	m, derr, strange := l.codec.decode(b)
	if strange {
		return
	}
	if derr != nil {
		fail("save", "what Save wrote can't be decoded: %v\n%s", derr, b)
	}
	got := map[string]any{}
	w.flattenMaps(m, "", got)
	w.cmpSaved(l, "Save wrote", got, must)
	count("probe:save compared")
	// restart: a new process loads what was written
	s2 := store.New(store.WithDelimiter(rune(w.delim[0])))
	if _, err := s2.Load(context.TODO(), store.WithProvider(&once{b: b}), store.WithCodec(l.codec.mk())); err != nil {
		fail("restart", "what Save wrote can't be loaded: %v", err)
	}
	got, err = s2.GetM("")
	if err != nil {
		fail("restart", "GetM failed: %v", err)
	}
	w.cmpSaved(l, "after a restart", got, must)
	count("probe:restarted from what was saved, " + l.codec.name)
}

// holds: the library reads back what it wrote itself.
func (w *lw) holds(c *cdc, b []byte, want map[string]any) bool {
	m, err, strange := c.decode(b)
	if err != nil || strange {
		return false
	}
	got := map[string]any{}
	w.flattenMaps(m, "", got)
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		if x, ok := got[k]; !ok || c.norm(x) != c.norm(v) {
			return false
		}
	}
	return true
}

func (w *lw) flattenMaps(v any, key string, out map[string]any) {
	f := *w
	f.flat = false
	f.flatten(v, key, out)
}

func (w *lw) cmpSaved(l *lload, what string, got, want map[string]any) {
	for _, k := range simrt.SortedKeys(want) {
		v, ok := got[k]
		if !ok {
			fail("save", "%s (%s): %q is missing (%s)", what, l.codec.name, k, show(want[k]))
		}
		if l.codec.norm(v) != l.codec.norm(want[k]) {
			fail("save", "%s (%s): %q = %s, it should be %s", what, l.codec.name, k, show(v), show(want[k]))
		}
	}
	for _, k := range simrt.SortedKeys(got) {
		if _, ok := want[k]; !ok {
			fail("save", "%s (%s): unexpected %q = %s", what, l.codec.name, k, show(got[k]))
		}
	}
}

func (w *lw) close(h *lhandle) {
	h.closes++
	h.S.Close()
	for _, l := range h.loads {
		if l.watch != nil && l.watch.cb != nil && l.watch.closed != 1 {
			fail("not-closed", "Close returned, a watcher was closed %d times", l.watch.closed)
		}
	}
}

// --- the run

func lwRun(p *core.Prog) {
	w := &lw{p: p, delim: ".", flat: p.Int("flat") == 1, allow: p.Int("allow") == 1, nh: p.Int("handlers")}
	w.t = NewTree(w.delim)
	opts := []store.Opt{store.WithFlattenSlice(w.flat), store.WithWatchEnable(w.allow)}
	w.got = make([][]levent, w.nh)
	var s store.Store
	for i := 0; i < w.nh; i++ {
		rec := func(e levent) {
			if e.kind != "delete" {
				if v, ok := s.WithPrefixReplaced("").Get(e.key); !ok || !same(v, e.v) {
					fail("event", "the handler for %q = %s runs, but Get returns %s, %v", e.key, show(e.v), show(v), ok)
				}
			}
			e.v, e.old = deep(e.v), deep(e.old)
			w.got[i] = append(w.got[i], e)
		}
		opts = append(opts,
			store.WithOnNewHandlers(func(path string, value any, f bool) {
				rec(levent{kind: "new", key: path, v: value, flag: f})
			}),
			store.WithOnChangeHandlers(func(path string, value, old any, f bool) {
				rec(levent{kind: "change", key: path, v: value, old: old, flag: f})
			}),
			store.WithOnDeleteHandlers(func(path string, value any, f bool) {
				rec(levent{kind: "delete", key: path, v: value, flag: f})
			}))
		if i == 0 && p.Int("nilh") == 1 {
			opts = append(opts, store.WithOnNewHandlers(nil), store.WithOnChangeHandlers(nil), store.WithOnDeleteHandlers(nil))
		}
	}
	pre := p.S["prefix"]
	if pre != "" {
		opts = append(opts, store.WithPrefix(pre))
	}
	s = store.New(opts...)
	root := &lhandle{Handle: storeHandle(s, w.t, pre)}
	w.hs = append(w.hs, root)
	all := root
	if pre != "" {
		all = &lhandle{Handle: storeHandle(s.WithPrefixReplaced(""), w.t, ""), parent: root}
	}
	step := func(c int, o core.Op) {
		h := w.hs[o.H%len(w.hs)]
		switch o.K {
		case "view":
			if len(w.hs) > 6 {
				return
			}
			n := &lhandle{parent: h}
			q := strings.Join(o.L, w.delim)
			switch o.N {
			case 0:
				n.Handle = storeHandle(h.S.WithPrefix(o.L...), w.t, strings.Join(nonEmpty(h.Prefix, q), w.delim))
			case 1:
				n.Handle = storeHandle(h.S.WithPrefixReplaced(o.L...), w.t, q)
			case 2:
				n.Handle = storeHandle(h.S.N(), w.t, h.Prefix)
			case 3:
				n.Handle = storeHandle(h.S.R(), w.t, h.Prefix)
			}
			w.hs = append(w.hs, n)
		case "load":
			w.load(h, o)
		case "again":
			w.again(o)
		case "set":
			w.set(h, o)
		case "merge":
			w.merge(h, o)
		case "remove":
			w.remove(h, o)
		case "within":
			w.within(h, o)
		case "event":
			w.event(o)
		case "save", "saveas":
			w.save(o)
		case "close":
			w.close(h)
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		default:
			h.apply(o)
		}
		all.checkKeys()
	}
	for _, o := range p.Setup {
		step(0, o)
	}
	clients(p, step)
	all.checkAll()
	for _, h := range w.hs {
		h.checkKeys()
	}
	for _, h := range w.hs {
		w.close(h)
	}
	all.S.Close()
	simrt.WaitIdle()
	for _, l := range w.loads {
		if l.watch != nil && l.watch.cb != nil && l.watch.closed != 1 {
			fail("not-closed", "all handles are closed, a watcher was closed %d times", l.watch.closed)
		}
	}
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "goroutines are still there after Close: %v", l)
	}
}

// treeOf nests flat keys.
func treeOf(m map[string]any, delim string) map[string]any {
	tree := map[string]any{}
	for k, v := range m {
		cur := tree
		ps := strings.Split(k, delim)
		for _, p := range ps[:len(ps)-1] {
			n, ok := cur[p].(map[string]any)
			if !ok {
				n = map[string]any{}
				cur[p] = n
			}
			cur = n
		}
		cur[ps[len(ps)-1]] = v
	}
	return tree
}
