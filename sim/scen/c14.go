package scen

import (
	"context"
	"errors"
	"fmt"
	"path"
	"strings"
	"time"

	p2 "github.com/fsnotify/fsnotify"

	"github.com/hedzr/store"
	pfile "github.com/hedzr/store/providers/file"

	"verif/sim/core"
	simctx "verif/sim/shim/context"
	"verif/sim/shim/fsnotify"
	"verif/sim/simfs"
	"verif/sim/simrt"
)

func init() {
	stub := []string{"disk: simulated (simfs)", "fsnotify: simulated", "clock, goroutines: simulated"}
	real := append([]string{"providers/file", "codecs"}, realStore...)
	core.Register(&core.Scen{Prop: "C14", Name: "file-settled", Weight: 2, Gen: func(g *core.Gen) *core.Prog { return genC14(g, true) }, Run: runC14, Real: real, Stub: stub})
	core.Register(&core.Scen{Prop: "C14", Name: "file-racing", Weight: 1, Gen: func(g *core.Gen) *core.Prog { return genC14(g, false) }, Run: runC14, Real: real, Stub: stub})
	core.Register(&core.Scen{Prop: "C14", Name: "file-rewatch", Weight: 1, Gen: genC14Again, Run: runC14Again, Real: real, Stub: stub})
}

// genC14Again: watches which end, and new ones which begin while they do.
func genC14Again(g *core.Gen) *core.Prog {
	p := &core.Prog{Sim: g.AnyCfg(), I: map[string]int{}, S: map[string]string{"file": simrt.Choose(g.Rand, c14Names...)}}
	var ops []core.Op
	for i := 0; i < 2+g.Intn(4); i++ {
		ops = append(ops, core.Op{K: "load", N: i})
		for j := g.Intn(3); j > 0; j-- {
			ops = append(ops, core.Op{K: simrt.Choose(g.Rand, "put", "load", "settle", "yield"), N: i})
		}
		ops = append(ops, core.Op{K: simrt.Choose(g.Rand, "cancel", "cancel", "close", "cancelclose", "cbclose", "cbcancel")})
		for j := g.Intn(3); j > 0; j-- {
			ops = append(ops, core.Op{K: simrt.Choose(g.Rand, "putafter", "yield", "yield")})
		}
	}
	p.Clients = [][]core.Op{append(ops, core.Op{K: "load"})}
	return p
}

// runC14Again: whenever the current watch was begun after the end of all
// others, it works, and none of the others says a thing.
func runC14Again(p *core.Prog) {
	fs, st, file := simfs.Get(), fsnotify.Get(), p.S["file"]
	for _, d := range []string{".", "/sim/v1"} {
		fs.Dirs[d] = true
	}
	fs.Links["/sim/cur"] = "v1"
	fs.Links["/sim/link.cfg"] = "/sim/target1.cfg"
	fs.Links["link.cfg"] = "target1.cfg"
	n := 0
	put := func() { n++; fs.Put(file, []byte(fmt.Sprintf(`{"src":"v%d"}`, n))) }
	put()
	pr := pfile.New(file, pfile.WithWatchEnabled(true))
	gen, ended := 0, 0 // the last begun, those up to ended have ended
	var cancels []func()
	var inCb func() // what the next callback does
	got := map[int]int{}
	quiet := map[int]bool{} // nothing was pending at the end
	load := func() {
		ctx, cancel := simctx.WithCancel(context.Background())
		gen++
		me := gen
		err := pr.Watch(ctx, func(event any, err error) {
			if err != nil {
				fail("watch-err", "the callback of watch %d, of %d, was called with %v", me, gen, err)
			}
			if quiet[me] {
				fail("after-end", "the callback of watch %d was called after its end", me)
			}
			got[me]++
			if f := inCb; f != nil {
				inCb = nil
				f()
			}
		})
		if err != nil {
			fail("watch", "Watch failed: %v", err)
		}
		cancels = append(cancels, cancel)
	}
	settled := false
	settle := func(what string) {
		simrt.WaitIdle()
		simrt.Sleep(20 * time.Millisecond)
		if gen == ended {
			return
		}
		sum := func() (k int) {
			for i := ended + 1; i <= gen; i++ {
				k += got[i]
			}
			return
		}
		was := sum()
		put()
		simrt.WaitIdle()
		if sum() == was {
			fail("watch-lost", "%s: a change was not reported; watch %d was begun, those up to %d have ended", what, gen, ended)
		}
		if st.Open != 1 {
			fail("os-watch", "%s: %d OS watches are open for one watched file", what, st.Open)
		}
		settled = true
		core.Nontrivial()
		count("probe:change reported by a new watch")
	}
	for _, o := range p.Clients[0] {
		simrt.Event("op %s", o.K)
		switch o.K {
		case "load":
			load()
			settled = false
		case "put":
			put()
			settled = false
		case "putafter":
			if gen == ended {
				put()
			}
		case "settle":
			settle("during")
		case "yield":
			simrt.SyncPoint()
		case "cbclose", "cbcancel": // ended by its own callback
			settle("before")
			if gen == ended {
				break
			}
			inCb = pr.Close
			if o.K == "cbcancel" {
				inCb = func() {
					for _, f := range cancels {
						f()
					}
				}
			}
			simrt.Sleep(20 * time.Millisecond)
			put()
			simrt.WaitIdle()
			if inCb != nil {
				fail("watch-lost", "a change was not reported")
			}
			for i := ended + 1; i <= gen; i++ {
				quiet[i] = true
			}
			if st.Open != 0 {
				fail("os-watch", "the watch was ended by its own callback, %d OS watches are still open", st.Open)
			}
			ended, settled = gen, false
			count("probe:a watch ended by its own callback")
		default:
			for i := ended + 1; i <= gen; i++ {
				quiet[i] = settled
			}
			if strings.HasPrefix(o.K, "cancel") {
				for _, f := range cancels {
					f()
				}
			}
			if strings.HasSuffix(o.K, "close") {
				pr.Close()
			}
			ended = gen
			settled = false
		}
	}
	settle("at the end")
	pr.Close()
	for i := 1; i <= gen; i++ {
		quiet[i] = true
	}
	simrt.WaitIdle()
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "the watch has ended, there are still goroutines: %v", l)
	}
	if st.Opened != st.Closed {
		fail("os-watch", "%d OS watches were opened, %d released", st.Opened, st.Closed)
	}
}

var c14Names = []string{"/sim/app.cfg", "/sim/app.cfg", "/sim/./app.cfg", "/sim/link.cfg", "/sim/../sim/link.cfg", "app.cfg", "./app.cfg", "./link.cfg", "/sim/cur/app.cfg"}

func genC14(g *core.Gen, settled bool) *core.Prog {
	p := &core.Prog{Sim: g.AnyCfg(), I: map[string]int{"watch": 1, "allow": 1, "write": 1}, S: map[string]string{}}
	if g.Intn(6) == 0 {
		p.I["merge"] = 1
	}
	p.S["file"] = simrt.Choose(g.Rand, c14Names...)
	p.S["codec"] = simrt.Choose(g.Rand, "json", "json", "yaml", "toml", "hjson", "nestext", "gob")
	if settled {
		p.I["settled"] = 1
	}
	for _, k := range []string{"watch", "allow"} {
		if g.Intn(15) == 0 {
			p.I[k] = 0
		}
	}
	if g.Intn(5) == 0 {
		p.I["write"] = 0
	}
	if g.Intn(15) == 0 {
		p.I["nowatch"] = 1
	}
	disk := func() core.Op {
		op := simrt.Choose(g.Rand, "open", "read", "read", "create", "write", "write", "close", "readlink", "watch", "watchadd")
		o := core.Op{K: "fault", A: op, N: 1, D: int64(simrt.Choose(g.Rand, 0, 1, 5, 20, 511, 512, 600))}
		switch op {
		case "read":
			o.B = simrt.Choose(g.Rand, "EIO", "EIO", "short")
			o.N = 1 + g.Intn(3)
		case "write":
			o.B = simrt.Choose(g.Rand, "EIO", "ENOSPC", "ENOSPC", "EDQUOT", "short")
		case "close":
			o.B = simrt.Choose(g.Rand, "EIO", "ENOSPC")
		case "open", "create":
			o.B = simrt.Choose(g.Rand, "EIO", "EACCES", "EMFILE", "EROFS")
		default:
			o.B = "EIO"
		}
		return o
	}
	vals := 0
	val := func() string { vals++; return fmt.Sprint("v", vals) }
	own := func() core.Op {
		switch n := g.Intn(20); {
		case n < 4:
			return core.Op{K: "load"}
		case n < 9:
			v := val()
			if g.Intn(4) == 0 {
				v += strings.Repeat("long", simrt.Choose(g.Rand, 10, 140, 400))
			}
			return core.Op{K: "set", A: core.Pick(g, c14Keys), V: v}
		case n < 14:
			return core.Op{K: "save"}
		case n < 17:
			return disk()
		case n == 17:
			return core.Op{K: "heal"}
		case n == 18 && g.Intn(3) == 0:
			return core.Op{K: simrt.Choose(g.Rand, "close", "cancel")}
		}
		return core.Op{K: "sleep", D: int64(simrt.Choose(g.Rand, 1, 1, 4, 4, 5, 5, 6, 6, 50, 50, 40_000_000)) * int64(time.Millisecond)}
	}
	outside := func() core.Op {
		switch n := g.Intn(24); {
		case n < 7:
			return core.Op{K: "put", V: val(), N: g.Intn(4)}
		case n < 9:
			return core.Op{K: "replace", V: val()}
		case n < 12:
			return core.Op{K: "other", A: simrt.Choose(g.Rand, "app.cf", "app.cfg.swp", "zz", "target2.cfg", "target3.cfg"), B: simrt.Choose(g.Rand, "put", "put", "del")}
		case n < 14:
			return core.Op{K: "chmod"}
		case n < 16:
			return core.Op{K: "swap", V: val()}
		case n == 16:
			return core.Op{K: simrt.Choose(g.Rand, "del", "del", "mvaway", "garbage")}
		case n < 20 && settled:
			return core.Op{K: "retarget", N: 1 + g.Intn(3), X: g.Intn(2)}
		case n == 20:
			return core.Op{K: "pusherr"}
		}
		return core.Op{K: "sleep", D: int64(simrt.Choose(g.Rand, 1, 1, 4, 4, 5, 5, 6, 6, 50, 50, 40_000_000)) * int64(time.Millisecond)}
	}
	p.Setup = append(p.Setup, core.Op{K: "put", V: val(), N: g.Intn(4)})
	size := simrt.Choose(g.Rand, 6, 14, 30)
	if settled {
		var ops []core.Op
		at := g.Intn(4)
		for i := 0; i < size; i++ {
			if i == at {
				ops = append(ops, core.Op{K: "load"})
			}
			if g.Intn(2) == 0 {
				ops = append(ops, own())
			} else {
				ops = append(ops, outside())
			}
		}
		p.Clients = [][]core.Op{ops}
		return p
	}
	a := []core.Op{{K: "load"}}
	var b []core.Op
	for i := 0; i < size/2; i++ {
		a = append(a, own())
		b = append(b, outside())
	}
	p.Clients = [][]core.Op{a, b}
	return p
}

var c14Keys = []string{"app.name", "app.port", "app.db.host", "app.db.user", "log", "logx.level", "a.b.c.d"}

// fw is a world with one file.
type fw struct {
	p    *core.Prog
	fs   *simfs.FS
	st   *fsnotify.State
	file string
	cdc  *cdc
	s    store.Store
	wr   store.Writeable
	pr   *fileProv
	t    *Tree
	mod  map[string]bool // the keys Save writes

	settled bool
	skip    bool // strange bytes
	closed  bool
	cancels []func()

	// the watch, expected and observed
	alive bool
	real  string
	must  map[string]time.Time // events which have to be reported: when
	any   map[string]time.Time // all events before this settle
	evs   []any                // delivered since the last settle
	evT   []time.Time
	cbs   []error // the calls since the last settle, nil: an event
	links int     // failed EvalSymlinks so far
	// racing
	allEvs  []any
	allT    []time.Time
	targets map[string]bool
	allCbs  []error
	fatal   bool
	watches int
}

type fileIface interface {
	store.Provider
	store.OnceProvider
	store.Watchable
}

// fileProv records what the provider is asked and says.
type fileProv struct {
	fileIface
	w       *fw
	written [][]byte
	nwatch  int
	werr    error
	ncb     int
}

func (f *fileProv) Write(b []byte) error {
	f.written = append(f.written, append([]byte{}, b...))
	return f.fileIface.Write(b)
}

func (f *fileProv) Watch(ctx context.Context, cb func(event any, err error)) error {
	f.nwatch++
	f.werr = f.fileIface.Watch(ctx, func(event any, err error) {
		if err == nil && event == nil {
			fail("callback", "the callback was called with neither an event nor an error")
		}
		if err != nil && event != nil {
			fail("callback", "the callback was called with an event and an error")
		}
		simrt.Event("callback %v", err)
		f.w.cbs = append(f.w.cbs, err)
		f.w.allCbs = append(f.w.allCbs, err)
		cb(event, err)
	})
	return f.werr
}

func (w *fw) content(v string, n int) []byte {
	m := map[string]any{"src": v, "app": map[string]any{"from": v}}
	if n == 3 {
		m["big"] = strings.Repeat(v, 400)
	}
	b, err := w.cdc.enc(m)
	if err != nil {
		panic(err)
	}
	return b
}

// target is where the file really is.
func (w *fw) target() string { r, _ := w.fs.Resolve(w.file); return r }

func (w *fw) exists() bool { return w.fs.Files[w.target()] != nil }

func (w *fw) armed(op string) bool {
	for _, f := range w.fs.Faults {
		if f.Op == op {
			return true
		}
	}
	return false
}

func (w *fw) fired(op string) (n int) {
	for _, f := range w.fs.Fired {
		if strings.HasPrefix(f, op+":") && !strings.HasSuffix(f, ":short") {
			n++
		}
	}
	return
}

func (w *fw) load() {
	if w.closed {
		return
	}
	ctx, cancel := simctx.WithCancel(context.Background())
	opts := []store.LoadOpt{store.WithProvider(w.pr), store.WithCodec(w.cdc.mk())}
	if w.p.Int("nowatch") == 1 {
		opts = append(opts, store.WithoutWatch(true))
	}
	nf := w.fired("open") + w.fired("read")
	nw := w.fired("watch") + w.fired("watchadd") + w.fired("readlink")
	before, there := w.fs.Read(w.file)
	watches := w.pr.nwatch
	wr, err := w.s.Load(ctx, opts...)
	simrt.Event("loaded %v %v", wr != nil, err)
	if w.fs.Open != 0 {
		fail("leak", "Load left %d files open", w.fs.Open)
	}
	faulty := w.fired("open")+w.fired("read") > nf
	if faulty {
		count("probe:load failed by the disk")
	}
	if faulty && err == nil {
		fail("load", "reading the file failed, but Load returned no error")
	}
	if err != nil && wr != nil {
		fail("load", "Load returned an error and a Writeable")
	}
	if !w.settled {
		if err != nil {
			cancel()
			return
		}
	} else {
		m, derr, strange := w.cdc.decode(before)
		bad := !there || faulty || derr != nil
		if strange {
			cancel()
			w.skip = true
			return
		}
		if bad != (err != nil) {
			fail("load", "the file was there: %v, failed: %v, decoding: %v; but Load returned %v", there, faulty, derr, err)
		}
		if err != nil {
			cancel()
			w.check("after a failed Load")
			return
		}
		flat := map[string]any{}
		flattenPlain(m, "", flat)
		for k, v := range flat {
			if v == nil || !plain(k, ".") || strings.ContainsAny(k, "{[\x00") {
				w.skip = true
				return
			}
		}
		for k, v := range flat {
			w.t.ent(k).V = v
		}
		if !w.t.proper() {
			w.skip = true
			return
		}
		w.check("after Load")
	}
	if wr == nil {
		if w.settled && len(before) > 0 {
			fail("load", "Load returned nothing")
		}
		cancel() // an empty file
		return
	}
	w.wr = wr
	w.cancels = append(w.cancels, cancel)
	on := w.p.Int("allow") == 1 && w.p.Int("nowatch") == 0
	if (w.pr.nwatch > watches) != on {
		fail("watch", "watching was asked %d times, enabled: %v", w.pr.nwatch-watches, on)
	}
	if on && w.p.Int("watch") == 1 {
		failed := w.fired("watch")+w.fired("watchadd")+w.fired("readlink") > nw
		if w.settled && failed != (w.pr.werr != nil) {
			fail("watch", "a fault happened: %v, but Watch returned %v", failed, w.pr.werr)
		}
		if w.settled && w.pr.werr == nil && !w.alive {
			w.alive, w.real = true, w.target()
			w.must, w.any = map[string]time.Time{}, map[string]time.Time{}
			w.watches++
			count("probe:watch started")
			if w.watches > 1 {
				count("probe:watch started again")
			}
		}
		if w.pr.werr == nil {
			w.watches++
		} else {
			count("probe:watch could not start")
		}
	}
}

func flattenPlain(m map[string]any, pre string, out map[string]any) {
	for k, v := range m {
		if pre != "" {
			k = pre + "." + k
		}
		if mm, ok := v.(map[string]any); ok {
			flattenPlain(mm, k, out)
		} else {
			out[k] = v
		}
	}
}

func (w *fw) check(what string) {
	m, err := w.s.GetM("")
	if err != nil {
		fail("enum", "%s: GetM failed: %v", what, err)
	}
	for _, k := range simrt.SortedKeys(w.t.M) {
		if e := w.t.M[k]; !same(m[k], e.V) {
			fail("contents", "%s: %q = %s, it should be %s", what, k, show(m[k]), show(e.V))
		}
	}
	for _, k := range simrt.SortedKeys(m) {
		if w.t.M[k] == nil {
			fail("contents", "%s: unexpected %q = %s", what, k, show(m[k]))
		}
	}
	core.Nontrivial()
}

func (w *fw) save() {
	if w.wr == nil {
		return
	}
	before, there := w.fs.Read(w.file)
	nf := w.fired("create") + w.fired("write") + w.fired("close")
	n := len(w.pr.written)
	err := w.wr.Save(context.Background())
	simrt.Event("saved %v", err)
	if w.fs.Open != 0 {
		fail("leak", "Save left %d files open", w.fs.Open)
	}
	faulty := w.fired("create")+w.fired("write")+w.fired("close") > nf
	after, now := w.fs.Read(w.file)
	untouched := now == there && string(after) == string(before)
	if len(w.mod) == 0 {
		if w.settled && !untouched {
			fail("save", "there is nothing to save, but the file was changed")
		}
		return
	}
	if w.p.Int("write") == 0 {
		if err == nil {
			fail("save-disabled", "write-back is not enabled, but Save returned no error")
		}
		if !errors.Is(err, store.ErrWritableDisabled) {
			fail("save-disabled", "write-back is not enabled, Save returned %v", err)
		}
		if w.settled && !untouched {
			fail("save-disabled", "write-back is not enabled, but the file was changed")
		}
		count("probe:save refused")
		core.Nontrivial()
		return
	}
	if faulty {
		count("probe:save failed by the disk")
		if err == nil {
			fail("save", "writing the file failed, but Save returned no error")
		}
		core.Nontrivial()
		return
	}
	if !w.settled {
		return
	}
	if err != nil {
		fail("save", "Save failed: %v", err)
	}
	if len(w.pr.written) != n+1 || string(w.pr.written[n]) != string(after) {
		fail("save", "Save succeeded, but the file does not hold what was written\n%q", after)
	}
	want := map[string]any{}
	for k := range w.mod {
		want[k] = w.t.M[k].V
	}
	ref, encErr := w.cdc.enc(treeOf(want, "."))
	m, derr, strange := w.cdc.decode(after)
	if strange || encErr != nil || !(&lw{delim: "."}).holds(w.cdc, ref, want) {
		w.skip = true
		return
	}
	if derr != nil {
		fail("save", "the saved file can't be decoded: %v", derr)
	}
	flat := map[string]any{}
	flattenPlain(m, "", flat)
	for k := range w.mod {
		if v, ok := flat[k]; !ok || w.cdc.norm(v) != w.cdc.norm(w.t.M[k].V) {
			fail("save", "the saved file has %q = %s, it should be %s", k, show(v), show(w.t.M[k].V))
		}
	}
	for k := range flat {
		if !w.mod[k] {
			fail("save", "the saved file has an unexpected %q", k)
		}
	}
	core.State(string(after))
	core.Nontrivial()
	count("probe:saved")
}

// settle lets everything become idle, and compares the callbacks.
func (w *fw) settle(what string) {
	simrt.WaitIdle()
	evs, evT, cbs := w.evs, w.evT, w.cbs
	w.evs, w.evT, w.cbs = nil, nil, nil
	links := w.fired("readlink")
	linkFault := links > w.links
	w.links = links
	missed := w.st.Missed
	w.st.Missed = nil
	if !w.alive {
		if len(cbs) > 0 {
			fail("after-end", "%s: the watch has ended, but its callback was called: %v", what, cbs)
		}
		return
	}
	dir, _ := w.fs.Resolve(path.Dir(w.file))
	real := w.real
	var want []string // e: an event, o: optional, x: an error
	var watchErr error
	for i, x := range evs {
		if e, ok := x.(error); ok {
			want = append(want, "x")
			watchErr = e
			w.alive = false
			break
		}
		ev := x.(p2.Event)
		name := path.Clean(ev.Name)
		// the same within 5 ms of a reported one may be merged with it; of
		// those before, it's unknown which were
		opt := false
		for _, m := range []map[string]time.Time{w.must, w.any} {
			if t, ok := m[ev.String()]; ok && evT[i].Sub(t) < 5*time.Millisecond {
				opt = true
			}
		}
		if !opt {
			w.must[ev.String()] = evT[i]
		}
		if name != w.real && name != path.Clean(w.file) {
			continue
		}
		if ev.Op&p2.Remove != 0 || !w.exists() || linkFault {
			want = append(want, "x")
			w.alive = false
			break
		}
		w.real = w.target()
		if ev.Op&(p2.Write|p2.Create) != 0 {
			if opt {
				want = append(want, "o")
			} else {
				want = append(want, "e")
			}
		}
	}
	for i, x := range evs {
		if ev, ok := x.(p2.Event); ok {
			w.any[ev.String()] = evT[i]
		}
	}
	must, may, end := 0, 0, 0
	for _, x := range want {
		switch x {
		case "e":
			must++
			may++
		case "o":
			may++
		case "x":
			end++
		}
	}
	for _, m := range missed {
		if end == 0 && (m == real && path.Dir(m) == dir || m == path.Join(dir, path.Base(w.file))) {
			fail("watch-lost", "%s: %s has changed, and the file is not watched", what, m)
		}
	}
	got, errs := 0, 0
	for _, e := range cbs {
		if e != nil {
			errs++
			if watchErr != nil && !errors.Is(e, watchErr) && !strings.Contains(e.Error(), watchErr.Error()) {
				fail("watch-err", "%s: the error reported is %q, it should be %q", what, e, watchErr)
			}
		} else if errs > 0 {
			fail("after-end", "%s: an event was reported after the error", what)
		} else {
			got++
		}
	}
	if errs != end {
		fail("watch-err", "%s: %d errors were reported, it should be %d; %v, delivered %v", what, errs, end, cbs, evs)
	}
	if got < must {
		fail("watch-lost", "%s: %d changes were reported, it should be %d; delivered %v, file %s (%s)", what, got, must, evs, w.file, w.real)
	}
	if got > may {
		fail("watch-extra", "%s: %d changes were reported, it should be %d; delivered %v", what, got, may, evs)
	}
	if got > 0 {
		count("probe:change reported")
		core.Nontrivial()
	}
	if end > 0 {
		count("probe:watch ended by an error")
		w.released(what)
	}
}

func (w *fw) released(what string) {
	simrt.WaitIdle()
	if w.st.Open > 0 {
		fail("os-watch", "%s: the watch has ended, %d OS watches are still open", what, w.st.Open)
	}
	if l := simrt.LiveBg(); len(l) > 0 {
		fail("leak", "%s: the watch has ended, there are still goroutines: %v", what, l)
	}
}

func runC14(p *core.Prog) {
	w := &fw{p: p, fs: simfs.Get(), st: fsnotify.Get(), file: p.S["file"], cdc: codecs[p.S["codec"]], t: NewTree("."), mod: map[string]bool{}, settled: p.Int("settled") == 1}
	for _, d := range []string{".", "/sim/v1"} {
		w.fs.Dirs[d] = true
	}
	w.fs.Links["/sim/cur"] = "v1"
	w.fs.Links["/sim/link.cfg"] = "/sim/target1.cfg"
	w.fs.Links["link.cfg"] = "target1.cfg"
	dir := path.Dir(w.target())
	islink := strings.Contains(w.file, "link")
	w.s = store.New(store.WithWatchEnable(p.Int("allow") == 1))
	w.pr = &fileProv{fileIface: pfile.New(w.file, pfile.WithWatchEnabled(p.Int("watch") == 1), pfile.WithWriteBackEnabled(p.Int("write") == 1)), w: w}
	w.targets = map[string]bool{w.target(): true}
	w.st.Merge = p.Int("merge") == 1
	w.st.OnDeliver = func(_ *fsnotify.Watcher, x any) {
		w.evs = append(w.evs, x)
		w.evT = append(w.evT, simrt.Now())
		w.targets[w.target()] = true
		w.allEvs, w.allT = append(w.allEvs, x), append(w.allT, simrt.Now())
	}
	step := func(c int, o core.Op) {
		if w.skip {
			return
		}
		simrt.Event("op %s %s", o.K, o.A)
		switch o.K {
		case "load":
			w.load()
		case "set":
			w.s.Set(o.A, o.V)
			w.t.ent(o.A).V = o.V
			w.mod[o.A] = true
		case "save":
			w.save()
		case "fault":
			w.fs.Arm(simfs.Fault{Op: o.A, N: o.N, At: int(o.D), Err: o.B})
			if o.A == "readlink" {
				w.fatal = true
			}
		case "heal":
			w.fs.Faults = nil
		case "sleep":
			simrt.Sleep(time.Duration(o.D))
		case "put":
			w.fs.Put(w.file, w.content(o.V, o.N))
		case "garbage":
			w.fs.Put(w.file, []byte("\x00{[ : nothing = \xff"))
		case "replace":
			w.fs.Replace(w.file, w.content(o.V, o.N))
		case "other":
			n := path.Join(dir, o.A)
			if n == w.target() {
				return
			}
			if o.B == "del" {
				w.fs.Del(n)
			} else {
				w.fs.Put(n, w.content("other", 0))
			}
		case "chmod":
			w.fs.Chmod(w.file)
		case "swap":
			if w.exists() {
				w.fs.Move(w.target(), path.Join(dir, "bak"))
				w.fs.Put(w.file, w.content(o.V, 0))
			}
		case "del":
			w.fatal = true
			w.fs.Del(w.file)
		case "mvaway":
			if w.exists() {
				w.fatal = true
				w.fs.Move(w.target(), path.Join(dir, "away"))
			}
		case "retarget":
			if islink {
				if o.X == 0 {
					simrt.Sleep(6 * time.Millisecond) // not merged with the previous one
				}
				t := path.Join(dir, fmt.Sprintf("target%d.cfg", o.N))
				if w.fs.Files[t] == nil {
					w.fs.Put(t, w.content("retarget", 0))
				}
				w.fs.Relink(path.Join(dir, "link.cfg"), t)
			}
		case "pusherr":
			for _, x := range w.st.Watchers {
				if !x.IsClosed() {
					w.fatal = true
					count("fault:fsnotify error")
					x.Push(errors.New("injected watch error"))
				}
			}
		case "cancel":
			for _, f := range w.cancels {
				f()
			}
			w.cancels = nil
			if w.alive {
				count("probe:watch canceled")
			}
			w.fatal = true
			if w.settled {
				w.alive = false
				w.released("canceled")
			}
		case "close":
			w.s.Close()
			w.closed = true
			if w.alive {
				count("probe:closed while watching")
			}
			w.alive, w.fatal = false, true
			if w.settled {
				w.released("closed")
			}
		}
		if w.settled && !w.skip {
			w.settle(o.K)
		}
	}
	for _, o := range p.Setup {
		step(9, o)
	}
	clients(p, step)
	if w.skip {
		count("probe:skipped, strange bytes")
		return
	}
	w.fs.Faults = nil
	simrt.Sleep(time.Second)
	if w.settled {
		w.settle("quiet")
		if w.alive {
			w.fs.Put(w.file, w.content("last", 0))
			w.settle("last")
			if w.alive && w.st.Open != 1 {
				fail("os-watch", "%d OS watches are open for one watched file", w.st.Open)
			}
		}
	} else {
		w.racing()
	}
	wasOpen := w.st.Open
	for i := 0; i < 2; i++ {
		w.s.Close()
	}
	w.alive = false
	w.released("closed")
	n := len(w.allCbs)
	for _, f := range w.cancels {
		f()
	}
	w.fs.Put(w.file, w.content("late", 0))
	simrt.Sleep(time.Minute)
	simrt.WaitIdle()
	if len(w.allCbs) > n {
		fail("after-end", "a change was reported after Close")
	}
	if w.st.Opened != w.st.Closed {
		fail("os-watch", "%d OS watches were opened, %d released", w.st.Opened, w.st.Closed)
	}
	if wasOpen > 0 {
		count("probe:closed while watching")
	}
	if w.settled && len(w.cbs) > 0 {
		fail("after-end", "the callback was called after the end: %v", w.cbs)
	}
}

// racing: what holds for every schedule.
func (w *fw) racing() {
	simrt.WaitIdle()
	w.targets[w.target()] = true
	relevant, must := 0, 0
	last := map[string]time.Time{}
	for i, x := range w.allEvs {
		ev, ok := x.(p2.Event)
		if !ok {
			continue
		}
		name := path.Clean(ev.Name)
		own := name == path.Clean(w.file)
		if (own || w.targets[name]) && ev.Op&(p2.Create|p2.Write) != 0 {
			relevant++
			if !own && len(w.targets) > 1 {
				continue // not always the target
			}
			if t, ok := last[ev.String()]; !ok || w.allT[i].Sub(t) >= 5*time.Millisecond {
				must++
				last[ev.String()] = w.allT[i]
			}
		}
	}
	got, errs := 0, 0
	for _, e := range w.allCbs {
		if e == nil {
			got++
		} else {
			errs++
		}
	}
	if got > relevant {
		fail("watch-extra", "%d changes were reported, %d happened: %v", got, relevant, w.allEvs)
	}
	if !w.fatal && got < must {
		fail("watch-lost", "%d changes were reported, there were %d: %v", got, must, w.allEvs)
	}
	if !w.fatal && errs > 0 {
		fail("watch-err", "errors were reported: %v", w.allCbs)
	}
	if got > 0 {
		core.Nontrivial()
		count("probe:change reported")
	}
}
