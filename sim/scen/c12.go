package scen

import (
	"errors"
	"fmt"
	"time"

	"github.com/hedzr/store"
	petcd "github.com/hedzr/store/providers/etcd"

	"verif/sim/core"
	etcd "verif/sim/shim/clientv3"
	"verif/sim/simrt"
)

func init() {
	core.Register(&core.Scen{Prop: "C12", Name: "etcd", Weight: 1, Gen: genC12, Run: runC12,
		Real: append([]string{"providers/etcd", "etcd client op encoding"}, realStore...), Stub: []string{"etcd client transport and server: simulated", "clock, goroutines: simulated"}})
}

func genC12(g *core.Gen) *core.Prog {
	p := genRemote(g, func() core.Op {
		o := core.Op{K: "fault", A: simrt.Choose(g.Rand, "get", "slow", "delay", "batch", "progress", "break", "new", "stall")}
		o.N, o.D = 1+g.Intn(4), int64(1+g.Intn(8))*int64(time.Second)
		if o.A == "delay" {
			o.D = int64(simrt.Choose(g.Rand, 1, 20, 300)) * int64(time.Millisecond)
		}
		return o
	})
	p.I["dial"] = simrt.Choose(g.Rand, 0, 0, 1, 20)
	return p
}

// timeout of a dial and of a read.
func (e *etcdSrv) timeout(p *core.Prog) time.Duration {
	if n := p.Int("dial"); n > 0 {
		return time.Duration(n) * time.Second
	}
	return 5 * time.Second
}

type etcdSrv struct {
	*etcd.Server
	brk   bool
	delay time.Duration
}

func (e *etcdSrv) put(k, v string) { e.Put(k, v) }
func (e *etcdSrv) del(k string)    { e.Del(k) }
func (e *etcdSrv) txn(ops []txOp) {
	var l []etcd.TxOp
	for _, o := range ops {
		l = append(l, etcd.TxOp{K: o.k, V: o.v, Del: o.del})
	}
	e.Txn(l)
}
func (e *etcdSrv) afterLoad(*remote) {}
func (e *etcdSrv) state() map[string]string {
	m := map[string]string{}
	for k, kv := range e.KVs {
		m[k] = string(kv.Value)
	}
	return m
}
func (e *etcdSrv) provider(p *core.Prog) store.Provider {
	opts := []petcd.Opt{petcd.WithEndpoints("sim"), petcd.WithWatchEnabled(p.Int("watch") == 1)}
	if p.Int("single") == 1 {
		opts = append(opts, petcd.WithKey(given(p)))
	} else {
		opts = append(opts, petcd.WithStorePrefix(given(p)))
	}
	if s := p.S["strip"]; s != "" {
		opts = append(opts, petcd.WithStripPrefix(s))
	}
	if s := p.S["prepend"]; s != "" {
		opts = append(opts, petcd.WithPrependPrefix(s))
	}
	if s := p.S["delim"]; s != "" {
		opts = append(opts, petcd.WithDelimiter(s))
	}
	if p.Int("dial") > 0 {
		opts = append(opts, petcd.WithDialTimeout(e.timeout(p)))
	}
	return petcd.New(opts...)
}
func (e *etcdSrv) fault(o core.Op) {
	switch o.A {
	case "get":
		e.GetErrs = o.N
	case "new":
		e.NewErrs = o.N
	case "slow":
		e.GetDelay = time.Duration(o.D)
	case "stall":
		e.GetDelay = 10 * 24 * time.Hour
	case "delay":
		e.delay = time.Duration(o.D)
		e.Delay = func() time.Duration { return e.delay }
	case "batch":
		e.MaxBatch = o.N - 1
	case "progress":
		e.Progress = o.N
	case "break":
		if e.LiveWatches() > 0 && o.N >= 3 {
			e.brk = true
			if o.N == 3 {
				e.Break(errors.New("compacted"))
			} else {
				count("fault:etcd watch channel closed")
				e.Break(nil)
			}
		}
	}
}
func (e *etcdSrv) heal()          { e.NewErrs, e.GetErrs, e.GetDelay, e.delay, e.Progress = 0, 0, 0, 0, 0 }
func (e *etcdSrv) broken() bool   { return e.brk }
func (e *etcdSrv) pending() bool  { return e.Pending() > 0 }
func (e *etcdSrv) watches() int   { return e.LiveWatches() }
func (e *etcdSrv) closable() bool { return true }
func (e *etcdSrv) gone() string {
	if n := e.LiveWatches(); n > 0 {
		return fmt.Sprintf("%d watches are still there", n)
	}
	return ""
}

func (e *etcdSrv) mayFail() int  { return e.NewFails }
func (e *etcdSrv) readErrs() int { return e.GetFails }

func runC12(p *core.Prog) { runRemote(p, &etcdSrv{Server: etcd.Get()}) }
