package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verif/sim/simrt"
)

// Replay file.
type Replay struct {
	Property string          `json:"property"`
	Scen     string          `json:"scenario"`
	Kind     string          `json:"kind"`
	Msg      string          `json:"msg"`
	Base     uint64          `json:"base_seed"`
	Idx      int             `json:"run_index"`
	Seed     uint64          `json:"seed"`
	Minimal  bool            `json:"minimised"`
	Orig     string          `json:"original_size,omitempty"`
	Prog     *Prog           `json:"program"`
	Sch      *simrt.Schedule `json:"schedule"` // nil: the seeded scheduler
	LogHash  uint64          `json:"log_hash"`
	Log      []string        `json:"trace,omitempty"`
	Repro    string          `json:"reproduced,omitempty"`
}

// Summary of a worker.
type Summary struct {
	Runs, Nontrivial    int
	Steps, Switches     int64
	Preempts, Stalls    int64
	Timers, Tasks       int64
	SimNs               float64
	MaxSteps            int
	Counters            map[string]int
	Scens               map[string]int
	Redo, RedoBad       int
	Replayed, ReplayBad int
	Samples             []json.RawMessage
	Crashes             int
	WallS               float64
	Modes               map[string]int
}

var (
	nontriv bool
	states  = map[uint64]struct{}{}
)

// Nontrivial marks the run.
func Nontrivial() { nontriv = true }

// State records a reached state (of the model).
func State(s string) {
	if len(states) < 400_000 {
		h := fnv.New64a()
		_, _ = h.Write([]byte(s))
		states[h.Sum64()] = struct{}{}
	}
}

// Main of simcheck.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "simcheck run|worker|replay|one ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	secs := fs.Float64("secs", 20, "")
	workers := fs.Int("workers", 8, "")
	k := fs.Int("k", 0, "")
	from := fs.Int("from", 0, "")
	idx := fs.Int("idx", 0, "")
	dir := fs.String("dir", "", "")
	ev := fs.String("evidence", "", "")
	reps := fs.String("replays", "", "")
	built := fs.Float64("built", 0, "")
	maxRuns := fs.Int("max", 1<<40, "")
	scen := fs.String("scen", "", "only this scenario")
	_ = fs.Parse(os.Args[2:])
	if *scen != "" {
		var l []*Scen
		for _, s := range Scens {
			if s.Name == *scen {
				l = append(l, s)
			}
		}
		Scens = l
	}
	switch cmd {
	case "worker":
		worker(*prop, *base, *k, *workers, *from, *secs, *maxRuns, *dir)
	case "run":
		os.Exit(parent(*prop, *base, *tier, *secs, *workers, *ev, *reps, *built, *scen))
	case "replay":
		os.Exit(replay(fs.Args()))
	case "one":
		os.Exit(one(*prop, *base, *idx))
	case "list":
		for _, s := range Scens {
			fmt.Println(s.Prop, s.Name, s.Weight)
		}
	}
}

func one(prop string, base uint64, idx int) int {
	go watchdog(new(atomic.Int64), 100*time.Second)
	seed := SeedOf(base, prop, idx)
	s, p := Generate(prop, seed)
	r := Exec(s, p, seed, nil, true)
	b, _ := json.Marshal(p)
	fmt.Println(string(b))
	for _, l := range r.Log {
		fmt.Println(l)
	}
	fmt.Printf("%+v\n", r.Stats)
	if r.V != nil {
		fmt.Println("violation:", r.V.Kind, r.V.Msg)
		return 1
	}
	return 0
}

func replay(files []string) int {
	rc := 0
	go watchdog(new(atomic.Int64), 100*time.Second)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var rp Replay
		if err = json.Unmarshal(b, &rp); err != nil {
			fmt.Println(err)
			return 2
		}
		s := Find(rp.Property, rp.Scen)
		if s == nil {
			fmt.Println("no such scenario", rp.Property, rp.Scen)
			return 2
		}
		r := Exec(s, rp.Prog, rp.Seed, rp.Sch, true)
		for _, l := range r.Log {
			fmt.Println(l)
		}
		if r.V == nil {
			fmt.Println("no violation")
			continue
		}
		rc = 1
		fmt.Printf("violation: %s: %s\n", r.V.Kind, r.V.Msg)
		if r.V.Kind == rp.Kind && r.V.Msg == rp.Msg && r.Stats.Log == rp.LogHash {
			fmt.Println("exactly as recorded")
		} else if r.V.Kind == rp.Kind {
			fmt.Println("same kind, other details")
		}
	}
	return rc
}

func watchdog(cnt *atomic.Int64, limit time.Duration) {
	last, at := cnt.Load(), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		if c := cnt.Load(); c != last {
			last, at = c, time.Now()
		} else if time.Since(at) > limit {
			os.Exit(7)
		}
	}
}

func worker(prop string, base uint64, k, n, from int, secs float64, maxRuns int, dir string) {
	start := time.Now()
	var tick atomic.Int64
	go watchdog(&tick, 60*time.Second)
	sum := &Summary{Counters: map[string]int{}, Scens: map[string]int{}, Modes: map[string]int{}}
	cur, err := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.cur", k)))
	if err != nil {
		os.Exit(3)
	}
	inter := map[uint64]struct{}{}
	distinct := map[uint64]struct{}{}
	end := start.Add(time.Duration(secs * float64(time.Second)))
	finish := func() {
		sum.Counters = simrt.Counters
		sum.WallS = time.Since(start).Seconds()
		b, _ := json.Marshal(sum)
		_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("w%d.json", k)), b, 0o644)
		dumpSet(filepath.Join(dir, fmt.Sprintf("w%d.inter", k)), inter)
		dumpSet(filepath.Join(dir, fmt.Sprintf("w%d.dist", k)), distinct)
		dumpSet(filepath.Join(dir, fmt.Sprintf("w%d.states", k)), states)
	}
	for i := from; ; i++ {
		if i&7 == 0 && time.Now().After(end) || sum.Runs >= maxRuns {
			break
		}
		idx := i*n + k
		var b8 [8]byte
		binary.LittleEndian.PutUint64(b8[:], uint64(i)+1)
		_, _ = cur.WriteAt(b8[:], 0)
		tick.Add(1)
		seed := SeedOf(base, prop, idx)
		s, p := Generate(prop, seed)
		nontriv = false
		r := Exec(s, p, seed, nil, false)
		sum.Runs++
		sum.Scens[s.Name]++
		sum.Modes[[]string{"op-atomic", "sync-point", "statement"}[p.Sim.Mode]+"/"+p.Sim.Policy]++
		sum.Steps += int64(r.Stats.Steps)
		sum.Switches += int64(r.Stats.Switches)
		sum.Preempts += int64(r.Stats.Preempts)
		sum.Stalls += int64(r.Stats.Stalls)
		sum.Timers += int64(r.Stats.Timers)
		sum.Tasks += int64(r.Stats.Tasks)
		sum.SimNs += float64(r.Stats.SimTime)
		sum.MaxSteps = max(sum.MaxSteps, r.Stats.Steps)
		inter[r.Stats.SwitchHash] = struct{}{}
		js, _ := json.Marshal(p)
		if nontriv {
			sum.Nontrivial++
			h := fnv.New64a()
			_, _ = h.Write(js)
			distinct[h.Sum64()^r.Stats.SwitchHash] = struct{}{}
		}
		if len(sum.Samples) < 2 && nontriv {
			smp, _ := json.Marshal(map[string]any{"run": idx, "seed": seed, "program": json.RawMessage(js), "steps": r.Stats.Steps, "switches": r.Stats.Switches, "preemptions": r.Stats.Preempts})
			sum.Samples = append(sum.Samples, smp)
		}
		if r.V != nil {
			rp := &Replay{Property: prop, Scen: s.Name, Kind: r.V.Kind, Msg: r.V.Msg, Base: base, Idx: idx, Seed: seed, Prog: p, Sch: r.Sch, LogHash: r.Stats.Log,
				Orig: fmt.Sprintf("%d operations, %d schedule decisions", nops(p), nsch(r.Sch))}
			stop := make(chan struct{})
			go func() { // shrinking may take long
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Second):
						tick.Add(1)
					}
				}
			}()
			// is the recorded schedule enough?
			if r2 := Exec(s, p, seed, r.Sch, false); r2.V == nil || r2.V.Kind != r.V.Kind {
				rp.Sch = nil // only the seed reproduces it
			} else {
				q, sch, res := Shrink(s, p, r.Sch, r.V.Kind, 12*time.Second)
				if res != nil {
					rp.Prog, rp.Sch, rp.Kind, rp.Msg, rp.Minimal = q, sch, res.V.Kind, res.V.Msg, true
				}
			}
			if r3 := Exec(s, rp.Prog, seed, rp.Sch, true); r3.V != nil {
				rp.Kind, rp.Msg, rp.LogHash, rp.Log = r3.V.Kind, r3.V.Msg, r3.Stats.Log, r3.Log
			}
			close(stop)
			b, _ := json.MarshalIndent(rp, "", " ")
			_ = os.WriteFile(filepath.Join(dir, fmt.Sprintf("w%d.viol", k)), b, 0o644)
			finish()
			os.Exit(10)
		}
		// determinism: the same seed has to give the same history, and so
		// has the recorded schedule
		if i%197 == 5 {
			saved := map[string]int{}
			for c, v := range simrt.Counters {
				saved[c] = v
			}
			r2 := Exec(s, p, seed, nil, false)
			sum.Redo++
			if r2.Stats.Log != r.Stats.Log || r2.Stats.Steps != r.Stats.Steps || r2.Stats.SwitchHash != r.Stats.SwitchHash {
				sum.RedoBad++
			}
			r3 := Exec(s, p, seed, r.Sch, false)
			sum.Replayed++
			if r3.Stats.Log != r.Stats.Log {
				sum.ReplayBad++
			}
			simrt.Counters = saved
		}
	}
	finish()
}

func nops(p *Prog) (n int) {
	n = len(p.Setup)
	for _, c := range p.Clients {
		n += len(c)
	}
	return
}

func nsch(s *simrt.Schedule) int {
	if s == nil {
		return 0
	}
	return len(s.Switches) + len(s.Picks) + len(s.Sels)
}

func dumpSet(f string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	_ = os.WriteFile(f, b, 0o644)
}

func loadSet(f string, m map[uint64]struct{}) {
	b, _ := os.ReadFile(f)
	for len(b) >= 8 {
		m[binary.LittleEndian.Uint64(b)] = struct{}{}
		b = b[8:]
	}
}

func self(args ...string) *exec.Cmd {
	exe, _ := os.Executable()
	c := exec.Command(exe, args...)
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GOTRACEBACK=single")
	return c
}

type wres struct {
	k, code, from int
	out           string
}

func parent(prop string, base uint64, tier string, secs float64, n int, evf, reps string, built float64, scen string) int {
	start := time.Now()
	if len(Of(prop)) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	ch := make(chan wres)
	procs := map[int]*exec.Cmd{}
	deadline := start.Add(time.Duration(secs * float64(time.Second)))
	launch := func(k, from int) {
		left := time.Until(deadline).Seconds()
		c := self("worker", "-prop", prop, "-seed", fmt.Sprint(base), "-k", fmt.Sprint(k), "-workers", fmt.Sprint(n), "-from", fmt.Sprint(from),
			"-secs", fmt.Sprint(left), "-dir", dir, "-scen", scen)
		ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.err", k)))
		c.Stderr = ef
		procs[k] = c
		if err := c.Start(); err != nil {
			go func() { ch <- wres{k, -1, from, err.Error()} }()
			return
		}
		go func() {
			err := c.Wait()
			_ = ef.Close()
			code := 0
			if err != nil {
				code = c.ProcessState.ExitCode()
			}
			ch <- wres{k, code, from, ""}
		}()
	}
	for k := 0; k < n; k++ {
		launch(k, 0)
	}
	alive := n
	crashes := 0
	var found *Replay
	var notes []string
	broken := false
	for alive > 0 {
		r := <-ch
		alive--
		switch {
		case r.code == 0:
		case r.code == 10:
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.viol", r.k)))
			rp := &Replay{}
			if json.Unmarshal(b, rp) == nil && found == nil {
				found = rp
				// let the others stop
				for k, c := range procs {
					if k != r.k && c.Process != nil {
						_ = c.Process.Kill()
					}
				}
			}
		case found != nil: // killed by us
		default: // it crashed or hung: confirm
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.cur", r.k)))
			if len(b) < 8 {
				broken = true
				notes = append(notes, fmt.Sprintf("worker %d could not start (%d %s)", r.k, r.code, r.out))
				break
			}
			i := int(binary.LittleEndian.Uint64(b)) - 1
			idx := i*n + r.k
			tail := tailOf(filepath.Join(dir, fmt.Sprintf("w%d.err", r.k)))
			c := self("one", "-prop", prop, "-seed", fmt.Sprint(base), "-idx", fmt.Sprint(idx), "-scen", scen)
			err := c.Run()
			code := 0
			if err != nil {
				code = c.ProcessState.ExitCode()
			}
			if code != 0 {
				seed := SeedOf(base, prop, idx)
				s, p := Generate(prop, seed)
				kind := "crash"
				if code == 7 {
					kind = "hang"
				}
				found = &Replay{Property: prop, Scen: s.Name, Kind: kind, Msg: "the process died: " + tail, Base: base, Idx: idx, Seed: seed, Prog: p}
				for k, c := range procs {
					if k != r.k && c.Process != nil {
						_ = c.Process.Kill()
					}
				}
				break
			}
			crashes++
			notes = append(notes, fmt.Sprintf("run %d died (exit %d) but passed when run again: %s", idx, r.code, tail))
			if crashes <= 8 && time.Now().Before(deadline) {
				launch(r.k, i+1)
				alive++
			}
		}
	}

	// evidence
	tot := &Summary{Counters: map[string]int{}, Scens: map[string]int{}, Modes: map[string]int{}}
	inter, dist, sts := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	for k := 0; k < n; k++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("w%d.json", k)))
		if err != nil {
			continue
		}
		var s Summary
		if json.Unmarshal(b, &s) != nil {
			continue
		}
		tot.Runs += s.Runs
		tot.Nontrivial += s.Nontrivial
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.Preempts += s.Preempts
		tot.Stalls += s.Stalls
		tot.Timers += s.Timers
		tot.Tasks += s.Tasks
		tot.SimNs += s.SimNs
		tot.MaxSteps = max(tot.MaxSteps, s.MaxSteps)
		tot.Redo += s.Redo
		tot.RedoBad += s.RedoBad
		tot.Replayed += s.Replayed
		tot.ReplayBad += s.ReplayBad
		for c, v := range s.Counters {
			tot.Counters[c] += v
		}
		for c, v := range s.Scens {
			tot.Scens[c] += v
		}
		for c, v := range s.Modes {
			tot.Modes[c] += v
		}
		if len(tot.Samples) < 3 && len(s.Samples) > 0 {
			tot.Samples = append(tot.Samples, s.Samples[0])
		}
		tot.WallS = max(tot.WallS, s.WallS)
		loadSet(filepath.Join(dir, fmt.Sprintf("w%d.inter", k)), inter)
		loadSet(filepath.Join(dir, fmt.Sprintf("w%d.dist", k)), dist)
		loadSet(filepath.Join(dir, fmt.Sprintf("w%d.states", k)), sts)
	}
	faults, probes := map[string]int{}, map[string]int{}
	for c, v := range tot.Counters {
		if strings.HasPrefix(c, "fault:") {
			faults[c[6:]] = v
		} else {
			probes[strings.TrimPrefix(c, "probe:")] = v
		}
	}
	real, stub := map[string]bool{}, map[string]bool{}
	for _, s := range Of(prop) {
		for _, x := range s.Real {
			real[x] = true
		}
		for _, x := range s.Stub {
			stub[x] = true
		}
	}
	wall := time.Since(start).Seconds() + built
	viol := 0
	if found != nil {
		viol = 1
	}
	perHour := 0
	if tot.WallS > 0 {
		perHour = int(float64(tot.Runs) / tot.WallS * 3600)
	}
	evd := map[string]any{
		"property": prop, "tier": tier, "seed": base, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"distinct_nontrivial": len(dist),
			"rule": "a case is one simulated run: a program (client operations and faults) generated from the run's seed, executed under a seeded schedule; " +
				"it is non-trivial if its oracle compared a result of the code under test after at least one state changing operation; two cases are the same if program and task-switch sequence are the same",
			"samples":                     tot.Samples,
			"runs_per_hour":               perHour,
			"seeds_per_hour":              perHour,
			"simulated_seconds":           float64(tot.SimNs) / 1e9,
			"statements_and_sync_steps":   tot.Steps,
			"longest_run_steps":           tot.MaxSteps,
			"task_switches":               tot.Switches,
			"preemptions":                 tot.Preempts,
			"tasks":                       tot.Tasks,
			"timers_fired":                tot.Timers,
			"distinct_interleavings":      len(inter),
			"distinct_interleavings_rule": "hash of the sequence of (task, its local step) at each task switch",
			"distinct_model_states":       len(sts),
			"faults_injected":             faults,
			"probes":                      probes,
			"runs_by_scenario":            tot.Scens,
			"runs_by_granularity":         tot.Modes,
			"determinism_reruns":          tot.Redo,
			"determinism_mismatches":      tot.RedoBad,
			"replays_of_schedules":        tot.Replayed,
			"replay_mismatches":           tot.ReplayBad,
			"real_components":             keys(real),
			"stub_components":             keys(stub),
			"build_s":                     built,
			"notes":                       notes,
		},
		"assumptions": []string{
			"the rewritten sources behave as the original ones: only goroutines, channels, select, map iteration, sync, time, context (and os, fsnotify, clientv3 in the providers) are redirected, and a call is inserted before each statement",
			"weak memory effects below sequential consistency are not simulated",
			"a clean batch is evidence, not proof: runs are sampled by seed",
		},
	}
	if found != nil {
		_ = os.MkdirAll(reps, 0o755)
		path := filepath.Join(reps, fmt.Sprintf("%s-%d-%d.json", prop, base, found.Idx))
		write := func() { b, _ := json.MarshalIndent(found, "", " "); _ = os.WriteFile(path, b, 0o644) }
		write()
		// a fresh process has to reproduce it
		c := self("replay", path)
		out, _ := c.CombinedOutput()
		switch {
		case strings.Contains(string(out), "exactly as recorded"):
			found.Repro = "exactly, in a fresh process"
		case c.ProcessState != nil && c.ProcessState.ExitCode() != 0:
			found.Repro = "in a fresh process, details differ"
		default:
			found.Repro = "no"
		}
		write()
		evd["coverage"].(map[string]any)["replay"] = path
		evd["coverage"].(map[string]any)["reproduced"] = found.Repro
		writeEv(evf, evd)
		fmt.Printf("%s: %s\n", found.Kind, found.Msg)
		for i, cl := range append([][]Op{found.Prog.Setup}, found.Prog.Clients...) {
			for _, o := range cl {
				if i == 0 {
					fmt.Printf("  setup     %s\n", o)
				} else {
					fmt.Printf("  client %d  %s\n", i-1, o)
				}
			}
		}
		fmt.Printf("  schedule: %d decisions; was %s; reproduced: %s\n", nsch(found.Sch), found.Orig, found.Repro)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	writeEv(evf, evd)
	if broken || tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "simcheck: nothing ran:", notes)
		return 2
	}
	fmt.Printf("%s: %d runs, %d distinct non-trivial, %d interleavings, %d model states, %.0f simulated s, %d/%d nondeterministic reruns, no violation (%.1fs)\n",
		prop, tot.Runs, len(dist), len(inter), len(sts), float64(tot.SimNs)/1e9, tot.RedoBad+tot.ReplayBad, tot.Redo+tot.Replayed, wall)
	return 0
}

func writeEv(f string, ev any) {
	if f == "" {
		return
	}
	_ = os.MkdirAll(filepath.Dir(f), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(f, append(b, '\n'), 0o644)
}

func keys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func tailOf(f string) string {
	b, _ := os.ReadFile(f)
	s := strings.TrimSpace(string(b))
	if len(s) > 600 {
		if i := strings.Index(s, "fatal error"); i >= 0 {
			s = s[i:]
		}
		if len(s) > 600 {
			s = s[:600]
		}
	}
	return s
}
