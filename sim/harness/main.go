//go:build go1.22

// Command harness is the simulator: it executes seeded plans against the
// instrumented code and judges what it did.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	cmd_tealdbg "github.com/dragmz/teal/cmd/tealdbg"
	cmd_tealsarif "github.com/dragmz/teal/cmd/tealsarif"
	cmd_tealsp "github.com/dragmz/teal/cmd/tealsp"
	"github.com/dragmz/teal/verifsim/simrt"
)

const memLimit = 6 << 30

func main() {
	if m := os.Getenv("VERIF_SIM_MAIN"); m != "" {
		runMain(m)
		return
	}
	if len(os.Args) < 2 {
		usage()
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		check(args)
	case "worker":
		worker(args)
	case "run":
		runOne(args)
	case "child":
		childMode()
	case "replay":
		replay(args)
	case "list":
		for _, id := range propIDs() {
			p := props[id]
			fmt.Println(id, p.Quick, p.Thorough)
		}
	case "gen":
		// gen PROP SEED IDX: print a plan
		b, _ := strconv.ParseUint(args[1], 10, 64)
		i, _ := strconv.Atoi(args[2])
		e := json.NewEncoder(os.Stdout)
		e.SetIndent("", " ")
		e.Encode(genPlan(props[args[0]], b, i))
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: sim check|run|replay|list|gen ...")
	os.Exit(2)
}

func trouble(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(2)
}

func limits(cpu uint64) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
	if cpu > 0 {
		syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: cpu, Max: cpu + 5})
	}
	debug.SetMaxStack(256 << 20)
}

// FsFault is a fault of the file-system or network shim of a command.
type FsFault struct {
	Op   string `json:"op"`
	Path string `json:"path,omitempty"` // "": any
	Nth  int    `json:"nth"`            // fails at the nth matching operation (from 0); -1: always
	Err  int    `json:"err,omitempty"`  // index into faultErrnos
}

var faultErrnos = []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.EPERM, syscall.EMFILE, syscall.ELOOP, syscall.ENOTDIR, syscall.EBUSY}

// runMain is a whole command-line tool as this process.
func runMain(m string) {
	limits(60)
	var fs []FsFault
	if s := os.Getenv("VERIF_SIM_FS"); s != "" {
		if err := json.Unmarshal([]byte(s), &fs); err != nil {
			trouble("VERIF_SIM_FS: %v", err)
		}
	}
	// what happened is recorded on descriptor 3, if there is one
	var rec *os.File
	if os.Getenv("VERIF_SIM_FSLOG") != "" {
		rec = os.NewFile(3, "log")
	}
	if s := os.Getenv("VERIF_SIM_FSIZE"); s != "" {
		// a disk that is full after so many bytes of a file
		n, _ := strconv.ParseUint(s, 10, 64)
		signal.Ignore(syscall.SIGXFSZ)
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n})
	}
	os.Unsetenv("VERIF_SIM_MAIN")
	seen := make([]int, len(fs))
	simrt.SetMainFs(func(op, path string) error {
		if rec != nil {
			fmt.Fprintf(rec, "%s %s\n", op, path)
		}
		for i, x := range fs {
			if x.Op != op || (x.Path != "" && x.Path != path) {
				continue
			}
			k := seen[i]
			seen[i]++
			if x.Nth < 0 || x.Nth == k {
				if rec != nil {
					fmt.Fprintf(rec, "FAULT %s %s\n", op, path)
				}
				return faultErrnos[x.Err%len(faultErrnos)]
			}
		}
		return nil
	})
	if s := os.Getenv("VERIF_SIM_MAPSEED"); s != "" {
		n, _ := strconv.ParseUint(s, 10, 64)
		simrt.SetRandSeed(n)
	}
	w := &simrt.World{MaxSteps: 200_000_000, SwitchDen: 50, Process: true}
	sched, _ := strconv.ParseUint(os.Getenv("VERIF_SIM_MAPSEED"), 10, 64)
	simrt.Run(w, sched, func() {
		switch m {
		case "tealsarif":
			cmd_tealsarif.VerifMain()
		case "tealsp":
			cmd_tealsp.VerifMain()
		case "tealdbg":
			cmd_tealdbg.VerifMain()
		}
	})
	switch {
	case w.Exited:
		os.Exit(w.ExitCode)
	case w.Panic != nil:
		fmt.Fprintf(os.Stderr, "panic: %v\n%s\n", w.Panic, w.PanicStk)
		os.Exit(2)
	case w.Exhausted:
		fmt.Fprintln(os.Stderr, "verifsim: step budget exhausted")
		os.Exit(97)
	case w.Deadlock:
		fmt.Fprintln(os.Stderr, "fatal error: all goroutines are asleep - deadlock!")
		os.Exit(2)
	}
	os.Exit(0)
}

// Report is what a worker process found.
type Report struct {
	Runs       int               `json:"runs"`
	NonTrivial []uint64          `json:"nontrivial"`
	States     []uint64          `json:"states"`
	Faults     map[string]int    `json:"faults"`
	Probes     map[string]int    `json:"probes"`
	Steps      int64             `json:"steps"`
	ClockUs    int64             `json:"clock_us"`
	Worlds     int               `json:"worlds"`
	Switch     int64             `json:"switches"`
	Rechecked  int               `json:"rechecked"`
	Mismatch   int               `json:"mismatch"`
	Samples    []json.RawMessage `json:"samples"`
	Known      map[string]int    `json:"known"`
	MapRanges  [2]int64          `json:"map_ranges"`
	V          *Violation        `json:"v,omitempty"`
	VIdx       int               `json:"v_idx"`
	Done       bool              `json:"done"`
}

func planHash(p *Plan) uint64 {
	q := *p
	q.Seed, q.InitSeed = 0, 0
	return hash64(jstr(q))
}

func initSeed(base uint64, prop string, chunk int) uint64 { return hash64("init", base, prop, chunk) }

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	dir := fs.String("dir", "", "")
	known := fs.String("known", "", "")
	thorough := fs.Bool("thorough", false, "")
	fs.Parse(args)
	limits(0)
	tierThorough = *thorough
	if f := os.Getenv("VERIF_SIM_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	pr := props[*prop]
	if err := os.Chdir(*dir); err != nil {
		trouble("%v", err)
	}
	kf := loadKnown(*known, pr.ID)
	prog, err := os.Create("progress")
	if err != nil {
		trouble("%v", err)
	}
	rep := &Report{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, VIdx: -1}
	nt := map[uint64]bool{}
	states := map[uint64]bool{}
	is, _ := strconv.ParseUint(os.Getenv("VERIF_SIM_MAPSEED"), 10, 64)
	for i := *from; i < *to; i++ {
		prog.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
		p := genPlan(pr, *seed, i)
		p.InitSeed = is
		x := execute(pr, p)
		rep.Runs++
		for k, v := range x.Faults {
			rep.Faults[k] += v
		}
		for k, v := range x.Probes {
			rep.Probes[k] += v
		}
		rep.Steps += x.Steps
		rep.ClockUs += x.ClockUs
		rep.Worlds += x.Worlds
		rep.Switch += x.Switch
		for s := range x.States {
			states[s] = true
		}
		if !x.Trivial {
			nt[planHash(p)] = true
		}
		if i-*from < 1 {
			if b := jstr(p); len(b) < 3000 {
				rep.Samples = append(rep.Samples, json.RawMessage(b))
			}
		}
		if x.V == nil && i%16 == 5 {
			y := execute(pr, p)
			rep.Rechecked++
			if y.Hash != x.Hash || y.V != nil {
				rep.Mismatch++
			}
		}
		if x.V != nil {
			if k := kf.match(x.V); k != "" {
				rep.Known[k]++
				continue
			}
			rep.V, rep.VIdx = x.V, i
			break
		}
	}
	for h := range nt {
		rep.NonTrivial = append(rep.NonTrivial, h)
	}
	for h := range states {
		rep.States = append(rep.States, h)
	}
	a, b := simrt.MapRanges()
	rep.MapRanges = [2]int64{a, b}
	rep.Done = true
	out, _ := json.Marshal(rep)
	if err := os.WriteFile("report.json", out, 0o644); err != nil {
		trouble("%v", err)
	}
}

var tierThorough bool

// Replay is a replay file.
type Replay struct {
	Plan    *Plan      `json:"plan"`
	V       *Violation `json:"violation"`
	Prelude *Prelude   `json:"prelude,omitempty"` // earlier runs in the same process, if needed
	Repro   bool       `json:"reproduced"`
	How     string     `json:"how"`
}

type Prelude struct {
	Base uint64 `json:"base"`
	From int    `json:"from"`
	To   int    `json:"to"`
}

// runOne: run FILE OUT; executes a replay's plan in this process.
func runOne(args []string) {
	limits(120)
	b, err := os.ReadFile(args[0])
	if err != nil {
		trouble("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		trouble("%v", err)
	}
	if len(args) > 2 {
		if err := os.Chdir(args[2]); err != nil {
			trouble("%v", err)
		}
	}
	pr := props[rp.Plan.Prop]
	if pre := rp.Prelude; pre != nil {
		for i := pre.From; i < pre.To; i++ {
			q := genPlan(pr, pre.Base, i)
			q.InitSeed = rp.Plan.InitSeed
			execute(pr, q)
		}
	}
	x := execute(pr, rp.Plan)
	out, _ := json.Marshal(x.V)
	if err := os.WriteFile(args[1], out, 0o644); err != nil {
		trouble("%v", err)
	}
}

type runner struct {
	self, dir string
	n         int
	mu        sync.Mutex
}

// fresh executes a replay in a fresh process. A process that dies or uses up
// its CPU time is a violation of its own.
func (rr *runner) fresh(rp *Replay) *Violation {
	rr.mu.Lock()
	rr.n++
	d := filepath.Join(rr.dir, fmt.Sprintf("f%d", rr.n))
	rr.mu.Unlock()
	os.MkdirAll(filepath.Join(d, "w"), 0o755)
	defer os.RemoveAll(d)
	in, out := filepath.Join(d, "in"), filepath.Join(d, "out")
	b, _ := json.Marshal(rp)
	os.WriteFile(in, b, 0o644)
	c := exec.Command(rr.self, "run", in, out, filepath.Join(d, "w"))
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_SIM_MAPSEED=%d", rp.Plan.InitSeed))
	var eb bytes.Buffer
	c.Stderr = &eb
	if err := c.Start(); err != nil {
		trouble("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	var err error
	select {
	case err = <-done:
	case <-time.After(400 * time.Second):
		c.Process.Kill()
		<-done
		return &Violation{"stuck", "the run did not end within 400 s of real time"}
	}
	if b, e := os.ReadFile(out); e == nil && err == nil {
		var v *Violation
		json.Unmarshal(b, &v)
		return v
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 2 && strings.HasPrefix(eb.String(), "sim: ") {
			trouble("%s", eb.String())
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && (ws.Signal() == syscall.SIGXCPU || ws.Signal() == syscall.SIGKILL) {
			return &Violation{"hang", "the process used up its processor time (120 s for one run)"}
		}
	}
	return &Violation{"crash", "the process died: " + fmt.Sprint(err) + "\n" + short(eb.String(), 3000)}
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	scratch := fs.String("scratch", "", "")
	verif := fs.String("verif", "", "")
	runs := fs.Int("runs", 0, "")
	secs := fs.Int("secs", 0, "")
	fs.Parse(args)
	pr := props[*prop]
	if pr == nil {
		trouble("unknown property %q", *prop)
	}
	start := time.Now()
	total := pr.Quick
	limit := 420 * time.Second
	if *tier == "thorough" {
		total = pr.Thorough
		limit = 3 * time.Hour
	}
	if *runs > 0 {
		total = *runs
	}
	if *secs > 0 {
		limit = time.Duration(*secs) * time.Second
	}
	chunk := pr.Chunk
	if chunk == 0 {
		chunk = 50
	}
	self, _ := os.Executable()
	rr := &runner{self: self, dir: *scratch}
	knownFile := filepath.Join(*verif, "known-findings.txt")

	nw := 8
	type job struct{ from, to, chunk int }
	jobs := make(chan job, 1+total/chunk)
	for i, c := 0, 0; i < total; i, c = i+chunk, c+1 {
		to := i + chunk
		if to > total {
			to = total
		}
		jobs <- job{i, to, c}
	}
	close(jobs)

	var mu sync.Mutex
	sum := &Report{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
	nt, states := map[uint64]bool{}, map[uint64]bool{}
	type found struct {
		idx  int
		from int
		init uint64
		v    *Violation
	}
	var finds []found
	stop := false
	cut := false
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for j := range jobs {
				mu.Lock()
				s := stop
				if time.Since(start) > limit {
					cut, s = true, true
				}
				mu.Unlock()
				if s {
					return
				}
				dir := filepath.Join(*scratch, fmt.Sprintf("w%d_%d", k, j.chunk))
				os.MkdirAll(dir, 0o755)
				is := initSeed(*seed, pr.ID, j.chunk)
				wargs := []string{"worker", "-prop", pr.ID, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(j.from), "-to", fmt.Sprint(j.to), "-dir", dir, "-known", knownFile}
				if *tier == "thorough" {
					wargs = append(wargs, "-thorough")
				}
				c := exec.Command(self, wargs...)
				c.Env = append(os.Environ(), fmt.Sprintf("VERIF_SIM_MAPSEED=%d", is), "GOMAXPROCS=2", "GOGC=400")
				var eb bytes.Buffer
				c.Stderr = &eb
				done := make(chan error, 1)
				if err := c.Start(); err != nil {
					trouble("%v", err)
				}
				go func() { done <- c.Wait() }()
				var err error
				timedOut := false
				// a single run that makes no progress for this long is looked at alone
				last, lastAt := "", time.Now()
			wait:
				for {
					select {
					case err = <-done:
						break wait
					case <-time.After(time.Second):
						b, _ := os.ReadFile(filepath.Join(dir, "progress"))
						if s := string(b); s != last {
							last, lastAt = s, time.Now()
						}
						if time.Since(lastAt) > 150*time.Second {
							timedOut = true
							c.Process.Kill()
							err = <-done
							break wait
						}
					}
				}
				rep := &Report{}
				if b, e := os.ReadFile(filepath.Join(dir, "report.json")); e == nil && err == nil {
					if json.Unmarshal(b, rep) != nil {
						trouble("bad worker report")
					}
				}
				pb, _ := os.ReadFile(filepath.Join(dir, "progress"))
				os.RemoveAll(dir)
				mu.Lock()
				if rep.Done {
					merge(sum, rep, nt, states)
					if rep.V != nil {
						finds = append(finds, found{rep.VIdx, j.from, is, rep.V})
						stop = true
					}
				} else {
					idx, e := strconv.Atoi(strings.TrimSpace(string(pb)))
					if e != nil {
						trouble("worker died before its first run: %v\n%s", err, short(eb.String(), 2000))
					}
					cl := &Violation{"crash", "the process died: " + fmt.Sprint(err) + "\n" + short(eb.String(), 3000)}
					if timedOut {
						cl = &Violation{"stuck", "the run made no progress for 150 s"}
					}
					finds = append(finds, found{idx, j.from, is, cl})
					stop = true
				}
				mu.Unlock()
			}
		}(k)
	}
	wg.Wait()

	wall := time.Since(start)
	code := 0
	var vs []map[string]any
	if len(finds) > 0 {
		sort.Slice(finds, func(i, j int) bool { return finds[i].idx < finds[j].idx })
		f := finds[0]
		p := genPlan(pr, *seed, f.idx)
		p.InitSeed = f.init
		rp := &Replay{Plan: p, V: f.v}
		v := rr.fresh(rp)
		if v == nil {
			rp.Prelude = &Prelude{*seed, f.from, f.idx}
			v = rr.fresh(rp)
		}
		if v == nil && f.v.Class == "stuck" {
			trouble("run %d made no progress for 150 s but ended when run alone: machine too slow?", f.idx)
		}
		if v != nil && v.Class == "stuck" {
			trouble("run %d does not end in real time but uses little processor time: %s", f.idx, v.Detail)
		}
		if v != nil {
			rp.V = v
			rp.Repro = true
			minimise(rr, pr, rp)
		}
		rp.How = "bash /verif/replay.sh FILE"
		os.MkdirAll(filepath.Join(*verif, "replays"), 0o755)
		file := filepath.Join(*verif, "replays", fmt.Sprintf("%s-%d.json", pr.ID, f.idx))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(file, append(b, '\n'), 0o644); err != nil {
			trouble("%v", err)
		}
		fmt.Printf("%s: %s: %s\n", pr.ID, rp.V.Class, rp.V.Detail)
		fmt.Printf("run %d, seed %d, %d ops, %d faults, reproduced=%v\n", f.idx, rp.Plan.Seed, len(rp.Plan.Ops), len(rp.Plan.Faults), rp.Repro)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, file)
		vs = append(vs, map[string]any{"class": rp.V.Class, "detail": rp.V.Detail, "replay": file})
		code = 1
	}
	var ks []string
	for k := range sum.Known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, k)
	}

	hours := wall.Hours()
	cov := map[string]any{
		"evaluations":            sum.Runs,
		"distinct_nontrivial":    len(nt),
		"rule":                   pr.Rule,
		"samples":                sum.Samples,
		"runs_planned":           total,
		"stopped_early":          cut,
		"simulated_executions":   sum.Worlds,
		"runs_per_hour":          int(float64(sum.Runs) / hours),
		"executions_per_hour":    int(float64(sum.Worlds) / hours),
		"simulated_steps":        sum.Steps,
		"simulated_seconds":      float64(sum.ClockUs) / 1e6,
		"faults_injected":        sum.Faults,
		"observations":           sum.Probes,
		"distinct_states":        len(states),
		"distinct_state_rule":    pr.StateRule,
		"task_switches":          sum.Switch,
		"map_iterations_ordered": map[string]int64{"all": sum.MapRanges[0], "with_choice": sum.MapRanges[1]},
		"determinism":            map[string]int{"runs_repeated": sum.Rechecked, "repetitions_that_differed": sum.Mismatch},
		"components":             map[string]string{"real_code": pr.Real, "stub": pr.Stub},
	}
	ev := map[string]any{
		"property": pr.ID, "tier": *tier, "seed": *seed, "level": pr.Level, "coverage": cov,
		"wall_s": wall.Seconds(), "violations": len(vs),
		"assumptions": []string{
			"the instrumented copy behaves as the original apart from the seams (step hooks, map order, clock, randomness, file system, dialing)",
			"third-party packages run uninstrumented",
		},
	}
	if len(vs) > 0 {
		ev["violation_list"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", pr.ID+".json"), append(b, '\n'), 0o644); err != nil {
		trouble("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d simulated executions, %d distinct non-trivial plans) in %.1f s, %d violations\n", pr.ID, *tier, sum.Runs, sum.Worlds, len(nt), wall.Seconds(), len(vs))
	os.Exit(code)
}

func merge(sum, rep *Report, nt, states map[uint64]bool) {
	sum.Runs += rep.Runs
	for k, v := range rep.Faults {
		sum.Faults[k] += v
	}
	for k, v := range rep.Probes {
		sum.Probes[k] += v
	}
	for k, v := range rep.Known {
		sum.Known[k] += v
	}
	sum.Steps += rep.Steps
	sum.ClockUs += rep.ClockUs
	sum.Worlds += rep.Worlds
	sum.Switch += rep.Switch
	sum.Rechecked += rep.Rechecked
	sum.Mismatch += rep.Mismatch
	sum.MapRanges[0] += rep.MapRanges[0]
	sum.MapRanges[1] += rep.MapRanges[1]
	for _, h := range rep.NonTrivial {
		nt[h] = true
	}
	for _, h := range rep.States {
		states[h] = true
	}
	if len(sum.Samples) < 3 {
		sum.Samples = append(sum.Samples, rep.Samples...)
	}
}

// minimise shrinks the replay while the same class of violation stays.
func minimise(rr *runner, pr *Prop, rp *Replay) {
	end := time.Now().Add(60 * time.Second)
	class := rp.V.Class
	tries := 0
	try := func(ps []*Replay) int {
		// first reproducing candidate wins; candidates run in parallel
		type res struct {
			i int
			v *Violation
		}
		for lo := 0; lo < len(ps); lo += 8 {
			if time.Now().After(end) || tries > 600 {
				return -1
			}
			hi := lo + 8
			if hi > len(ps) {
				hi = len(ps)
			}
			out := make([]*Violation, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				tries++
				go func(i int) {
					defer wg.Done()
					out[i-lo] = rr.fresh(ps[i])
				}(i)
			}
			wg.Wait()
			for i, v := range out {
				if v != nil && v.Class == class {
					ps[lo+i].V = v
					return lo + i
				}
			}
		}
		return -1
	}
	with := func(p *Plan) *Replay { return &Replay{Plan: p, Prelude: rp.Prelude, V: rp.V, Repro: true} }
	adopt := func(c *Replay) { rp.Plan, rp.V, rp.Prelude = c.Plan, c.V, c.Prelude }
	if rp.Prelude != nil {
		for rp.Prelude.To-rp.Prelude.From > 1 {
			a := with(rp.Plan)
			pre := *rp.Prelude
			pre.From = (pre.From + pre.To) / 2
			a.Prelude = &pre
			b := with(rp.Plan)
			pre2 := *rp.Prelude
			pre2.To = (pre2.From + pre2.To) / 2
			b.Prelude = &pre2
			cs := []*Replay{a, b}
			i := try(cs)
			if i < 0 {
				break
			}
			adopt(cs[i])
		}
	}
	for round := 0; round < 6; round++ {
		changed := false
		// ddmin over ops
		for n := len(rp.Plan.Ops) / 2; n >= 1; n /= 2 {
			for again := true; again; {
				again = false
				var cs []*Replay
				for lo := 0; lo < len(rp.Plan.Ops); lo += n {
					hi := lo + n
					if hi > len(rp.Plan.Ops) {
						hi = len(rp.Plan.Ops)
					}
					q := rp.Plan.clone()
					q.Ops = append(append([]Op{}, q.Ops[:lo]...), q.Ops[hi:]...)
					cs = append(cs, with(q))
				}
				if i := try(cs); i >= 0 {
					adopt(cs[i])
					changed, again = true, true
				}
			}
		}
		for again := true; again; {
			again = false
			var cs []*Replay
			for i := range rp.Plan.Faults {
				q := rp.Plan.clone()
				q.Faults = append(q.Faults[:i:i], q.Faults[i+1:]...)
				cs = append(cs, with(q))
			}
			if len(rp.Plan.Cuts) > 0 {
				for _, k := range []int{0, len(rp.Plan.Cuts) / 2, len(rp.Plan.Cuts) - 1} {
					if k < len(rp.Plan.Cuts) {
						q := rp.Plan.clone()
						q.Cuts = q.Cuts[:k]
						cs = append(cs, with(q))
					}
				}
			}
			for i, t := range rp.Plan.Text {
				for _, nt := range shrinkText(t) {
					q := rp.Plan.clone()
					q.Text[i] = nt
					cs = append(cs, with(q))
				}
			}
			if pr.Shrink != nil {
				for _, q := range pr.Shrink(rp.Plan.clone()) {
					cs = append(cs, with(q))
				}
			}
			if len(cs) > 0 {
				if i := try(cs); i >= 0 {
					adopt(cs[i])
					changed, again = true, true
				}
			}
		}
		if !changed || time.Now().After(end) {
			break
		}
	}
}

func shrinkText(t string) []string {
	ls := strings.SplitAfter(t, "\n")
	var out []string
	for n := len(ls) / 2; n >= 1; n /= 2 {
		for lo := 0; lo < len(ls); lo += n {
			hi := lo + n
			if hi > len(ls) {
				hi = len(ls)
			}
			if hi-lo == len(ls) {
				continue
			}
			out = append(out, strings.Join(ls[:lo], "")+strings.Join(ls[hi:], ""))
		}
	}
	if len(out) > 64 {
		out = out[:64]
	}
	return out
}

// replay FILE SCRATCH: exit 1 and the violation if it reproduces.
func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		trouble("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		trouble("%v", err)
	}
	self, _ := os.Executable()
	rr := &runner{self: self, dir: args[1]}
	v := rr.fresh(rp)
	if v == nil {
		fmt.Println("not reproduced")
		os.Exit(0)
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	if rp.V != nil {
		fmt.Printf("same as recorded: %v\n", *v == *rp.V)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Plan.Prop, args[0])
	os.Exit(1)
}

// known findings

type knownSet []string

func loadKnown(file, prop string) knownSet {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks knownSet
	for _, ln := range strings.Split(string(b), "\n") {
		// finding: property=<id> match="<substring of class: detail>" <what fails>
		rest, ok := strings.CutPrefix(ln, "finding: property="+prop+" ")
		if ok {
			ks = append(ks, rest)
		}
	}
	return ks
}

func (ks knownSet) match(v *Violation) string {
	for _, k := range ks {
		rest, ok := strings.CutPrefix(k, "match=")
		if !ok {
			continue
		}
		q, err := strconv.QuotedPrefix(rest)
		if err != nil {
			continue
		}
		s, _ := strconv.Unquote(q)
		if s != "" && strings.Contains(v.Class+": "+v.Detail, s) {
			return strings.TrimSpace(rest[len(q):])
		}
	}
	return ""
}
