// Command harness runs the deterministic simulation of the stream library.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"verif.local/rt"
)

// Replay is a replay file.
type Replay struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Message  string `json:"message"`
	Note     string `json:"note,omitempty"`
	Found    string `json:"found"`
	Race     bool   `json:"race,omitempty"`
	Spec     *Spec  `json:"spec,omitempty"`
	// Worker replays a whole series of runs (when one run alone does not show it)
	Worker *Series `json:"series,omitempty"`
}

// Series is a sequence of runs in one process.
type Series struct {
	Tier             string
	Seed, W, N, Last uint64
}

var (
	fProp   = flag.String("prop", "", "property")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fSeed   = flag.Uint64("seed", 1, "seed")
	fRuns   = flag.Uint64("runs", 0, "runs (0: the property's own number)")
	fCap    = flag.Int("cap", 0, "wall clock limit in seconds (0: by tier)")
	fWork   = flag.Int("workers", 0, "worker processes (0: one per core)")
	fEv     = flag.String("evidence", "", "evidence file")
	fRep    = flag.String("replays", "", "directory for replay files")
	fKnown  = flag.String("known", "", "known findings file")
	fMode   = flag.String("mode", "run", "run, worker, minimize, replay, spec")
	fW      = flag.Uint64("w", 0, "worker number")
	fUntil  = flag.Int64("until", 0, "stop at (unix ms)")
	fFile   = flag.String("file", "", "input file")
	fOut    = flag.String("out", "", "output file")
	fMin    = flag.Int("min", 20, "seconds to spend on minimising")
	fHashes = flag.Bool("hashes", false, "report all execution hashes")
	fInstr  = flag.String("instr", "", "statistics of the instrumentation")
)

func main() {
	flag.Parse()
	if *fMode == "replay" {
		os.Exit(replay(*fFile))
	}
	p := props[*fProp]
	if p == nil {
		fatalf("unknown property %q", *fProp)
	}
	runs := *fRuns
	if runs == 0 {
		runs = uint64(p.quick)
		if *fTier == "thorough" {
			runs = uint64(p.thorough)
		}
	}
	switch *fMode {
	case "worker":
		worker(p, *fTier, *fSeed, *fW, uint64(*fWork), runs, time.UnixMilli(*fUntil), *fHashes)
	case "minimize":
		os.Exit(minimize(p, *fFile, *fOut))
	case "spec":
		b, _ := json.MarshalIndent(newSpec(p, *fTier, *fSeed, *fW), "", " ")
		fmt.Println(string(b))
	case "run":
		os.Exit(parent(p, runs))
	default:
		fatalf("bad mode")
	}
}

func readReplay(file string) *Replay {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%s: %v", file, err)
	}
	return &r
}

func writeReplay(file string, r *Replay) {
	b, err := json.MarshalIndent(r, "", " ")
	if err == nil {
		err = os.WriteFile(file, append(b, '\n'), 0o644)
	}
	if err != nil {
		fatalf("%v", err)
	}
}

// replay re-executes a replay file: exit 1 when the violation shows again.
func replay(file string) int {
	runtime.GOMAXPROCS(1)
	r := readReplay(file)
	p := props[r.Property]
	if p == nil {
		fatalf("unknown property %q", r.Property)
	}
	var v *Viol
	var o rt.Outcome
	if r.Spec != nil {
		v, _, o = runSpec(p, r.Spec, false)
	} else {
		s := r.Worker
		for i := s.W; i <= s.Last; i += s.N {
			v, _, o = runSpec(p, newSpec(p, s.Tier, s.Seed, i), false)
		}
	}
	if v == nil || v.Known != "" {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("violation of %s: %s\nexecution hash %016x\n", r.Property, v, o.THash)
	if v.Class != r.Class {
		fmt.Printf("(the file records %q)\n", r.Class)
	}
	return 1
}

func minimize(p *prop, in, out string) int {
	runtime.GOMAXPROCS(1)
	r := readReplay(in)
	m := &minimizer{p: p, class: r.Class, until: time.Now().Add(time.Duration(*fMin) * time.Second)}
	m.test = func(sp *Spec) *Viol {
		v, _, _ := runSpec(p, cloneSpec(sp), false)
		if v != nil && v.Known != "" {
			return nil
		}
		return v
	}
	if !m.fails(r.Spec) {
		return 3
	}
	n0 := len(refs(r.Spec))
	sp := m.run(r.Spec)
	// leave time for the schedule
	if m.until.Before(time.Now().Add(5 * time.Second)) {
		m.until = time.Now().Add(5 * time.Second)
	}
	sp = m.schedule(sp)
	r.Spec = sp
	r.Message = m.last.Msg
	r.Note = fmt.Sprintf("minimised from %d to %d calls, schedule of %d decisions, %d executions tried", n0, len(refs(sp)), len(sp.Cfg.Policy.Trace), m.tries)
	writeReplay(out, r)
	return 0
}

type wproc struct {
	cmd   *exec.Cmd
	w     uint64
	last  uint64
	began bool
	at    time.Time
	err   bytes.Buffer
	done  bool
	stat  *WStats
	viol  *Msg
	code  error
}

type event struct {
	k   *wproc
	m   *Msg
	end bool
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		fatalf("%v", err)
	}
	return s
}

func raceEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3")
}

func spawn(p *prop, tier string, seed, w, n, runs uint64, until time.Time, hashes bool, ev chan event) *wproc {
	k := &wproc{w: w, at: time.Now()}
	args := []string{"-mode", "worker", "-prop", p.id, "-tier", tier, "-seed", fmt.Sprint(seed), "-w", fmt.Sprint(w),
		"-workers", fmt.Sprint(n), "-runs", fmt.Sprint(runs), "-until", fmt.Sprint(until.UnixMilli())}
	if hashes {
		args = append(args, "-hashes")
	}
	k.cmd = exec.Command(self(), args...)
	k.cmd.Env = raceEnv()
	k.cmd.Stderr = &limited{&k.err, 1 << 18}
	so, err := k.cmd.StdoutPipe()
	if err != nil {
		fatalf("%v", err)
	}
	if err := k.cmd.Start(); err != nil {
		fatalf("%v", err)
	}
	go func() {
		rd := bufio.NewReaderSize(so, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if len(line) > 0 {
				m := &Msg{}
				if json.Unmarshal(line, m) == nil {
					ev <- event{k: k, m: m}
				}
			}
			if err != nil {
				break
			}
		}
		k.code = k.cmd.Wait()
		ev <- event{k: k, end: true}
	}()
	return k
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

const hangAfter = 90 * time.Second

// parent runs the workers and reports.
func parent(p *prop, runs uint64) int {
	start := time.Now()
	n := *fWork
	if n == 0 {
		n = runtime.NumCPU()
	}
	limit := *fCap
	if limit == 0 {
		limit = 150
		if *fTier == "thorough" {
			limit = 660
		}
	}
	until := start.Add(time.Duration(limit) * time.Second)
	ev := make(chan event, 1024)
	var ks []*wproc
	for w := 0; w < n; w++ {
		ks = append(ks, spawn(p, *fTier, *fSeed, uint64(w), uint64(n), runs, until, false, ev))
	}
	best := ^uint64(0) // smallest failing run
	var bestK *wproc
	open := n
	tickC := time.NewTicker(time.Second)
	hung := map[*wproc]bool{}
	for open > 0 {
		select {
		case e := <-ev:
			e.k.at = time.Now()
			if e.end {
				e.k.done = true
				open--
				if e.k.stat == nil && e.k.began && (e.k.viol == nil) && !hung[e.k] && e.k.last < best && e.k.code != nil {
					// died in the middle of a run
					best, bestK = e.k.last, e.k
				}
				break
			}
			switch e.m.T {
			case "run":
				e.k.last, e.k.began = e.m.I, true
			case "viol":
				e.k.viol = e.m
				if e.m.I < best {
					best, bestK = e.m.I, e.k
				}
			case "stat":
				e.k.stat = e.m.S
			}
		case <-tickC.C:
			for _, k := range ks {
				if !k.done && time.Since(k.at) > hangAfter && !hung[k] {
					hung[k] = true
					k.cmd.Process.Kill()
					if k.last < best {
						best, bestK = k.last, k
					}
				}
			}
		}
		// a failure ends the search: earlier runs still get their turn
		if bestK != nil {
			for _, k := range ks {
				if !k.done && k != bestK && k.last > best && k.viol == nil {
					k.cmd.Process.Kill()
					hung[k] = true
				}
			}
		}
	}
	known := readKnown(*fKnown, p.id)
	total := merge(ks)
	viols := 0
	code := 0
	if bestK != nil {
		viols, code = report(p, bestK, best, uint64(n), hung[bestK] && bestK.viol == nil)
	} else {
		for _, k := range ks {
			if k.stat == nil {
				fmt.Fprintf(os.Stderr, "worker %d ended without a report: %v\n%s", k.w, k.code, tailOf(k.err.String(), 3000))
				return 2
			}
		}
	}
	var sigs []string
	for s := range total.Known {
		sigs = append(sigs, s)
	}
	sort.Strings(sigs)
	for _, s := range sigs {
		if d, ok := known[s]; ok {
			_ = d
			continue
		}
		if code == 0 {
			// not listed: an ordinary violation
			fmt.Println("unlisted finding", s, total.KnownMsg[s])
			viols, code = reportKnown(p, s, total.KnownMsg[s])
		}
	}
	for s, d := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", p.id, d, total.Known[s])
	}
	det := ""
	if code == 0 {
		det = recheck(p, total, until)
	}
	if *fEv != "" {
		evidence(p, total, viols, time.Since(start), n, det, known)
	}
	fmt.Printf("%s %s seed %d: %d runs, %d distinct non-trivial, %d steps, %.1fs, %d violations\n", p.id, *fTier, *fSeed, total.Runs, len(total.Hash), total.St.Steps, time.Since(start).Seconds(), viols)
	return code
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// readKnown reads "known: property=<id> signature=<s> <description>" lines.
func readKnown(file, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "signature=") {
			m[strings.TrimPrefix(f[2], "signature=")] = f[3]
		}
	}
	return m
}

func merge(ks []*wproc) *WStats {
	t := &WStats{Known: map[string]int{}, KnownMsg: map[string]string{}, Policy: map[string]int{}, Scen: map[string]int{}, Kind: map[string]int{}, Faults: map[string]int{}, Ops: map[string]int{}, THash: map[uint64]uint64{}}
	nt, all := map[uint64]bool{}, map[uint64]bool{}
	add := func(a, b map[string]int) {
		for k, v := range b {
			a[k] += v
		}
	}
	for _, k := range ks {
		s := k.stat
		if s == nil {
			continue
		}
		t.Runs += s.Runs
		addStats(&t.St, &s.St)
		for _, h := range s.Hash {
			nt[h] = true
		}
		for _, h := range s.All {
			all[h] = true
		}
		add(t.Known, s.Known)
		for a, b := range s.KnownMsg {
			t.KnownMsg[a] = b
		}
		add(t.Policy, s.Policy)
		add(t.Scen, s.Scen)
		add(t.Kind, s.Kind)
		add(t.Faults, s.Faults)
		add(t.Ops, s.Ops)
		t.NOps += s.NOps
		t.Conc += s.Conc
		t.Lin.Checked += s.Lin.Checked
		t.Lin.Unknown += s.Lin.Unknown
		t.Lin.States += s.Lin.States
		if s.Lin.Peak > t.Lin.Peak {
			t.Lin.Peak = s.Lin.Peak
		}
		if s.Slack > t.Slack {
			t.Slack = s.Slack
		}
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, s.Samples...)
		}
		for a, b := range s.THash {
			t.THash[a] = b
		}
	}
	for h := range nt {
		t.Hash = append(t.Hash, h)
	}
	for h := range all {
		t.All = append(t.All, h)
	}
	return t
}

// tryReplay runs a replay file in a fresh process.
func tryReplay(file string, limit time.Duration) (int, string) {
	c := exec.Command(self(), "-mode", "replay", "-file", file)
	c.Env = raceEnv()
	var b bytes.Buffer
	w := &limited{&b, 1 << 20}
	c.Stdout, c.Stderr = w, w
	if err := c.Start(); err != nil {
		fatalf("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case <-done:
		return c.ProcessState.ExitCode(), b.String()
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		return -100, b.String()
	}
}

func report(p *prop, k *wproc, run, n uint64, hang bool) (int, int) {
	dir := *fRep
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	tmp, err := os.MkdirTemp("", "harness")
	if err != nil {
		fatalf("%v", err)
	}
	defer os.RemoveAll(tmp)
	r := &Replay{Property: p.id, Race: p.race, Found: fmt.Sprintf("tier %s seed %d run %d", *fTier, *fSeed, run), Spec: newSpec(p, *fTier, *fSeed, run)}
	if k.viol != nil {
		r.Class, r.Message = k.viol.V.Class, k.viol.V.Msg
	} else if hang {
		r.Class, r.Message = "hang", "the execution makes no progress"
	} else {
		r.Class, r.Message = "crash", "the process died: "+tailOf(k.err.String(), 4000)
	}
	file := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.id, *fSeed, run))
	print := func(text string) (int, int) {
		fmt.Printf("--- %s: %s\n%s\n", p.id, r.Class, tailOf(text, 6000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
		return 1, 1
	}
	fresh := func(f string) (bool, string) {
		limit := 120 * time.Second
		if r.Class == "hang" {
			limit = 60 * time.Second
		}
		c, out := tryReplay(f, limit)
		switch r.Class {
		case "hang":
			return c == -100, out
		case "crash":
			return c != 0 && c != 1 && c != -100, out
		}
		return c == 1 && !strings.Contains(out, "(the file records"), out
	}
	orig := filepath.Join(tmp, "orig.json")
	writeReplay(orig, r)
	ok, out := fresh(orig)
	if !ok {
		// only together with the runs before it
		r.Worker = &Series{Tier: *fTier, Seed: *fSeed, W: k.w, N: n, Last: run}
		spec := r.Spec
		r.Spec = nil
		r.Note = "shows only after the runs before it in the same process"
		writeReplay(file, r)
		if ok, out := fresh(file); ok {
			return print(out)
		}
		r.Spec = spec
		fmt.Fprintf(os.Stderr, "%s: a violation in run %d does not replay: %s: %s\nreplay: %s\n", p.id, run, r.Class, r.Message, out)
		return 0, 2
	}
	if r.Class != "hang" && r.Class != "crash" && *fMin > 0 {
		small := filepath.Join(tmp, "small.json")
		c := exec.Command(self(), "-mode", "minimize", "-prop", p.id, "-file", orig, "-out", small, "-min", fmt.Sprint(*fMin))
		c.Env = raceEnv()
		done := make(chan error, 1)
		if err := c.Start(); err != nil {
			fatalf("%v", err)
		}
		go func() { done <- c.Wait() }()
		select {
		case <-done:
		case <-time.After(time.Duration(*fMin)*time.Second + 60*time.Second):
			c.Process.Kill()
			<-done
		}
		if _, err := os.Stat(small); err == nil {
			if ok, sout := fresh(small); ok {
				b, _ := os.ReadFile(small)
				if err := os.WriteFile(file, b, 0o644); err != nil {
					fatalf("%v", err)
				}
				return print(sout)
			}
		}
	}
	writeReplay(file, r)
	return print(out)
}

func reportKnown(p *prop, sig, msg string) (int, int) {
	dir := *fRep
	if dir == "" {
		dir = os.TempDir()
	}
	var run uint64
	fmt.Sscanf(msg, "run %d:", &run)
	file := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.id, *fSeed, run))
	writeReplay(file, &Replay{Property: p.id, Class: "known", Message: sig + ": " + msg, Found: fmt.Sprintf("tier %s seed %d run %d", *fTier, *fSeed, run), Spec: newSpec(p, *fTier, *fSeed, run)})
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, file)
	return 1, 1
}

// recheck repeats some runs in one fresh process and compares execution hashes.
func recheck(p *prop, t *WStats, until time.Time) string {
	n := uint64(40)
	if p.seqOK {
		n = 4
	}
	if n > uint64(t.Runs) {
		n = uint64(t.Runs)
	}
	ev := make(chan event, 1024)
	k := spawn(p, *fTier, *fSeed, 0, 1, n, time.Now().Add(60*time.Second), true, ev)
	for e := range ev {
		if e.end {
			break
		}
		if e.m.T == "stat" {
			k.stat = e.m.S
		}
	}
	if k.stat == nil {
		return "the repeated runs gave no answer"
	}
	same, diff := 0, 0
	for i, h := range k.stat.THash {
		if w, ok := t.THash[i]; ok {
			if w == h {
				same++
			} else {
				diff++
			}
		}
	}
	return fmt.Sprintf("%d runs repeated in another process with another distribution over workers: %d identical, %d different", same+diff, same, diff)
}

func evidence(p *prop, t *WStats, viols int, wall time.Duration, n int, det string, known map[string]string) {
	hours := wall.Hours()
	faults := map[string]int{
		"preemptions inside a call":                    int(t.St.PreemptInOp),
		"preemptions with a lock held":                 int(t.St.PreemptLock),
		"stalled callers":                              int(t.St.Stalls),
		"stalled callers holding a lock":               int(t.St.StallsInLock),
		"waits for a lock or channel":                  int(t.St.Contended),
		"writers waiting for readers":                  int(t.St.WriterWaits),
		"clock reads":                                  int(t.St.ClockReads),
		"clock jumps":                                  int(t.St.ClockJumps),
		"random draws":                                 int(t.St.RandDraws),
		"random draws forced to an extreme":            int(t.St.RandExtreme),
		"map iteration orders shuffled (elements)":     int(t.St.MapShuffles),
		"goroutines started by the library or clients": int(t.St.Spawned),
	}
	for k, v := range t.Faults {
		faults[k] = v
	}
	cov := map[string]interface{}{
		"evaluations":                    t.Runs,
		"distinct_nontrivial":            len(t.Hash),
		"rule":                           p.rule,
		"samples":                        t.Samples,
		"distinct_executions":            len(t.All),
		"runs_with_concurrent_clients":   t.Conc,
		"runs_per_hour":                  int(float64(t.Runs) / hours),
		"seeds_per_hour":                 int(float64(t.Runs) / hours),
		"calls_simulated":                t.NOps,
		"calls_by_kind":                  t.Ops,
		"objects_by_kind":                t.Kind,
		"scenarios":                      t.Scen,
		"schedule_policies":              t.Policy,
		"simulated_steps":                t.St.Steps,
		"simulated_time":                 fmt.Sprintf("%d steps including idle time, i.e. %.3f s at 250 ns per step", t.St.VTime, float64(t.St.VTime)*250e-9),
		"scheduler_switches":             t.St.Switches,
		"faults_injected":                faults,
		"histories_checked":              t.Lin.Checked,
		"histories_undecided":            t.Lin.Unknown,
		"model_states":                   t.Lin.States,
		"largest_frontier":               t.Lin.Peak,
		"largest_share_of_the_tolerance": t.Slack,
		"determinism":                    det,
		"workers":                        n,
		"real_code":                      "all non-test packages of /repo, github.com/workiva/go-datastructures/queue and github.com/gammazero/deque, compiled from instrumented copies of the current sources",
		"simulated":                      "goroutine scheduling, sync.Mutex/RWMutex/WaitGroup/Once/Cond/Pool/Map, channels, time.Now and sleeps, math/rand, map iteration order; wrapped metrics named mock are stand-ins",
	}
	if b, err := os.ReadFile(*fInstr); err == nil {
		var m map[string]interface{}
		if json.Unmarshal(b, &m) == nil {
			cov["instrumentation"] = m
		}
	}
	if p.race {
		cov["race_detector"] = "ThreadSanitizer in the simulated process; only the simulated primitives create happens-before edges"
	}
	if len(known) > 0 {
		cov["known_findings"] = known
		cov["known_findings_seen"] = t.Known
	}
	doc := map[string]interface{}{
		"property": p.id, "tier": *fTier, "seed": *fSeed, "level": "exploration",
		"coverage":   cov,
		"wall_s":     wall.Seconds(),
		"violations": viols,
		"assumptions": []string{
			"a statement without calls is executed without interruption; a preemption can happen before every statement and at every synchronisation operation",
			"the seeded search samples schedules, workloads and faults; what it did not reach is not decided",
			"the instrumentation keeps the meaning of the sources; the library is built with the toolchain of the sandbox",
		},
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(*fEv), 0o755)
		err = os.WriteFile(*fEv, append(b, '\n'), 0o644)
	}
	if err != nil {
		fatalf("%v", err)
	}
}
