package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"verif.local/rt"
)

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// newSpec draws run i of a property.
func newSpec(p *prop, tier string, seed, i uint64) *Spec {
	s := rt.Mix(rt.Mix(seed, strHash(p.id)), i)
	g := &gen{RNG: rt.NewRNG(s), big: tier == "thorough"}
	sp := &Spec{Prop: p.id, Seed: seed, Run: i}
	p.gen(g, sp)
	sp.Cfg = g.sim(countOps(sp))
	budget(sp, &sp.Cfg)
	if sp.P["fair"] == 1 {
		sp.Cfg.RandMode, sp.Cfg.ClockMode = 0, 0
	}
	if n := sp.P["steps"]; n > 0 {
		sp.Cfg.StepCap, sp.Cfg.OpCap, sp.Cfg.FairAfter = uint64(n), uint64(n)/2, uint64(n)/2
	}
	return sp
}

// runSpec executes and checks one spec.
func runSpec(p *prop, sp *Spec, record bool) (*Viol, *Hist, rt.Outcome) {
	before := rt.RaceErrors()
	h, o := execute(sp, record)
	v := p.check(h, &o, sp)
	if n := rt.RaceErrors() - before; p.race && n > 0 {
		v = &Viol{Class: "race", Msg: fmt.Sprintf("%d data race(s) reported in this execution", n)}
	}
	return v, h, o
}

// Msg is what a worker tells its parent.
type Msg struct {
	T     string   `json:"t"` // run, viol, stat
	I     uint64   `json:"i"`
	V     *Viol    `json:"v,omitempty"`
	S     *WStats  `json:"s,omitempty"`
	Hash  uint64   `json:"h,omitempty"`
	Kinds []string `json:"k,omitempty"`
}

// WStats accumulates what a worker did.
type WStats struct {
	Runs     int
	St       rt.Stats
	Hash     []uint64 // distinct non-trivial
	All      []uint64 // distinct executions
	Known    map[string]int
	KnownMsg map[string]string
	Lin      linStats
	Slack    float64
	Policy   map[string]int
	Scen     map[string]int
	Kind     map[string]int
	Faults   map[string]int
	Ops      map[string]int
	NOps     int
	Conc     int
	Samples  []string
	THash    map[uint64]uint64
}

func addStats(a, b *rt.Stats) {
	a.Steps += b.Steps
	a.VTime += b.VTime
	a.Switches += b.Switches
	a.PreemptInOp += b.PreemptInOp
	a.PreemptLock += b.PreemptLock
	a.Stalls += b.Stalls
	a.StallsInLock += b.StallsInLock
	a.Contended += b.Contended
	a.WriterWaits += b.WriterWaits
	a.Yields += b.Yields
	a.ClockJumps += b.ClockJumps
	a.ClockReads += b.ClockReads
	a.RandDraws += b.RandDraws
	a.RandExtreme += b.RandExtreme
	a.MapShuffles += b.MapShuffles
	a.Spawned += b.Spawned
	a.ChanOps += b.ChanOps
}

func countCfg(m map[string]int, c *ObjCfg) {
	k := c.Kind
	if c.Impl > 0 || c.Kind == "quantile" || c.Kind == "median" || c.Kind == "iqr" {
		k += []string{"/avl", "/rb", "/skiplist"}[c.Impl%3]
	}
	m[k]++
	for i := range c.Members {
		countCfg(m, &c.Members[i])
	}
}

func countRun(w *WStats, h *Hist, sp *Spec) {
	for i := range sp.Objs {
		countCfg(w.Kind, &sp.Objs[i])
		for j := range sp.Objs[i].Members {
			if m := &sp.Objs[i].Members[j]; m.Slow > 0 {
				w.Faults["slow wrapped metrics"]++
			}
		}
	}
	var one func(op *Op, r *Res)
	one = func(op *Op, r *Res) {
		w.Ops[op.K]++
		w.NOps++
		if op.Bad {
			w.Faults["calls that must be rejected"]++
		}
		if op.S > 0 {
			w.Faults["caller reused its memory"]++
		}
		if len(r.Err) > 0 && (op.K == "push" || op.K == "values") && !op.Bad {
			w.Faults["failing wrapped metric or empty aggregate"]++
		}
		if op.K == "new" {
			countCfg(w.Kind, op.C)
		}
		for i := range op.Sub {
			if i < len(r.Sub) {
				one(&op.Sub[i], &r.Sub[i])
			}
		}
	}
	for c := range h.Clients {
		for i := range h.Clients[c] {
			one(h.Clients[c][i].Op, &h.Clients[c][i].Res)
		}
	}
}

func sampleStr(sp *Spec, o *rt.Outcome) string {
	s := fmt.Sprintf("seed %d run %d, scenario %q, policy %s, %d steps, %d preemptions inside calls, %d waits, %d stalls (%d with a lock held); objects:", sp.Seed, sp.Run, sp.Scen, sp.Cfg.Policy.Kind,
		o.Stats.Steps, o.Stats.PreemptInOp, o.Stats.Contended, o.Stats.Stalls, o.Stats.StallsInLock)
	for i := range sp.Objs {
		s += " " + objStr(&sp.Objs[i])
	}
	for p := range sp.Phases {
		ph := &sp.Phases[p]
		put := func(name string, l []Op) {
			s += fmt.Sprintf("; phase %d %s:", p+1, name)
			for i := range l {
				if i == 6 {
					s += fmt.Sprintf(" ... (%d calls)", len(l))
					break
				}
				s += " " + opStr(&l[i])
			}
		}
		if len(ph.Seq) > 0 {
			put("sequential", ph.Seq)
		}
		for c := range ph.Cl {
			put(fmt.Sprintf("client %d", c+1), ph.Cl[c])
		}
		if len(s) > 1500 {
			return s[:1500] + " ..."
		}
	}
	return s
}

// worker executes runs w, w+n, w+2n ... below max.
func worker(p *prop, tier string, seed, w, n, max uint64, until time.Time, hashes bool) {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(512 << 20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	put := func(m *Msg) {
		enc.Encode(m)
		out.Flush()
	}
	s := &WStats{Known: map[string]int{}, KnownMsg: map[string]string{}, Policy: map[string]int{}, Scen: map[string]int{}, Kind: map[string]int{}, Faults: map[string]int{}, Ops: map[string]int{}, THash: map[uint64]uint64{}}
	nt, all := map[uint64]bool{}, map[uint64]bool{}
	for i := w; i < max; i += n {
		if time.Now().After(until) {
			break
		}
		fmt.Fprintf(out, "{\"t\":\"run\",\"i\":%d}\n", i)
		out.Flush()
		sp := newSpec(p, tier, seed, i)
		v, h, o := runSpec(p, sp, false)
		s.Runs++
		addStats(&s.St, &o.Stats)
		all[o.THash] = true
		key := o.IHash
		if p.seqOK {
			key = o.THash
		}
		if (p.seqOK || o.Stats.PreemptInOp > 0 || o.Stats.Contended > 0) && !nt[key] {
			nt[key] = true
			if len(s.Samples) < 1 {
				s.Samples = append(s.Samples, sampleStr(sp, &o))
			}
		}
		s.Policy[sp.Cfg.Policy.Kind]++
		s.Scen[sp.Scen]++
		if len(h.Clients) > 1 {
			s.Conc++
		}
		countRun(s, h, sp)
		if hashes || i < 64 {
			s.THash[i] = rt.Mix(o.THash, o.IHash)
		}
		if v != nil && v.Known != "" {
			s.Known[v.Known]++
			if s.KnownMsg[v.Known] == "" {
				s.KnownMsg[v.Known] = fmt.Sprintf("run %d: %s", i, v.Msg)
			}
			continue
		}
		if v != nil {
			put(&Msg{T: "viol", I: i, V: v})
			break
		}
	}
	for k := range nt {
		s.Hash = append(s.Hash, k)
	}
	for k := range all {
		s.All = append(s.All, k)
	}
	s.Lin = ls
	s.Slack = slackMax
	put(&Msg{T: "stat", S: s})
	out.Flush()
}
