package main

import (
	"fmt"
	"runtime/debug"
	"strconv"
	"sync"

	"verif.local/rt"
)

// Hist is the recorded history of a run.
type Hist struct {
	Clients [][]Ev // 0: the sequential parts; 1..: concurrent clients
	Objs    []*Obj
	Build   string // error from building an object
}

var _ sync.Locker = (*rt.Mutex)(nil)

// execute runs a spec in the simulator.
func execute(sp *Spec, record bool) (*Hist, rt.Outcome) {
	ncl := 0
	for _, ph := range sp.Phases {
		if len(ph.Cl) > ncl {
			ncl = len(ph.Cl)
		}
	}
	h := &Hist{Clients: make([][]Ev, ncl+1)}
	var id uint64
	number := func(ops []Op) {
		for i := range ops {
			id++
			ops[i].id = id
			for j := range ops[i].Sub {
				id++
				ops[i].Sub[j].id = id
			}
		}
	}
	// histories live in per client arrays allocated up front: clients share no
	// harness memory while they run
	for c := range h.Clients {
		n := 0
		for p := range sp.Phases {
			if c == 0 {
				number(sp.Phases[p].Seq)
				n += len(sp.Phases[p].Seq)
			} else if c <= len(sp.Phases[p].Cl) {
				number(sp.Phases[p].Cl[c-1])
				n += len(sp.Phases[p].Cl[c-1])
			}
		}
		h.Clients[c] = make([]Ev, 0, n)
	}
	cfg := sp.Cfg
	cfg.Record = record
	for i := range inSec {
		inSec[i] = 0
	}
	o := rt.Run(cfg, func() {
		for i := range sp.Objs {
			ob, err := build(&sp.Objs[i])
			if err != nil {
				h.Build = err.Error()
				return
			}
			h.Objs = append(h.Objs, ob)
		}
		for p := range sp.Phases {
			ph := &sp.Phases[p]
			for i := range ph.Seq {
				rt.OpPoint()
				doOp(h, 0, &ph.Seq[i])
			}
			if len(ph.Cl) == 0 {
				continue
			}
			toks := make([]rt.Token, len(ph.Cl))
			for c := range ph.Cl {
				c := c
				toks[c] = rt.GoTask(func() {
					for i := range ph.Cl[c] {
						rt.OpPoint()
						doOp(h, c+1, &ph.Cl[c][i])
					}
				})
			}
			for _, k := range toks {
				rt.Join(k)
			}
		}
	})
	return h, o
}

// doOp runs one call and records it.
func doOp(h *Hist, c int, op *Op) {
	h.Clients[c] = append(h.Clients[c], Ev{Client: c, Op: op})
	e := &h.Clients[c][len(h.Clients[c])-1]
	e.Call = rt.Now()
	if op.K == "sleep" {
		rt.SleepSteps(op.D)
	} else {
		rt.BeginOp()
		call(h, op, &e.Res)
		e.Res.Steps = rt.EndOp()
	}
	e.Ret = rt.Now()
	e.Done = true
	rt.Note(hashRes(&e.Res))
}

func call(h *Hist, op *Op, r *Res) {
	defer func() {
		if x := recover(); x != nil {
			r.Panic = fmt.Sprint(x)
			r.Stack = string(debug.Stack())
		}
	}()
	switch op.K {
	case "new":
		ob, err := build(op.C)
		if err != nil {
			setErr(r, err)
			return
		}
		r.Sub = make([]Res, len(op.Sub))
		for i := range op.Sub {
			rt.Y()
			ob.do(&op.Sub[i], &r.Sub[i])
			if n := r.Sub[i].Note; n != "" {
				r.Note = n
			}
		}
	case "trials":
		trials(op, r)
	case "growth":
		growth(op, r)
	case "space":
		space(op, r)
	case "bad":
		setErr(r, badCalls[op.I[0]%len(badCalls)].f())
	case "good":
		setErr(r, goodCalls[op.I[0]%len(goodCalls)].f())
	default:
		h.Objs[op.O].do(op, r)
	}
}

func hashRes(r *Res) uint64 {
	x := uint64(len(r.Err))
	for i := 0; i < len(r.Err); i++ {
		x = x*31 + uint64(r.Err[i])
	}
	x = rt.Mix(x, fbits(r.V))
	if r.Str != "" {
		x = rt.Mix(x, strHash(r.Str))
	}
	x = rt.Mix(x, uint64(r.N))
	for _, l := range r.L {
		x = rt.Mix(x, uint64(l))
	}
	for i := range r.Sub {
		x = rt.Mix(x, hashRes(&r.Sub[i]))
	}
	var m uint64
	for k, v := range r.Vs {
		m += rt.Mix(fbits(v), uint64(len(k)))
	}
	return rt.Mix(x, m)
}

// basic reports what every property relies on: calls come back, without panics.
func basic(h *Hist, o *rt.Outcome) *Viol {
	switch o.Kind {
	case "ok":
	case "deadlock":
		return &Viol{Class: "deadlock", Msg: "every remaining caller waits forever: " + o.Msg}
	case "panic":
		return &Viol{Class: "panic", Msg: o.Msg + "\n" + o.Stack}
	default:
		return &Viol{Class: o.Kind, Msg: o.Msg}
	}
	if h.Build != "" {
		return &Viol{Class: "construct", Msg: "constructing an object with a valid configuration failed: " + h.Build}
	}
	for c := range h.Clients {
		for i := range h.Clients[c] {
			e := &h.Clients[c][i]
			if e.Res.Panic != "" {
				return &Viol{Class: "panic", Msg: fmt.Sprintf("client %d: %s panicked: %s\n%s", c, opStr(e.Op), e.Res.Panic, e.Res.Stack)}
			}
			if e.Op.Bad && e.Res.Err == "" {
				return &Viol{Class: "accepted", Msg: fmt.Sprintf("client %d: %s cannot be served but returned %s instead of an error", c, opStr(e.Op), resStr(&e.Res))}
			}
			for j := range e.Op.Sub {
				if s := &e.Op.Sub[j]; s.Bad && j < len(e.Res.Sub) && e.Res.Sub[j].Err == "" {
					return &Viol{Class: "accepted", Msg: fmt.Sprintf("client %d: %s cannot be served but returned %s instead of an error", c, opStr(s), resStr(&e.Res.Sub[j]))}
				}
			}
			if e.Res.Note != "" {
				return &Viol{Class: "memory", Msg: fmt.Sprintf("client %d: %s: %s", c, opStr(e.Op), e.Res.Note)}
			}
		}
	}
	return nil
}

func opStr(op *Op) string {
	s := fmt.Sprintf("%s(", op.K)
	if op.K == "bad" {
		return "[" + badCalls[op.I[0]%len(badCalls)].name + "]"
	}
	if op.K == "good" {
		return "[" + goodCalls[op.I[0]%len(goodCalls)].name + "]"
	}
	if op.K == "new" {
		s += op.C.Kind + ": "
	}
	if op.M > 0 {
		s += fmt.Sprintf("member %d: ", op.M)
	}
	for i, x := range op.X {
		if i > 0 {
			s += ","
		}
		if i > 8 {
			s += "..."
			break
		}
		s += fmt.Sprint(float64(x))
	}
	if len(op.I) > 0 {
		s += fmt.Sprint(op.I)
	}
	if op.Q != 0 {
		s += fmt.Sprintf("q=%v", float64(op.Q))
	}
	for i := range op.Sub {
		s += " " + opStr(&op.Sub[i])
	}
	return fmt.Sprintf("obj%d.%s)", op.O, s)
}

func resStr(r *Res) string {
	if r.Panic != "" {
		return "panic " + r.Panic
	}
	if len(r.Sub) > 0 {
		s := "["
		for i := range r.Sub {
			s += resStr(&r.Sub[i]) + " "
		}
		return s + "]"
	}
	if r.Err != "" {
		return "error(" + r.Err + ")"
	}
	if r.Vs != nil {
		return fmt.Sprint(r.Vs)
	}
	if r.Str != "" {
		return strconv.Quote(r.Str)
	}
	if r.L != nil {
		return fmt.Sprint(r.L)
	}
	return fmt.Sprintf("%v/%d/%v", r.V, r.N, r.Nil)
}
