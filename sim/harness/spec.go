package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"

	"verif.local/rt"
)

// F is a float64 that survives JSON (infinities included).
type F float64

func (f F) MarshalJSON() ([]byte, error) {
	x := float64(f)
	if math.IsInf(x, 0) || math.IsNaN(x) {
		return json.Marshal(strconv.FormatFloat(x, 'g', -1, 64))
	}
	return []byte(strconv.FormatFloat(x, 'g', -1, 64)), nil
}

func (f *F) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		var s string
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
		x, err := strconv.ParseFloat(s, 64)
		*f = F(x)
		return err
	}
	x, err := strconv.ParseFloat(string(b), 64)
	*f = F(x)
	return err
}

// Op is one call (or one critical section with several calls inside).
type Op struct {
	K   string  `json:"k"`
	O   int     `json:"o,omitempty"`
	X   []F     `json:"x,omitempty"`
	I   []int   `json:"i,omitempty"`
	Q   F       `json:"q,omitempty"`
	D   uint64  `json:"d,omitempty"`
	M   int     `json:"m,omitempty"`   // member of a shared core (1-based; 0: the core itself)
	S   int     `json:"s,omitempty"`   // how the caller reuses memory it passed or received
	Bad bool    `json:"bad,omitempty"` // cannot be served: must be rejected
	C   *ObjCfg `json:"c,omitempty"`   // new: what to construct
	Sub []Op    `json:"sub,omitempty"`

	id uint64
}

// Res is what a call returned.
type Res struct {
	Err    string
	V      float64
	N      int
	Nil    bool
	Str    string
	Vs     map[string]float64
	L      []int
	Sub    []Res
	Panic  string
	Stack  string
	Steps  uint64
	Note   string // a fault the executor itself noticed (argument changed, ...)
	T1, T2 uint64 // section: after acquiring, before releasing
}

// Ev is one executed call.
type Ev struct {
	Client    int
	Op        *Op
	Res       Res
	Call, Ret uint64
	Done      bool
}

// Phase is a sequential part followed by a concurrent part.
type Phase struct {
	Seq []Op   `json:"seq,omitempty"`
	Cl  [][]Op `json:"cl,omitempty"`
}

// ObjCfg describes an object under test.
type ObjCfg struct {
	Kind    string   `json:"kind"`
	K       int      `json:"kk,omitempty"`
	W       int      `json:"w,omitempty"`
	Decay   F        `json:"decay,omitempty"`
	Lag     int      `json:"lag,omitempty"`
	Impl    int      `json:"impl,omitempty"`
	Interp  int      `json:"interp,omitempty"`
	Sums    []int    `json:"sums,omitempty"`
	Tuples  [][]int  `json:"tuples,omitempty"`
	Vars    int      `json:"vars,omitempty"`
	Level   int      `json:"level,omitempty"` // skip list options (0: not given)
	Prob    F        `json:"prob,omitempty"`
	RandS   uint64   `json:"rands,omitempty"`
	RandM   int      `json:"randm,omitempty"`
	HasRand bool     `json:"hasrand,omitempty"`
	Global  bool     `json:"global,omitempty"` // use the NewGlobal... constructor
	Size    int      `json:"size,omitempty"`
	Members []ObjCfg `json:"members,omitempty"`
	Order   []int    `json:"order,omitempty"` // order in which member configs are merged
	Nest    int      `json:"nest,omitempty"`  // how the merges are nested
	FailM   int      `json:"failm,omitempty"` // mock: pushes of x with int(x)%FailM==FailR fail
	FailR   int      `json:"failr,omitempty"`
	VFailM  int      `json:"vfailm,omitempty"` // mock: reads fail while received%VFailM==VFailR
	VFailR  int      `json:"vfailr,omitempty"`
	Slow    uint64   `json:"slow,omitempty"`
	Scrib   int      `json:"scrib,omitempty"`  // how the caller reuses what it passed to constructors
	NoInit  bool     `json:"noinit,omitempty"` // never call Init
	Name    string   `json:"name,omitempty"`   // mocks
	Pre     int      `json:"pre,omitempty"`    // member: values pushed into a core of its own before the shared one is set (less one)
}

// Spec is a complete simulated execution: workload, schedule, randomness.
type Spec struct {
	Prop   string         `json:"property"`
	Scen   string         `json:"scenario"`
	Seed   uint64         `json:"seed"`
	Run    uint64         `json:"run"`
	Objs   []ObjCfg       `json:"objects"`
	Phases []Phase        `json:"phases"`
	Cfg    rt.Config      `json:"sim"`
	P      map[string]int `json:"p,omitempty"`
}

// Viol is a detected violation.
type Viol struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Known string `json:"known,omitempty"` // signature to look up in the known findings file
}

func (v *Viol) String() string { return v.Class + ": " + v.Msg }

func cloneSpec(s *Spec) *Spec {
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	var t Spec
	if err := json.Unmarshal(b, &t); err != nil {
		panic(err)
	}
	return &t
}

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

func floats(x []F) []float64 {
	y := make([]float64, len(x))
	for i := range x {
		y[i] = float64(x[i])
	}
	return y
}
