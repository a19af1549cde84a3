//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/dragmz/teal/verifsim/simrt"
)

type Rand = simrt.Rand

func pick[T any](r *Rand, xs []T) T { return xs[r.Intn(len(xs))] }

func hash64(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0})
	}
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

// Op is one step of a plan. What its fields mean depends on the property.
type Op struct {
	K string `json:"k"`
	J string `json:"j,omitempty"` // message body
	B []byte `json:"b,omitempty"` // raw bytes
	H string `json:"h,omitempty"` // header style
	A []int  `json:"a,omitempty"`
	S string `json:"s,omitempty"`
	P int    `json:"p,omitempty"` // body padded with white space to this size
}

// Fault is one injected fault.
type Fault struct {
	K  string `json:"k"`
	At int    `json:"at"`
	N  int    `json:"n,omitempty"`
	E  int    `json:"e,omitempty"` // which error
}

// Plan is one simulated run, written out: executing a plan is a deterministic
// function of the plan and the code under test.
type Plan struct {
	Prop     string         `json:"prop"`
	Seed     uint64         `json:"seed"`
	InitSeed uint64         `json:"init_seed"`
	Mode     string         `json:"mode,omitempty"`
	Ops      []Op           `json:"ops"`
	Cuts     []int          `json:"cuts,omitempty"`
	Faults   []Fault        `json:"faults,omitempty"`
	Cfg      map[string]int `json:"cfg,omitempty"`
	Text     []string       `json:"text,omitempty"`
}

func (p *Plan) cfg(k string) int { return p.Cfg[k] }
func (p *Plan) set(k string, v int) {
	if p.Cfg == nil {
		p.Cfg = map[string]int{}
	}
	p.Cfg[k] = v
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// X records one run.
type X struct {
	V       *Violation
	Faults  map[string]int
	Probes  map[string]int
	Steps   int64
	ClockUs int64
	Worlds  int
	Switch  int64
	Hash    uint64
	States  map[uint64]bool
	Trivial bool

	seed uint64 // of the plan: schedules of tasks the code under test starts
}

func newX() *X {
	return &X{Faults: map[string]int{}, Probes: map[string]int{}, States: map[uint64]bool{}, Hash: 14695981039346656037}
}

type stopRun struct{}

// fail records a violation and abandons the run. Only for harness code outside
// a simulated world; inside use note and simrt.Stop.
func (x *X) fail(class, f string, a ...any) {
	x.note(class, f, a...)
	panic(stopRun{})
}

func (x *X) note(class, f string, a ...any) {
	if x.V == nil {
		d := fmt.Sprintf(f, a...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		x.V = &Violation{Class: class, Detail: d}
	}
}

func (x *X) check() {
	if x.V != nil {
		panic(stopRun{})
	}
}

func (x *X) fault(k string) { x.Faults[k]++ }
func (x *X) probe(k string) { x.Probes[k]++ }
func (x *X) mix(v any) {
	h := hash64(x.Hash, v)
	x.Hash = h
}

// state counts a distinct observed state.
func (x *X) state(parts ...any) { x.States[hash64(parts...)] = true }

// Prop is one property's check.
type Prop struct {
	ID        string
	Level     string
	Rule      string // how cases are made and what makes one non-trivial
	StateRule string // what a distinct state is
	Quick     int    // runs
	Thorough  int
	Chunk     int // runs per worker process
	Real      string
	Stub      string
	Gen       func(r *Rand) *Plan
	Run       func(p *Plan, x *X)
	Shrink    func(p *Plan) []*Plan
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func genPlan(pr *Prop, base uint64, idx int) *Plan {
	seed := hash64("run", base, pr.ID, idx)
	p := pr.Gen(simrt.NewRand(seed))
	p.Prop = pr.ID
	p.Seed = seed
	return p
}

// execute runs one plan.
func execute(pr *Prop, p *Plan) (x *X) {
	x = newX()
	x.seed = p.Seed
	simrt.SetMapSeed(hash64("maps", p.Seed))
	simrt.SetRandSeed(hash64("rand", p.Seed))
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); !ok {
				panic(r)
			}
		}
	}()
	pr.Run(p, x)
	return x
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func diffAt(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	lo := n - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := n + 100
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("first difference at byte %d (lengths %d, %d):\n  %q\n  %q", n, len(a), len(b), cut(a), cut(b))
}

func jstr(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func splitLines(s string) []string {
	// LSP line ends: \n, \r\n, \r
	var res []string
	start := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\n':
			res = append(res, s[start:i])
			start = i + 1
		case '\r':
			res = append(res, s[start:i])
			if i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			start = i + 1
		}
	}
	return append(res, s[start:])
}

func u16len(s string) int {
	n := 0
	for _, r := range s {
		if r >= 0x10000 {
			n++
		}
		n++
	}
	return n
}

func contains(s, sub string) bool { return strings.Contains(s, sub) }
