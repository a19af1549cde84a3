//go:build go1.22

package main

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

const realDbg = "dbg/ adapter with the analyser and the symbolic VM (instrumented copies of the repository's code)"
const stubDbg = "debug client, transport, clock, map order: simulated; program files: real files in a scratch directory, reads can fail"

// mstate is one execution path in the reference model.
type mstate struct {
	line    int
	done    bool
	stack   []string
	scratch map[int]string
	frames  []mframe
	budget  int
	trace   []string
	name    string
	types   bool // compare types only
}

type mframe struct {
	ret   int
	p     int
	proto bool
	a, r  int
	name  string
}

func (m *mstate) clone() *mstate {
	c := *m
	c.stack = append([]string{}, m.stack...)
	c.frames = append([]mframe{}, m.frames...)
	c.trace = append([]string{}, m.trace...)
	c.scratch = map[int]string{}
	for k, v := range m.scratch {
		c.scratch[k] = v
	}
	return &c
}

// obs is what the debug adapter shows of a thread.
type obs struct {
	id    int
	f     map[string]string // field -> canonical form
	done  bool
	line  int
	trace []string
}

var allFields = []string{"line", "stack", "scratch", "frames", "budget", "trace"}

func (o *obs) key(fields []string) string {
	var b strings.Builder
	for _, f := range fields {
		b.WriteString(f)
		b.WriteByte('=')
		b.WriteString(o.f[f])
		b.WriteByte('\n')
	}
	return b.String()
}

func canonScratch(m map[int]string) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%d:%s;", k, m[k])
	}
	return b.String()
}

func canonTrace(t []string) string {
	if len(t) > 40 {
		return fmt.Sprintf("%d %x %s", len(t), hash64(strings.Join(t, "\n")), strings.Join(t[len(t)-5:], "|"))
	}
	return strings.Join(t, "|")
}

func (m *mstate) obs() *obs {
	o := &obs{done: m.done, line: m.line, trace: m.trace, f: map[string]string{}}
	o.f["line"] = fmt.Sprint(m.line)
	fr := []string{m.name}
	for i := len(m.frames) - 1; i >= 0; i-- {
		fr = append(fr, fmt.Sprintf("%d %s", m.frames[i].ret, m.frames[i].name))
	}
	o.f["frames"] = strings.Join(fr, " <- ")
	if m.done {
		// calls that never return stay listed
		o.f["line"], o.f["frames"] = "finished", strings.Join(fr[1:], " <- ")
	}
	o.fill(m.stack, m.scratch, m.trace, m.types)
	o.f["budget"] = fmt.Sprint(m.budget)
	return o
}

// fill sets the canonical forms.
func (o *obs) fill(stack []string, scratch map[int]string, trace []string, types bool) {
	if types {
		stack, trace = canonList(stack), firstWords(trace)
		sc := map[int]string{}
		for k, v := range scratch {
			sc[k] = canonValue(v)
		}
		scratch = sc
	}
	o.trace = trace
	o.f["stack"] = strings.Join(stack, ", ")
	o.f["scratch"] = canonScratch(scratch)
	o.f["trace"] = canonTrace(trace)
}

// machine is the reference model of one program.
type machine struct {
	p    *Prog
	syms map[string]int
	ok   bool
	// compare types, not the exact text of values
	types bool
	// the last step is sure to fail: operands are missing or of the wrong type
	failed bool
}

func newMachine(text string) *machine {
	p, ok := parseProg(text)
	k := &machine{p: p, syms: map[string]int{}, ok: ok}
	for i, l := range p.lines {
		if l.Op == "label" {
			if _, dup := k.syms[l.Arg]; dup {
				k.ok = false
			}
			k.syms[l.Arg] = i
		}
		if l.Op == "pragma" && (i != 0 || p.ver < 8 || p.ver > 11) {
			k.ok = false
		}
	}
	if p.ver == 0 {
		p.ver = 1
		for _, l := range p.lines {
			switch l.Op {
			case "callsub", "retsub", "switch", "match", "proto", "frame_dig", "frame_bury", "bz", "b", "swap", "sha3_256", "base64_decode", "divmodw":
			}
		}
	}
	for _, l := range p.lines {
		ts := l.Args
		if l.Op == "b" || l.Op == "callsub" {
			ts = []string{l.Arg}
		}
		for _, t := range ts {
			if _, ok := k.syms[t]; !ok {
				k.ok = false
			}
		}
	}
	return k
}

func (k *machine) instruction(line int) bool {
	if line < 0 || line >= len(k.p.lines) {
		return false
	}
	switch k.p.lines[line].Op {
	case "", "label", "pragma":
		return false
	}
	return true
}

func (k *machine) advance(m *mstate) *mstate {
	for m.line < len(k.p.lines) && !k.instruction(m.line) {
		if l := k.p.lines[m.line]; l.Op == "label" {
			m.name = l.Arg
		}
		m.line++
	}
	if m.line >= len(k.p.lines) {
		m.done = true
	}
	return m
}

func (k *machine) start() *mstate {
	return k.advance(&mstate{types: k.types, budget: 700, name: "(main)", scratch: map[int]string{}})
}

var opCosts = map[string]int{"sha256": 35, "keccak256": 130, "sha512_256": 45, "sha3_256": 130, "ed25519verify": 1900, "divmodw": 20}
var opCostsV1 = map[string]int{"sha256": 7, "keccak256": 26, "sha512_256": 9}

func (k *machine) cost(in Ins, m *mstate) int {
	if k.p.ver == 1 {
		if c, ok := opCostsV1[in.Op]; ok {
			return c
		}
	}
	if c, ok := opCosts[in.Op]; ok {
		return c
	}
	if _, ok := avmOps[in.Op]; ok {
		return avmCost(in, m)
	}
	return 1
}

// badStep: outside the model, or (fails) sure to fail.
type badStep struct{ fails bool }

// step returns the successors of a live state; ok is false if the instruction
// fails or is outside the model.
func (k *machine) step(m0 *mstate) (res []*mstate, ok bool) {
	k.failed = false
	defer func() {
		if r := recover(); r != nil {
			b, is := r.(badStep)
			if !is {
				panic(r)
			}
			k.failed = b.fails
			res, ok = nil, false
		}
	}()
	m := m0.clone()
	in := k.p.lines[m.line]
	c := k.cost(in, m)
	if c > m.budget {
		m.done = true
		return []*mstate{m}, true
	}
	m.budget -= c
	tr := strings.Join(strings.Fields(in.Text), " ")
	switch in.Op {
	case "byte":
		tr = "byte b64 " + hexB64(in.Imm[0])
	case "base64_decode":
		tr = "base64_decode 1"
	}
	m.trace = append(m.trace, tr)
	pop := func(t string) string {
		if len(m.stack) == 0 {
			panic(badStep{true})
		}
		v := m.stack[len(m.stack)-1]
		if t != "" && !strings.HasPrefix(v, t) && !strings.HasPrefix(v, "any") {
			panic(badStep{true})
		}
		m.stack = m.stack[:len(m.stack)-1]
		return v
	}
	push := func(v string) { m.stack = append(m.stack, v) }
	fall := func(m *mstate) *mstate {
		m.line++
		return k.advance(m)
	}
	jump := func(m *mstate, l string) *mstate {
		m.line = k.syms[l]
		return k.advance(m)
	}
	one := func(m *mstate) ([]*mstate, bool) { return []*mstate{m}, true }
	switch in.Op {
	case "int":
		push(fmt.Sprintf("uint64: %d", in.N))
	case "byte":
		push("bytes: b64 " + hexB64(in.Imm[0]))
	case "pop":
		pop("")
	case "dup":
		v := pop("")
		push(v)
		push(v)
	case "swap":
		a, b := pop(""), pop("")
		push(a)
		push(b)
	case "+":
		pop("uint64")
		pop("uint64")
		push("uint64")
	case "divmodw":
		for i := 0; i < 4; i++ {
			pop("uint64")
		}
		for i := 0; i < 4; i++ {
			push("uint64")
		}
	case "store":
		m.scratch[in.N] = pop("")
	case "load":
		v, ok := m.scratch[in.N]
		if !ok {
			v = "(none)"
		}
		push("any: " + v)
	case "sha256":
		push("bytes: sha256(" + pop("bytes") + ")")
	case "keccak256", "sha512_256", "sha3_256":
		pop("bytes")
		push("bytes")
	case "ed25519verify":
		panic(badStep{})
	case "proto":
		if len(m.frames) == 0 {
			panic(badStep{})
		}
		f := &m.frames[len(m.frames)-1]
		f.proto, f.a, f.r = true, in.N, in.M
	case "frame_dig":
		if len(m.frames) == 0 {
			panic(badStep{})
		}
		i := m.frames[len(m.frames)-1].p + in.N
		if i < 0 || i >= len(m.stack) {
			panic(badStep{})
		}
		push(m.stack[i])
	case "frame_bury":
		if len(m.frames) == 0 {
			panic(badStep{})
		}
		v := pop("")
		i := m.frames[len(m.frames)-1].p + in.N
		if i < 0 || i >= len(m.stack) {
			panic(badStep{})
		}
		m.stack[i] = v
	case "return":
		pop("uint64")
		m.done = true
		return one(m)
	case "err":
		m.done = true
		return one(m)
	case "b":
		return one(jump(m, in.Arg))
	case "bz", "bnz", "switch", "match":
		if in.Op == "match" {
			for range in.Args {
				pop("")
			}
			pop("")
		} else {
			pop("uint64")
		}
		for _, t := range in.Args {
			c := m.clone()
			c.name = t
			res = append(res, jump(c, t))
		}
		return append(res, fall(m)), true
	case "callsub":
		m.frames = append(m.frames, mframe{ret: m.line, p: len(m.stack), name: m.name})
		return one(jump(m, in.Arg))
	case "retsub":
		if len(m.frames) == 0 {
			panic(badStep{})
		}
		f := m.frames[len(m.frames)-1]
		m.frames = m.frames[:len(m.frames)-1]
		if f.proto {
			s, r := f.p-f.a, len(m.stack)-f.r
			if s < 0 || r < f.p {
				panic(badStep{})
			}
			m.stack = append(append([]string{}, m.stack[:s]...), m.stack[r:]...)
		}
		m.line, m.name = f.ret, f.name
		return one(fall(m))
	default:
		if _, ok := avmOps[in.Op]; !ok {
			panic(badStep{})
		}
		avmStep(in, m, pop, push)
	}
	return one(fall(m))
}

// explore counts the states reachable from ms; false if there are too many or
// one of them fails.
func (k *machine) explore(ms []*mstate, max int, bps map[int]bool) (fine, fails bool, ends int) {
	todo := append([]*mstate{}, ms...)
	for len(todo) > 0 {
		m := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if m.done || (bps[m.line] && len(todo) >= len(ms)) {
			ends++
			if ends > 60 {
				return false, fails, ends
			}
			continue
		}
		max--
		if max < 0 {
			return false, fails, ends
		}
		s, ok := k.step(m)
		if !ok {
			fails = true
			continue
		}
		todo = append(todo, s...)
	}
	return true, fails, ends
}

// observe inspects every thread the way a debug client does.
func (d *dbgClient) observe(k *machine) []*obs {
	x := d.x
	var ts struct {
		Threads []struct {
			Id int `json:"id"`
		} `json:"threads"`
	}
	d.one("threads", nil, &ts)
	var out []*obs
	var reqs [][]byte
	for _, t := range ts.Threads {
		out = append(out, &obs{id: t.Id, f: map[string]string{}})
		reqs = append(reqs, d.msg("stackTrace", obj{"threadId": t.Id}))
	}
	ms := d.do(reqs...)
	reqs = nil
	for i, m := range ms {
		var b struct {
			StackFrames []struct {
				Id   int    `json:"id"`
				Name string `json:"name"`
				Line int    `json:"line"`
			} `json:"stackFrames"`
			Total *int `json:"totalFrames"`
		}
		if json.Unmarshal(m.Body, &b) != nil || len(b.StackFrames) == 0 {
			x.fail("frames", "no stack frames: %s", short(m.Raw, 300))
		}
		if d.total && b.Total != nil && *b.Total != len(b.StackFrames) {
			x.fail("frames", "totalFrames is not the number of frames: %s", short(m.Raw, 300))
		}
		o := out[i]
		top := b.StackFrames[0]
		o.line = top.Line - d.lz
		o.f["line"] = fmt.Sprint(o.line)
		fr := []string{top.Name}
		for _, f := range b.StackFrames[1:] {
			fr = append(fr, fmt.Sprintf("%d %s", f.Line-d.lz, f.Name))
		}
		o.f["frames"] = strings.Join(fr, " <- ")
		rest := false
		for l := o.line; l >= 0 && l < len(k.p.lines); l++ {
			rest = rest || k.instruction(l)
		}
		if !rest {
			o.done = true
			o.f["line"], o.f["frames"] = "finished", strings.Join(fr[1:], " <- ")
		}
		reqs = append(reqs, d.msg("scopes", obj{"frameId": top.Id}))
	}
	ms = d.do(reqs...)
	reqs = nil
	for _, m := range ms {
		var b struct {
			Scopes []struct {
				Name string `json:"name"`
				Ref  int    `json:"variablesReference"`
			} `json:"scopes"`
		}
		json.Unmarshal(m.Body, &b)
		refs := map[string]int{}
		for _, s := range b.Scopes {
			refs[s.Name] = s.Ref
		}
		for _, n := range []string{"State", "Stack", "Scratch", "Trace"} {
			r, ok := refs[n]
			if !ok {
				x.fail("frames", "no scope %s: %s", n, short(m.Raw, 300))
			}
			reqs = append(reqs, d.msg("variables", obj{"variablesReference": r}))
		}
	}
	var stack []string
	var scratch map[int]string
	for i, m := range d.do(reqs...) {
		var b struct {
			Variables []struct {
				Name  string `json:"name"`
				Value string `json:"value"`
			} `json:"variables"`
		}
		if json.Unmarshal(m.Body, &b) != nil {
			x.fail("frames", "bad variables: %s", short(m.Raw, 300))
		}
		o := out[i/4]
		vals := map[int]string{}
		for _, v := range b.Variables {
			n, err := strconv.Atoi(v.Name)
			if err == nil {
				if _, dup := vals[n]; dup {
					x.fail("frames", "variable shown twice: %s", short(m.Raw, 300))
				}
				vals[n] = v.Value
			}
			if v.Name == "Budget" {
				o.f["budget"] = v.Value
			}
		}
		seq := func() []string {
			var s []string
			for j := 0; j < len(vals); j++ {
				v, ok := vals[j]
				if !ok {
					x.fail("frames", "variables are not numbered from 0: %s", short(m.Raw, 300))
				}
				s = append(s, v)
			}
			return s
		}
		switch i % 4 {
		case 1:
			stack = seq()
		case 2:
			scratch = vals
		case 3:
			o.fill(stack, scratch, seq(), k.types)
		}
	}
	x.probe("inspections")
	return out
}

// vmFields: what of a thread's state each property is about.
var vmFields = map[string][]string{
	"P15": allFields,
	"P25": allFields,
	"P16": {"line", "trace"},
	"P17": {"line", "trace"},
	"P18": {"budget", "trace"},
	"P19": {"line", "frames", "stack", "trace"},
}

// session of one program in lock-step with the model.
type vmRun struct {
	x    *X
	d    *dbgClient
	k    *machine
	prop string
	now  map[int]*obs
	mod  map[int]*mstate
	ids  []int // in order of appearance
	bps  map[int]bool
	bpID map[int]int
	bad  map[int]bool // threads an instruction failed in
}

func (v *vmRun) snapshot() map[int]*obs {
	os := map[int]*obs{}
	v.ids = nil
	for _, o := range v.d.observe(v.k) {
		if os[o.id] != nil {
			v.x.fail("threads", "two threads with id %d", o.id)
		}
		os[o.id] = o
		v.ids = append(v.ids, o.id)
	}
	return os
}

func desc(os []*obs) string {
	var ls []string
	for i, o := range os {
		if i == 6 {
			ls = append(ls, fmt.Sprintf("... (%d threads)", len(os)))
			break
		}
		ls = append(ls, fmt.Sprintf("[line %s, stack %s, scratch %s, calls %s, budget %s, trace %s]", o.f["line"], o.f["stack"], o.f["scratch"], o.f["frames"], o.f["budget"], o.f["trace"]))
	}
	return strings.Join(ls, "\n  ")
}

// diverged ends the run: a violation if the property is about the difference.
func (v *vmRun) diverged(class, f string, a ...any) {
	v.x.fail(class, f, a...)
}

func (v *vmRun) quiet() {
	v.x.probe("diverged_in_other_property")
	panic(stopRun{})
}

// match pairs observed threads with model states.
func (v *vmRun) match(got []*obs, want []*mstate, what string) {
	byKey := map[string][]*mstate{}
	for _, m := range want {
		k := m.obs().key(allFields)
		byKey[k] = append(byKey[k], m)
	}
	fine := len(got) == len(want)
	for _, o := range got {
		k := o.key(allFields)
		if l := byKey[k]; len(l) > 0 {
			v.mod[o.id] = l[0]
			byKey[k] = l[1:]
		} else {
			fine = false
		}
	}
	if fine {
		return
	}
	fs := vmFields[v.prop]
	count := map[string]int{}
	for _, m := range want {
		count[m.obs().key(fs)]++
	}
	for _, o := range got {
		count[o.key(fs)]--
	}
	for _, n := range count {
		if n != 0 {
			var wo []*obs
			for _, m := range want {
				wo = append(wo, m.obs())
			}
			v.x.fail("state", "%s: expected\n  %s\ngot\n  %s", what, desc(wo), desc(got))
		}
	}
	v.quiet()
}

// full: the property is about all of a thread's state.
func (v *vmRun) full() bool { return v.prop == "P15" || v.prop == "P25" }

// hexB64 turns a literal 0x.. into base64.
func hexB64(s string) string {
	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
	if err != nil {
		panic(badStep{})
	}
	return base64.StdEncoding.EncodeToString(b)
}

func (v *vmRun) live() []int {
	var ids []int
	for _, id := range v.ids {
		if !v.now[id].done && !v.bad[id] {
			ids = append(ids, id)
		}
	}
	return ids
}

// unchanged checks that the threads in before look the same now.
func (v *vmRun) unchanged(before, after map[int]*obs, except int, what string) {
	for id, o := range before {
		if id == except || v.bad[id] {
			continue
		}
		n := after[id]
		if n == nil {
			if v.prop == "P16" || v.full() {
				v.x.fail("others", "%s: thread %d disappeared", what, id)
			}
			v.quiet()
		}
		// an ended path may be shown past the end or as exited
		if o.key(allFields) != n.key(allFields) {
			if v.prop == "P16" || v.full() || (o.key(vmFields[v.prop]) != n.key(vmFields[v.prop])) {
				v.x.fail("others", "%s: thread %d changed from\n  %s\nto\n  %s", what, id, desc([]*obs{o}), desc([]*obs{n}))
			}
			v.quiet()
		}
	}
}

type stoppedBody struct {
	Reason   string `json:"reason"`
	ThreadId *int   `json:"threadId"`
	Hits     []int  `json:"hitBreakpointIds"`
	Desc     string `json:"description"`
}

func (v *vmRun) stopped(ms []*dmsg, what string) stoppedBody {
	var b stoppedBody
	n := 0
	for _, m := range ms {
		if m.Type == "event" && m.Event == "stopped" {
			json.Unmarshal(m.Body, &b)
			n++
		}
	}
	if n != 1 {
		v.x.fail("stopped", "%s: %d stopped events", what, n)
	}
	return b
}

func (v *vmRun) next(sel, variant int) bool {
	live := v.live()
	if len(live) == 0 {
		return false
	}
	t := live[sel%len(live)]
	before := v.now
	m := v.mod[t]
	what := fmt.Sprintf("next on thread %d at line %d (%s)", t, m.line, v.k.p.lines[m.line].Text)
	st := v.stopped(v.d.do(v.d.msg("next", stepArgs(t, variant))), what)
	succ, ok := v.k.step(m)
	if !ok {
		v.x.probe("failing_instructions")
		if v.prop == "P25" && v.k.failed && st.Reason != "exception" {
			v.x.fail("accepted", "%s: operands missing or of the wrong type, but no exception: %s", what, desc([]*obs{m.obs()}))
		}
		if st.Reason != "exception" {
			return false
		}
		// how far the instruction came is not specified; the other threads go on
		v.now = v.snapshot()
		v.unchanged(before, v.now, t, what)
		if v.bad == nil {
			v.bad = map[int]bool{}
		}
		v.bad[t] = true
		return len(v.now) == len(before) && len(v.live()) > 0
	}
	if st.Reason == "exception" {
		v.x.fail("exception", "%s: %s", what, st.Desc)
	}
	v.now = v.snapshot()
	v.unchanged(before, v.now, t, what)
	var got []*obs
	for _, id := range v.ids {
		if before[id] == nil || id == t {
			got = append(got, v.now[id])
		}
	}
	v.match(got, succ, what)
	if !v.now[t].done && (st.ThreadId == nil || *st.ThreadId != t) {
		v.x.fail("stopped", "%s: the stopped event does not name the stepped thread: %s", what, jstr(st))
	}
	v.x.probe("steps_checked")
	v.x.state(v.k.p.lines[m.line].Op, len(succ), len(v.ids), len(m.frames), m.budget/100, sel%len(live) != 0)
	return true
}

func (v *vmRun) cont(sel int) bool {
	live := v.live()
	if len(live) == 0 {
		return false
	}
	if len(v.bad) > 0 {
		return true // it may run into the same error
	}
	var ms []*mstate
	for _, id := range v.ids {
		ms = append(ms, v.mod[id])
	}
	fine, fails, _ := v.k.explore(ms, 6000, v.bps)
	if !fine {
		v.x.probe("continue_skipped_too_many_paths")
		return true
	}
	t := live[sel%len(live)]
	what := fmt.Sprintf("continue with breakpoints at %v", keysOf(v.bps))
	st := v.stopped(v.d.do(v.d.msg("continue", obj{"threadId": t})), what)
	if st.Reason == "exception" {
		if !fails {
			v.x.fail("exception", "%s: %s", what, st.Desc)
		}
		v.x.probe("failing_instructions")
		return false
	}
	if fails {
		// whether the failing path runs first is not specified
		v.x.probe("continue_with_possible_error")
	}
	pre := v.mod
	preIDs := v.ids
	v.now = v.snapshot()
	// the observed threads are a frontier of the execution tree
	left := map[string][]*obs{}
	for _, id := range v.ids {
		o := v.now[id]
		k := o.key(allFields)
		left[k] = append(left[k], o)
	}
	v.mod = map[int]*mstate{}
	arrived := map[string]bool{}
	var arr []*obs
	ran := 0
	type node struct {
		m       *mstate
		initial bool
	}
	var todo []node
	for i := len(preIDs) - 1; i >= 0; i-- {
		todo = append(todo, node{pre[preIDs[i]], true})
	}
	type held struct {
		o *obs
		m *mstate
	}
	atBp := map[string][]held{} // initial states at breakpoints matched so far
	lost := func(m *mstate, why string) {
		// decide whether the property is about it: compare the projections
		if !v.full() && v.prop != "P17" {
			fs := vmFields[v.prop]
			for _, id := range v.ids {
				if v.now[id].key(fs) == m.obs().key(fs) {
					v.quiet()
				}
			}
		}
		var all []*obs
		for _, id := range v.ids {
			all = append(all, v.now[id])
		}
		v.x.fail("paths", "%s: %s:\n  %s\nthreads:\n  %s", what, why, desc([]*obs{m.obs()}), desc(all))
	}
	for len(todo) > 0 {
		n := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		k := n.m.obs().key(allFields)
		if l := left[k]; len(l) > 0 {
			o := l[0]
			left[k] = l[1:]
			v.mod[o.id] = n.m
			if n.initial {
				atBp[k] = append(atBp[k], held{o, n.m})
			}
			if !n.initial && !o.done && v.bps[o.line] {
				arr = append(arr, o)
				arrived[strings.Join(o.trace, "\n")] = true
			}
			continue
		}
		if n.m.done {
			lost(n.m, "a finished path is not shown")
		}
		if h := atBp[k]; len(h) > 0 && !n.initial && v.bps[n.m.line] {
			// a path in the same state was there before: that one ran on
			atBp[k] = h[1:]
			arr = append(arr, h[0].o)
			arrived[strings.Join(h[0].o.trace, "\n")] = true
			n.initial = true
		}
		if !n.initial && v.bps[n.m.line] {
			if v.prop == "P17" {
				lost(n.m, "passed a breakpoint")
			}
			v.quiet()
		}
		s, ok := v.k.step(n.m)
		if !ok {
			// an instruction that fails: what becomes of its path is not specified
			v.x.probe("continue_past_a_failing_instruction")
			panic(stopRun{})
		}
		ran++
		for i := len(s) - 1; i >= 0; i-- {
			todo = append(todo, node{s[i], false})
		}
	}
	for _, l := range left {
		if len(l) > 0 {
			if v.full() || v.prop == "P17" {
				v.x.fail("paths", "%s: a thread that stands for no path:\n  %s", what, desc(l[:1]))
			}
			v.quiet()
		}
	}
	v.x.probe("continues_checked")
	v.x.state("continue", len(v.bps), len(arr), len(v.ids), ran > 0)
	if v.prop != "P17" {
		return true
	}
	if len(arr) == 0 {
		if n := len(v.live()); n > 0 {
			v.x.fail("early", "%s stopped (%s) although no thread arrived at a breakpoint and %d threads can run", what, jstr(st), n)
		}
		if len(st.Hits) > 0 {
			v.x.fail("hits", "%s: hit breakpoints %v although none was reached", what, st.Hits)
		}
		return true
	}
	v.x.probe("breakpoint_stops")
	if len(arrived) > 1 {
		v.x.fail("late", "%s: threads arrived at breakpoints in %d different steps:\n  %s", what, len(arrived), desc(arr))
	}
	if ran == 0 {
		v.x.fail("early", "%s: no instruction executed", what)
	}
	if st.Reason != "breakpoint" || st.ThreadId == nil {
		v.x.fail("hits", "%s: stopped event %s, but a thread is at a breakpoint:\n  %s", what, jstr(st), desc(arr))
	}
	for _, o := range arr {
		// threads in equal states cannot be told apart
		if n := v.now[*st.ThreadId]; n != nil && o.key(allFields) == n.key(allFields) {
			want := []int{v.bpID[o.line]}
			if !reflect.DeepEqual(st.Hits, want) {
				v.x.fail("hits", "%s: thread %d stands at line %d (breakpoint %v), but the hit list is %v", what, o.id, o.line, want, st.Hits)
			}
			return true
		}
	}
	v.x.fail("hits", "%s: the stopped event names thread %d, which did not arrive at a breakpoint:\n  %s", what, *st.ThreadId, desc(arr))
	return true
}

// count runs the program to its end and counts the paths.
func (v *vmRun) count() {
	want := 0
	for todo := []*mstate{v.k.start()}; len(todo) > 0; {
		m := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if m.done {
			want++
			continue
		}
		s, ok := v.k.step(m)
		if !ok || want+len(todo) > 9500 {
			return // outside the model
		}
		todo = append(todo, s...)
	}
	what := "continue to the end"
	st := v.stopped(v.d.do(v.d.msg("continue", obj{"threadId": v.ids[0]})), what)
	if st.Reason == "exception" {
		v.x.fail("exception", "%s: %s", what, st.Desc)
	}
	var ts struct {
		Threads []struct {
			Id int `json:"id"`
		} `json:"threads"`
	}
	v.d.one("threads", nil, &ts)
	ids := map[int]bool{}
	for _, t := range ts.Threads {
		ids[t.Id] = true
	}
	if len(ids) != want || len(ts.Threads) != want {
		v.x.fail("paths", "%s: %d threads (%d ids) for %d paths", what, len(ts.Threads), len(ids), want)
	}
	v.x.probe("many_paths_counted")
	v.x.state("count", want)
}

func keysOf(m map[int]bool) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func (v *vmRun) breakpoints(lines []int) {
	n := len(v.k.p.lines)
	bs := []any{}
	var ls []int
	for _, l := range lines {
		l = l%(n+2) - 1 // from one before the first line to one past the last
		ls = append(ls, l)
		bs = append(bs, obj{"line": l + v.d.lz})
	}
	var b struct {
		Breakpoints []struct {
			Id       *int `json:"id"`
			Verified bool `json:"verified"`
			Line     *int `json:"line"`
		} `json:"breakpoints"`
	}
	v.d.one("setBreakpoints", obj{"source": obj{"name": "p0.teal", "path": "p0.teal"}, "breakpoints": bs}, &b)
	if len(b.Breakpoints) != len(ls) {
		v.x.fail("breakpoints", "%d breakpoints in the response to %d", len(b.Breakpoints), len(ls))
	}
	v.bps, v.bpID = map[int]bool{}, map[int]int{}
	for i, l := range ls {
		g := b.Breakpoints[i]
		want := v.k.instruction(l)
		if g.Verified != want {
			if v.prop == "P17" {
				v.x.fail("verified", "line %d (%s) verified: %v", l, lineText(v.k.p, l), g.Verified)
			}
			v.quiet()
		}
		if g.Line == nil || *g.Line != l+v.d.lz {
			if v.prop == "P17" {
				v.x.fail("verified", "breakpoint for line %d reported at another line: %s", l, jstr(g))
			}
			v.quiet()
		}
		if want {
			if g.Id == nil {
				v.x.fail("verified", "a verified breakpoint without an id: %s", jstr(g))
			}
			v.bps[l] = true
			v.bpID[l] = *g.Id
		}
	}
}

func lineText(p *Prog, l int) string {
	if l < 0 || l >= len(p.lines) {
		return "outside the program"
	}
	return p.lines[l].Text
}

func progText(p *Plan) string {
	eol := "\n"
	if p.cfg("crlf") == 1 {
		eol = "\r\n"
	}
	t := strings.Join(p.Text, eol)
	if p.cfg("nl") == 1 {
		t += eol
	}
	return t
}

func runVM(p *Plan, x *X) {
	resetFiles()
	if p.cfg("strip") == 1 {
		runStrip(p, x)
		return
	}
	text := progText(p)
	k := newMachine(text)
	x.Trivial = true
	if !k.ok {
		return
	}
	k.types = p.cfg("types") == 1
	if err := os.WriteFile("p0.teal", []byte(text), 0o644); err != nil {
		panic(err)
	}
	dialog(x, "dbg", func(call func([]byte) []string) {
		d := &dbgClient{x: x, call: call, lz: 1, total: p.Prop == "P19"}
		v := &vmRun{x: x, d: d, k: k, prop: p.Prop, mod: map[int]*mstate{}, bps: map[int]bool{}, bpID: map[int]int{}}
		a := obj{"adapterID": "teal"}
		switch p.cfg("lz") {
		case 1:
			a["linesStartAt1"] = true
		case 2:
			a["linesStartAt1"] = false
			d.lz = 0
		}
		d.do(d.msg("initialize", a))
		v.stopped(d.do(d.msg("launch", obj{"program": "p0.teal"})), "launch")
		v.now = v.snapshot()
		var os []*obs
		for _, id := range v.ids {
			os = append(os, v.now[id])
		}
		v.match(os, []*mstate{k.start()}, "launch")
		limit := 30
		if p.cfg("wide") > 0 {
			limit = p.cfg("wide")
		}
		for _, o := range p.Ops {
			if o.K == "count" {
				v.count()
				x.Trivial = false
				return
			}
			if len(v.ids) > limit {
				x.probe("many_threads_stop")
				return
			}
			switch o.K {
			case "next":
				variant := 0
				if len(o.A) > 2 {
					variant = o.A[2]
				}
				for i := 0; i < o.A[1]; i++ {
					if len(v.ids) > limit {
						return
					}
					if !v.next(o.A[0], variant) {
						if len(v.live()) > 0 {
							return // failed
						}
						break
					}
					x.Trivial = false
				}
			case "cont":
				if len(v.live()) == 0 {
					continue
				}
				if !v.cont(o.A[0]) {
					return
				}
				x.Trivial = false
			case "bp":
				v.breakpoints(o.A)
			case "noise":
				x.probe("inspection_requests")
				m := obj{}
				json.Unmarshal([]byte(o.J), &m)
				cmd, _ := m["command"].(string)
				first := d.call(d.msg(cmd, m["arguments"]))
				second := d.call(d.msg(cmd, m["arguments"]))
				if v.prop == "P16" && !sameReplies(x, first, second) {
					x.fail("repeat", "%s answered differently when repeated: %v, %v", o.J, first, second)
				}
				after := v.snapshot()
				if len(after) != len(v.now) {
					x.fail("inspection", "%s changed the threads", o.J)
				}
				v.unchanged(v.now, after, -1, o.J)
				v.now = after
				if cmd == "setBreakpoints" {
					v.breakpoints(nil)
				}
			}
		}
	})
}

// sameReplies compares two replies up to their numbers.
func sameReplies(x *X, a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		var m, n map[string]any
		json.Unmarshal([]byte(a[i]), &m)
		json.Unmarshal([]byte(b[i]), &n)
		for _, k := range []string{"seq", "request_seq"} {
			delete(m, k)
			delete(n, k)
		}
		if !reflect.DeepEqual(m, n) {
			return false
		}
	}
	return true
}

func genNoise(r *Rand, lines int) Op {
	t := r.Intn(5)
	var cmd string
	var args any
	switch r.Intn(10) {
	case 0:
		cmd = "threads"
	case 1:
		cmd, args = "stackTrace", obj{"threadId": t}
	case 2:
		cmd, args = "scopes", obj{"frameId": t}
	case 3, 4:
		cmd, args = "variables", obj{"variablesReference": 1 + r.Intn(50), "start": r.Intn(4), "count": r.Intn(300)}
	case 5:
		cmd, args = "pause", obj{"threadId": t}
	case 6:
		cmd, args = "evaluate", obj{"expression": "pop", "frameId": t}
	case 7:
		cmd, args = "setBreakpoints", obj{"source": obj{"path": "p0.teal"}, "breakpoints": []any{obj{"line": r.Intn(lines + 1)}}}
	case 8:
		cmd, args = pick(r, []string{"setFunctionBreakpoints", "setExceptionBreakpoints", "setInstructionBreakpoints"}), obj{"breakpoints": []any{}, "filters": []any{}}
	default:
		cmd = "configurationDone"
	}
	return Op{K: "noise", J: jstr(obj{"command": cmd, "arguments": args})}
}

func genVM(prop string) func(r *Rand) *Plan {
	return func(r *Rand) *Plan {
		p := &Plan{Prop: prop}
		ns := r.Intn(3)
		if prop == "P19" {
			ns = 1 + r.Intn(4)
		}
		if prop == "P15" && r.Bool(1, 60) {
			genWidePaths(r, p)
			return p
		}
		if prop == "P17" && r.Bool(1, 800) {
			genManyLongPaths(r, p)
			return p
		}
		if prop == "P18" && r.Bool(1, 3) {
			p = genP25(r)
			p.Prop = prop
			return p
		}
		if prop == "P16" && r.Bool(1, 4) {
			genStrip(r, p)
			return p
		}
		p.Text = genProgLines(r, ns, prop)
		p.set("lz", r.Intn(3))
		p.set("nl", r.Intn(2))
		p.set("crlf", b2i(r.Bool(1, 6)))
		n := 3 + r.Intn(10)
		follow := r.Bool(1, 3) // mostly one thread
		for i := 0; i < n; i++ {
			sel := r.Intn(1 << 16)
			if follow && r.Bool(3, 4) {
				sel = 0
			}
			w := r.Intn(20)
			switch {
			case w < 2 || (prop == "P16" && w < 7):
				p.Ops = append(p.Ops, genNoise(r, len(p.Text)))
			case (prop == "P17" && w < 9) || w < 3 || (prop == "P16" && w < 9):
				var ls []int
				for j := 0; j < r.Intn(5); j++ {
					ls = append(ls, r.Intn(1<<16))
				}
				p.Ops = append(p.Ops, Op{K: "bp", A: ls})
				if prop == "P16" && r.Bool(2, 3) {
					p.Ops = append(p.Ops, Op{K: "cont", A: []int{sel}}, genNoise(r, len(p.Text)))
					if r.Bool(1, 2) {
						p.Ops = append(p.Ops, Op{K: "noise", J: jstr(obj{"command": "pause", "arguments": obj{"threadId": r.Intn(3)}})})
					}
				}
			case (prop == "P17" && w < 16) || w == 3 || (prop == "P18" && w < 8):
				p.Ops = append(p.Ops, Op{K: "cont", A: []int{sel}})
			default:
				p.Ops = append(p.Ops, Op{K: "next", A: []int{sel, 1 + r.Intn(8), r.Intn(32)}})
			}
		}
		if r.Bool(1, 2) {
			p.Ops = append(p.Ops, Op{K: "cont", A: []int{0}})
		}
		return p
	}
}

// genWidePaths makes a program with many paths.
func genWidePaths(r *Rand, p *Plan) {
	sw := func(n int, ls ...string) string {
		s := pick(r, []string{"switch", "switch"})
		for i := 0; i < n; i++ {
			s += " " + pick(r, ls)
		}
		return s
	}
	p.set("lz", r.Intn(3))
	p.set("nl", r.Intn(2))
	if r.Bool(1, 2) {
		// one wide switch, all threads inspected
		n := 31 + r.Intn(225)
		p.Text = []string{"#pragma version 8", "int 1001", "store 1", "int 1002", sw(n, "l1", "l2", "l3"), "l1:", "int 1003", "l2:", "int 1004", "l3:", "int 1005"}
		p.set("wide", 300)
		p.Ops = []Op{{K: "next", A: []int{0, 4}}, {K: "next", A: []int{r.Intn(1 << 16), 1 + r.Intn(3)}}, {K: "next", A: []int{r.Intn(1 << 16), 1}}}
		return
	}
	// several in a row, only the number of paths counted (below the limit of 10000)
	p.Text = []string{"#pragma version 8"}
	want := 1
	for b := 0; b < 1+r.Intn(3); b++ {
		most := 9000/want - 1
		if most > 200 {
			most = 200
		}
		if most < 1 {
			break
		}
		n := 1 + r.Intn(most)
		l := fmt.Sprintf("l%d", b+1)
		p.Text = append(p.Text, "int 1001", sw(n, l), l+":")
		want *= n + 1
	}
	p.Text = append(p.Text, "int 1002")
	p.Ops = []Op{{K: "count"}}
}

// genManyLongPaths makes a program with thousands of paths that all run on for
// a while, to be run to its end with one continue.
func genManyLongPaths(r *Rand, p *Plan) {
	p.set("lz", r.Intn(3))
	p.Text = []string{"#pragma version 8"}
	n := 1 + r.Intn(94)
	m := 1 + r.Intn(94)
	for i, w := range []int{n, m} {
		l := fmt.Sprintf("l%d", i+1)
		p.Text = append(p.Text, "int 1001", "switch"+strings.Repeat(" "+l, w), l+":")
	}
	for i := 0; i < 2+r.Intn(40); i++ {
		p.Text = append(p.Text, "int 1002", "pop")
	}
	p.Text = append(p.Text, "int 1003")
	p.Ops = []Op{{K: "count"}}
}

// genStrip makes a session that is run twice: with its inspection requests and
// without them.
func genStrip(r *Rand, p *Plan) {
	p.set("strip", 1)
	if r.Bool(1, 4) {
		p.Text = genOps(r)
	} else {
		p.Text = genProgLines(r, r.Intn(3), "P16")
	}
	p.set("nl", r.Intn(2))
	for i := 0; i < 4+r.Intn(16); i++ {
		t := 0
		if r.Bool(2, 3) {
			t = r.Intn(6)
		}
		switch w := r.Intn(16); {
		case w < 6:
			o := genNoise(r, len(p.Text))
			for strings.Contains(o.J, "setBreakpoints") {
				o = genNoise(r, len(p.Text))
			}
			p.Ops = append(p.Ops, o)
		case w < 8:
			p.Ops = append(p.Ops, Op{K: "cont", A: []int{t, r.Intn(32)}})
		case w < 9:
			var ls []int
			for j := 0; j < r.Intn(4); j++ {
				ls = append(ls, r.Intn(len(p.Text)+2))
			}
			p.Ops = append(p.Ops, Op{K: "bp", A: ls})
		default:
			p.Ops = append(p.Ops, Op{K: "next", A: []int{t, 1 + r.Intn(3), r.Intn(32)}})
		}
	}
}

// runStrip performs the session with and without the inspection requests; the
// other requests must be answered alike, and the threads end alike.
func runStrip(p *Plan, x *X) {
	text := progText(p)
	if err := os.WriteFile("p0.teal", []byte(text), 0o644); err != nil {
		panic(err)
	}
	noisy := 0
	run := func(noise bool) (out []string) {
		dialog(x, "dbg", func(call func([]byte) []string) {
			d := &dbgClient{x: x, call: call, lz: 1}
			rec := func(cmd string, args any) {
				for _, f := range call(d.msg(cmd, args)) {
					var m map[string]any
					json.Unmarshal([]byte(f), &m)
					delete(m, "seq")
					delete(m, "request_seq")
					out = append(out, cmd+" "+jstr(m))
				}
			}
			d.do(d.msg("initialize", obj{"adapterID": "teal"}))
			rec("launch", obj{"program": "p0.teal"})
			for _, o := range p.Ops {
				switch o.K {
				case "noise":
					if noise {
						var m obj
						json.Unmarshal([]byte(o.J), &m)
						cmd, _ := m["command"].(string)
						if cmd != "setBreakpoints" {
							d.call(d.msg(cmd, m["arguments"]))
							noisy++
						}
					}
				case "next":
					for i := 0; i < o.A[1]; i++ {
						rec("next", stepArgs(o.A[0], o.A[2]))
					}
				case "cont":
					rec("continue", stepArgs(o.A[0], o.A[1]))
				case "bp":
					bs := []any{}
					for _, l := range o.A {
						bs = append(bs, obj{"line": l})
					}
					rec("setBreakpoints", obj{"source": obj{"path": "p0.teal"}, "breakpoints": bs})
				}
			}
			var ts struct {
				Threads []struct {
					Id int `json:"id"`
				} `json:"threads"`
			}
			rec("threads", nil)
			d.one("threads", nil, &ts)
			for i, t := range ts.Threads {
				if i == 25 {
					break
				}
				rec("stackTrace", obj{"threadId": t.Id})
				rec("scopes", obj{"frameId": t.Id})
				for k := 1; k <= 4; k++ {
					rec("variables", obj{"variablesReference": t.Id*10 + k})
				}
			}
		})
		return out
	}
	a := run(true)
	b := run(false)
	x.Trivial = noisy == 0
	if noisy > 0 {
		x.probe("sessions_with_and_without_inspection")
	}
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			other := "nothing"
			if i < len(b) {
				other = b[i]
			}
			x.fail("course", "with inspection requests in between: %s\nwithout: %s", short(a[i], 500), short(other, 500))
		}
	}
	if len(b) > len(a) {
		x.fail("course", "only without inspection requests in between: %s", short(b[len(a)], 500))
	}
	x.state("strip", noisy, len(p.Ops), len(a))
}

// genProgLines makes a program for the lock-step properties.
func genProgLines(r *Rand, ns int, prop string) []string {
	var ls []string
	if prop == "P18" && r.Bool(1, 4) {
		// plain loops, ended by the budget only
		ls = append(ls, "#pragma version 8")
		for i := 0; i < r.Intn(3); i++ {
			ls = append(ls, pick(r, []string{"int 1001", "byte 0x6162", "// c"}))
		}
		ls = append(ls, "l1:")
		for i := 0; i < r.Intn(4); i++ {
			switch r.Intn(4) {
			case 0:
				ls = append(ls, "byte 0x6162", pick(r, []string{"sha256", "keccak256", "sha512_256", "sha3_256"}), "pop")
			case 1:
				ls = append(ls, "int 1002", "pop")
			case 2:
				ls = append(ls, "int 1003", "store 1")
			case 3:
				ls = append(ls, "callsub l2")
			}
		}
		ls = append(ls, "b l1", "l2:")
		if r.Bool(1, 3) {
			ls = append(ls, "callsub l2")
		}
		return append(ls, "retsub")
	}
	if r.Bool(1, 6) {
		// tiny branching programs: dense in branch instructions
		ls = append(ls, "#pragma version 9")
		labels := []string{"l1", "l2", "l3"}
		var body []string
		for i := 0; i < 2+r.Intn(4); i++ {
			switch r.Intn(4) {
			case 0:
				body = append(body, "int 1001", pick(r, []string{"bz ", "bnz "})+pick(r, labels))
			case 1:
				body = append(body, "int 1002", "switch "+pick(r, labels)+" "+pick(r, labels))
			case 2:
				body = append(body, "int 1003", "int 1004", "match "+pick(r, labels))
			case 3:
				body = append(body, "byte 0x6162", "keccak256", "pop")
			}
		}
		for _, l := range labels {
			i := r.Intn(len(body) + 1)
			body = append(body[:i:i], append([]string{l + ":"}, body[i:]...)...)
		}
		// every cycle must be expensive
		for i := 0; i < len(body); i++ {
			if strings.HasSuffix(body[i], ":") {
				body = append(body[:i+1:i+1], append([]string{"byte 0x6162", "sha3_256", "pop"}, body[i+1:]...)...)
			}
		}
		return append(ls, body...)
	}
	if prop == "P18" && r.Bool(1, 5) {
		ls = append(ls, "#pragma version 8", "int 1001", "bz l1", "byte 0x6162", "byte 0x6162", "byte 0x6162", "ed25519verify", "pop", "l1:", "int 1002", "int 1003", "int 1004", "int 1005", "divmodw", "byte 0x6162", "base64_decode StdEncoding")
		return ls
	}
	return splitLines(strings.TrimRight(genStructured(r, ns).text, "\r\n"))
}

func init() {
	reg := func(id, rule string, quick, thorough int) {
		register(&Prop{
			ID: id, Level: "exploration",
			Rule:      rule,
			StateRule: "hash of (instruction or continue, successors, number of threads, call depth, budget band, first thread or another)",
			Quick:     quick, Thorough: thorough, Chunk: 100,
			Real: realDbg, Stub: stubDbg,
			Gen: genVM(id), Run: runVM,
		})
	}
	reg("P15", "a generated program (branches, switch/match, loops, subroutines with and without proto) debugged through the adapter in lock-step with an executable reference model: after every next (thread chosen by the seed) and continue, all threads are inspected and must be exactly the model's paths; non-trivial: at least one step", 9000*2, 500000)
	reg("P16", "as P15, with many inspection and configuration requests between the steps; every thread other than the stepped one must look the same before and after, and repeated inspections must agree; non-trivial: at least one step", 8000*2, 500000)
	reg("P17", "as P15, with seeded breakpoint sets (including non-instruction lines and lines outside the program) replaced during the session and continue from varying threads; the resulting threads must be a frontier of the model's execution tree that never passes a breakpoint; non-trivial: at least one step or continue", 12000*2, 700000)
	reg("P18", "as P15, over programs with unconditional loops, recursion and expensive instructions, run until the budget ends them; non-trivial: at least one step or continue", 9000*2, 500000)
	reg("P19", "as P15, over programs with nested calls, branches inside and outside subroutines, proto, frame_dig and frame_bury; non-trivial: at least one step", 9000*2, 500000)
}
