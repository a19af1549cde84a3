//go:build go1.22

package main

import (
	"encoding/json"
	"math"
	"strings"
)

// dapIn is a message to the debug adapter as the checks see it.
type dapIn struct {
	obj     bool // a JSON object
	typ     any
	request bool // a well-formed request
	seq     int
	command string
	args    any
}

func parseDapIn(j string) dapIn {
	var in dapIn
	var m map[string]any
	if json.Unmarshal([]byte(j), &m) != nil || m == nil {
		return in
	}
	in.obj = true
	in.typ = m["type"]
	f, ok := m["seq"].(float64)
	c, ok2 := m["command"].(string)
	in.args = m["arguments"]
	if ok && ok2 && f == math.Trunc(f) && math.Abs(f) < 1e15 && in.typ == "request" {
		in.request, in.seq, in.command = true, int(f), c
	}
	return in
}

var dapCommands = map[string]bool{}

func init() {
	for _, c := range []string{"initialize", "launch", "disconnect", "evaluate", "setFunctionBreakpoints", "setBreakpoints", "setInstructionBreakpoints", "setExceptionBreakpoints", "threads", "pause", "continue", "configurationDone", "next", "variables", "scopes", "stackTrace"} {
		dapCommands[c] = true
	}
}

// perOp attributes the output to the messages that caused it.
func perOp(x *X, r *Res) map[int][]*dmsg {
	res := map[int][]*dmsg{}
	ms := r.Conn.marks
	for i, m := range ms {
		end := len(r.Out)
		if i+1 < len(ms) {
			end = ms[i+1].at
		}
		bs, rest, err := parseFrames(r.Out[m.at:end])
		if err != nil || rest != "" {
			x.fail("framing", "output after a message is not a sequence of frames: %s", short(r.Out[m.at:end], 300))
		}
		for _, b := range bs {
			res[m.op] = append(res[m.op], parseDap(x, b))
		}
	}
	return res
}

func p13Run(p *Plan, x *X) {
	r := session(x, "dbg", p.Ops).alive(x, "debug session")
	outs := perOp(x, r)
	n := 0
	readable := map[string]bool{}
	launched := false
	sent := map[int]bool{}
	for _, m := range r.Conn.marks {
		sent[m.op] = true
	}
	x.Trivial = true
	for i, o := range p.Ops {
		switch o.K {
		case "file":
			readable[o.S] = true
			continue
		case "rm", "dir":
			readable[o.S] = false
			continue
		}
		if !sent[i] {
			continue
		}
		ms := outs[i]
		for _, m := range ms {
			n++
			if m.Seq != n {
				x.fail("seq", "message %d of the adapter carries seq %d: %s", n, m.Seq, short(m.Raw, 300))
			}
		}
		what := short(o.J, 400)
		in := parseDapIn(o.J)
		if o.B != nil {
			in = dapIn{}
		}
		if !in.request {
			max := 0
			if in.obj && in.typ == "request" {
				max = 1
			}
			if len(ms) > max {
				x.fail("unasked", "%q caused %d messages: %s", what, len(ms), short(ms[0].Raw, 300))
			}
			continue
		}
		x.Trivial = false
		x.probe("requests")
		if len(ms) == 0 {
			x.fail("missing", "no response to %s", what)
		}
		for k, m := range ms {
			if k == 0 && m.Type != "response" {
				x.fail("order", "%s: the first message is not the response: %s", what, short(m.Raw, 300))
			}
			if k > 0 && m.Type == "response" {
				x.fail("twice", "%s: a second response: %s", what, short(m.Raw, 300))
			}
			if k > 0 && m.Type != "event" {
				x.fail("type", "%s: neither response nor event: %s", what, short(m.Raw, 300))
			}
		}
		rsp := ms[0]
		if rsp.RequestSeq != in.seq {
			x.fail("echo", "%s: the response carries request_seq %d", what, rsp.RequestSeq)
		}
		if rsp.Command != in.command {
			x.fail("echo", "%s: the response carries command %q", what, rsp.Command)
		}
		// can it be served?
		want := "" // unspecified
		switch {
		case !dapCommands[in.command]:
			want = "refused"
		case in.command == "launch":
			if a, ok := in.args.(map[string]any); ok {
				if f, ok := a["program"].(string); ok {
					want = "refused"
					if readable[f] && o.S != f {
						want = "served"
					}
				}
			}
		case o.K == "req":
			want = "served"
		}
		if want == "refused" && (rsp.Success || rsp.Message == "") {
			x.fail("accepted", "%s should have been refused with a message: %s", what, short(rsp.Raw, 300))
		}
		if want == "served" && !rsp.Success {
			x.fail("refused", "%s was refused: %s", what, short(rsp.Raw, 300))
		}
		var exp []string
		if rsp.Success {
			switch in.command {
			case "initialize":
				exp = []string{"initialized"}
			case "launch":
				launched = true
				exp = []string{"process", "stopped"}
			case "next", "pause", "continue":
				if launched {
					exp = []string{"stopped"}
				}
			}
		}
		var got []string
		for _, m := range ms[1:] {
			got = append(got, m.Event)
		}
		if strings.Join(got, ",") != strings.Join(exp, ",") {
			x.fail("events", "%s: expected events %v, got %v (launched: %v)", what, exp, got, launched)
		}
		if in.command == "launch" && rsp.Success {
			var b stoppedBody
			json.Unmarshal(ms[2].Body, &b)
			if b.Reason != "entry" {
				x.fail("events", "%s: stopped event after launch: %s", what, short(ms[2].Raw, 300))
			}
		}
		x.state(in.command, rsp.Success, launched, o.K, len(got))
	}
	if n == 0 && !x.Trivial {
		x.fail("missing", "no output")
	}
}

// fileNoise changes program files at a seeded point of a session.
func (g *dapGen) fileNoise() {
	r := g.r
	f := pick(r, progFiles[:2])
	switch r.Intn(5) {
	case 0:
		g.ops = append(g.ops, Op{K: "rm", S: f})
	case 1:
		g.ops = append(g.ops, Op{K: "dir", S: f})
	default:
		g.file(f, genProg(r))
	}
}

// garbage makes a file that need not be TEAL.
func (g *dapGen) garbage(name string) {
	r := g.r
	switch r.Intn(6) {
	case 0:
		b := make([]byte, r.Intn(300))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		g.ops = append(g.ops, Op{K: "file", S: name, B: b})
	case 1:
		g.file(name, pick(r, []string{"", "\n", "\r", "#pragma version 8", "l1:", "b l1", "retsub", "callsub x\nx:\nretsub\n", "int", "switch", "match", "proto 5 5", "l:\nb l", "frame_dig 0", "load 255", "store 255", "int 300\nint 1\nstores", "int 300\nloads", "\ufeffint 1", "int 1\x00", "return", "pushint 1\nreturn", "txn Sender\nbase64_decode StdEncoding\ncover 5", "dig 5", "uncover 3", "popn 5", "dupn 300", "bury 1", "select", "substring3", "int 18446744073709551616", "byte \"", "arg 5", "gtxn 0 Nope", "itxn_submit", "callsub l\nl:\ncallsub l", "int 1\nbz nowhere\nint 2", "switch a b\na:\nint 1"}))
	case 2:
		g.file(name, genText(r, r.Intn(30)))
	case 3:
		// shuffled instructions of a sound program: stack errors, missing labels
		ls := strings.Split(genStructured(r, r.Intn(3)).text, "\n")
		for k := 0; k < 1+r.Intn(8); k++ {
			i, j := r.Intn(len(ls)), r.Intn(len(ls))
			ls[i], ls[j] = ls[j], ls[i]
		}
		if r.Bool(1, 2) {
			i := r.Intn(len(ls))
			ls = append(ls[:i:i], ls[i+1:]...)
		}
		g.file(name, strings.Join(ls, "\n"))
	case 4:
		if r.Bool(1, 20) {
			// doubling loops
			g.file(name, "#pragma version 8\nl:\nint 1\nbnz l\nint 1\nbz l\nb l\n")
		} else {
			g.file(name, "#pragma version 8\nl:\nbyte 0x6162\nkeccak256\npop\nint 1\nbnz l\nint 1\nbz l\n")
		}
	default:
		g.file(name, genProg(r))
	}
}

// afterBad returns the output without the answers to bad messages and without
// the adapter's own numbering.
func afterBad(x *X, r *Res) []string {
	var out []string
	for _, b := range r.frames(x, "") {
		var m map[string]any
		if json.Unmarshal([]byte(b), &m) != nil {
			x.fail("framing", "not an object: %s", short(b, 300))
		}
		if s, ok := m["request_seq"].(float64); ok && s >= 1e6 {
			continue
		}
		delete(m, "seq")
		out = append(out, jstr(m))
	}
	return out
}

// sameOut compares two outputs message by message.
func sameOut(x *X, class string, ref, got []string, what string) {
	for i := 0; i < len(ref) || i < len(got); i++ {
		switch {
		case i >= len(ref):
			x.fail(class, "%s: additional output: %s", what, short(got[i], 400))
		case i >= len(got):
			x.fail(class, "%s: missing output: %s", what, short(ref[i], 400))
		case ref[i] != got[i]:
			x.fail(class, "%s: %s", what, diffAt(ref[i], got[i]))
		}
	}
}

func p14Gen(r *Rand) *Plan {
	g := newDapGen(r)
	for i := 0; i < 2; i++ {
		if r.Bool(5, 6) {
			if r.Bool(1, 2) {
				g.garbage(progFiles[i])
			} else {
				g.file(progFiles[i], genProg(r))
			}
		}
	}
	if r.Bool(4, 5) {
		g.initialize()
	}
	if r.Bool(3, 4) {
		g.launch("p0.teal")
	}
	n := 3 + r.Intn(14)
	for i := 0; i < n; i++ {
		switch k := r.Intn(20); {
		case k < 6:
			g.bad()
		case k == 6:
			g.fileNoise()
		case k == 7:
			g.garbage(pick(r, progFiles[:2]))
		case k == 8:
			g.launch(pick(r, progFiles[:2]))
		case k == 9:
			g.odd()
		default:
			g.step()
		}
	}
	g.req("threads", nil)
	g.req("stackTrace", obj{"threadId": 0})
	for _, i := range []int{1, 2, 3, 4} {
		g.req("variables", obj{"variablesReference": i})
	}
	return &Plan{Ops: g.ops}
}

// odd appends a well-formed request with unusual numbers; it is part of the
// session (it may have an effect).
func (g *dapGen) odd() {
	r := g.r
	n := pick(r, []int{-1, 0, 1, 7, 99, 1 << 30, -(1 << 30), math.MaxInt64, math.MinInt64})
	switch r.Intn(6) {
	case 0:
		g.req(pick(r, []string{"next", "continue", "pause"}), obj{"threadId": n})
	case 1:
		g.req("stackTrace", obj{"threadId": n, "startFrame": -1, "levels": n})
	case 2:
		g.req("scopes", obj{"frameId": n})
	case 3:
		g.req("variables", obj{"variablesReference": n, "start": n, "count": n})
	case 4:
		g.req("variables", obj{"variablesReference": 1 + r.Intn(40), "start": n, "count": pick(r, []int{-1, 0, 1, 300, math.MaxInt64})})
	case 5:
		g.req("setBreakpoints", obj{"source": obj{"path": "p0.teal"}, "breakpoints": []any{obj{"line": n}, obj{"line": 1 + r.Intn(5)}, obj{"line": n}}})
	}
}

func p14Run(p *Plan, x *X) {
	var good []Op
	for i, o := range p.Ops {
		if o.K == "bad" {
			x.fault("bad_message")
			prev := ""
			for j := i - 1; j >= 0; j-- {
				if p.Ops[j].K == "req" {
					prev = parseDapIn(p.Ops[j].J).command
					break
				}
			}
			if m := parseDapIn(o.J); m.request {
				x.state(m.command, jstr(m.args), prev)
			} else {
				x.state(short(string(o.wire()), 60), prev)
			}
			continue
		}
		good = append(good, o)
	}
	bad := session(x, "dbg", p.Ops).alive(x, "session with bad messages")
	ref := session(x, "dbg", good).alive(x, "session without bad messages")
	a, b := afterBad(x, ref), afterBad(x, bad)
	sameOut(x, "effect", a, b, "effect of bad messages")
	if ref.Status != bad.Status {
		x.fail("effect", "bad messages changed the status: %d", bad.Status)
	}
	reqs := 0
	for _, o := range good {
		if o.K == "req" {
			reqs++
		}
	}
	n := 0
	for _, f := range a {
		if contains(f, `"request_seq"`) {
			n++
		}
	}
	if n < reqs {
		x.fail("unanswered", "%d of %d requests were answered", n, reqs)
	}
	x.Trivial = len(good) == len(p.Ops)
}

// sameLength makes a different text of the same length.
func sameLength(r *Rand, t string) string {
	b := []byte(t)
	var digits []int
	for i, c := range b {
		if c >= '0' && c <= '9' && i > 20 {
			digits = append(digits, i)
		}
	}
	if len(digits) == 0 {
		return t
	}
	i := pick(r, digits)
	b[i] = '0' + byte((int(b[i]-'0')+1+r.Intn(8))%10)
	return string(b)
}

func p20Gen(r *Rand) *Plan {
	g := newDapGen(r)
	var texts [2]string
	put := func(i int, t string) {
		texts[i] = t
		g.file(progFiles[i], t)
	}
	put(0, genProg(r))
	if r.Bool(2, 3) {
		put(1, genProg(r))
	}
	change := func() {
		i := b2i(r.Bool(1, 4))
		switch r.Intn(7) {
		case 0:
			g.ops = append(g.ops, Op{K: "rm", S: progFiles[i]})
		case 1:
			g.ops = append(g.ops, Op{K: "dir", S: progFiles[i]})
		case 2:
			put(i, sameLength(r, texts[i]))
		case 3:
			put(i, texts[1-i])
		case 4:
			t := texts[i]
			put(i, "\n"+t)
		default:
			put(i, genProg(r))
		}
	}
	if r.Bool(4, 5) {
		g.initialize()
	}
	if r.Bool(9, 10) {
		g.launch("p0.teal")
	}
	n := r.Intn(12)
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k == 0:
			g.bad()
		case k < 3:
			change()
		case k == 3:
			g.initialize()
		case k == 4:
			g.setBreakpoints()
			g.req("continue", obj{"threadId": g.thread()})
		default:
			g.step()
		}
	}
	switch r.Intn(4) {
	case 0:
		put(0, sameLength(r, texts[0]))
	case 1:
		put(0, genProg(r))
	case 2:
		put(0, texts[0])
	}
	p := &Plan{}
	g.launch("p0.teal")
	g.ops[len(g.ops)-1].K = "launch"
	m := 2 + r.Intn(10)
	for i := 0; i < m; i++ {
		switch k := r.Intn(10); {
		case k == 0:
			change()
		case k < 3:
			g.req("continue", obj{"threadId": g.thread()})
		case k == 3:
			g.setBreakpoints()
		default:
			before := len(g.ops)
			g.step()
			if contains(g.ops[len(g.ops)-1].J, `"launch"`) {
				g.ops = g.ops[:before]
			}
		}
	}
	if r.Bool(1, 2) {
		g.req("continue", obj{"threadId": 0})
	}
	g.req("threads", nil)
	for t := 0; t < 3; t++ {
		g.req("stackTrace", obj{"threadId": t})
		for _, i := range []int{1, 2, 3, 4} {
			g.req("variables", obj{"variablesReference": i + 10*t})
		}
	}
	p.Ops = g.ops
	return p
}

func p20Run(p *Plan, x *X) {
	x.Trivial = true
	at := -1
	for i, o := range p.Ops {
		if o.K == "launch" {
			at = i
		}
	}
	if at < 0 {
		return
	}
	got := session(x, "dbg", p.Ops).alive(x, "session")
	outs := perOp(x, got)
	if len(outs[at]) == 0 || !outs[at][0].Success {
		return // not readable at that moment
	}
	x.Trivial = false
	// the fresh adapter
	var ref []Op
	var file *Op
	for i, o := range p.Ops {
		switch {
		case i < at && isFileOp(o) && o.S == "p0.teal":
			o := o
			file = &o
		case i < at && o.K == "req" && parseDapIn(o.J).command == "initialize":
			ref = append(ref, o)
		case i == at:
			if file == nil || file.K != "file" {
				x.fail("stale", "a program that does not exist was launched")
			}
			ref = append([]Op{*file}, append(ref, o)...)
		case i > at && !isFileOp(o):
			ref = append(ref, o)
		case i > at:
			x.probe("file_changes_after_launch")
		}
	}
	want := session(x, "dbg", ref).alive(x, "fresh session")
	wouts := perOp(x, want)
	j := 0
	for ; j < len(ref); j++ {
		if ref[j].K == "launch" {
			break
		}
	}
	for i := at; i < len(p.Ops); i++ {
		if isFileOp(p.Ops[i]) {
			continue
		}
		strip := func(ms []*dmsg) []string {
			var out []string
			for _, m := range ms {
				var v map[string]any
				json.Unmarshal([]byte(m.Raw), &v)
				delete(v, "seq")
				out = append(out, jstr(v))
			}
			return out
		}
		sameOut(x, "history", strip(wouts[j]), strip(outs[i]), "after launch, "+short(p.Ops[i].J, 300)+" (expected: as in a fresh adapter)")
		j++
	}
	before := 0
	for i := 0; i < at; i++ {
		if p.Ops[i].K == "req" {
			before++
		}
	}
	x.state(before, at, len(p.Ops)-at, len(wouts))
	x.probe("launches_compared")
}

func init() {
	register(&Prop{
		ID: "P13", Level: "exploration",
		Rule:      "a debug session of seeded commands in any order before and after launches, malformed messages, program files created, rewritten, removed, replaced by directories or failing to be read at seeded points; every message the adapter sends is attributed to the request that caused it and checked against a response and event model; non-trivial: at least one request",
		StateRule: "hash of (command, served, launched, well-formed or not, number of events)",
		Quick:     80000, Thorough: 2400000, Chunk: 400,
		Real: realDbg, Stub: stubDbg,
		Gen: func(r *Rand) *Plan {
			g := genDap(r, r.Intn(6))
			n := r.Intn(14)
			if r.Bool(1, 1500) {
				// a day at work: thousands of messages, now and then tens of thousands
				for i := pick(r, []int{300, 600, 1200, 2500, 5000, 34000}); i > 0; i-- {
					g.req(pick(r, []string{"next", "next", "threads", "pause", "evaluate"}), obj{"threadId": 0, "expression": "x"})
				}
			}
			for i := 0; i < n; i++ {
				switch k := r.Intn(10); {
				case k < 2:
					g.bad()
				case k == 2:
					g.fileNoise()
				case k == 3:
					f := pick(r, progFiles[:3])
					g.launch(f)
					if r.Bool(1, 3) {
						g.ops[len(g.ops)-1].S = f
					}
				case k == 4:
					g.odd()
				default:
					g.step()
				}
			}
			return &Plan{Ops: g.ops}
		},
		Run: p13Run,
	})
	register(&Prop{
		ID: "P14", Level: "exploration",
		Rule:      "a debug session over sound and garbage programs with malformed and unservable messages and unreadable program files injected at seeded points, compared with the same session without them (adapter numbering aside); every well-formed request must be answered and the adapter must end within the step budget; non-trivial: at least one bad message",
		StateRule: "hash of (bad message, command before it)",
		Quick:     40000, Thorough: 1200000, Chunk: 300,
		Real: realDbg, Stub: stubDbg,
		Gen: p14Gen, Run: p14Run,
	})
	register(&Prop{
		ID: "P20", Level: "exploration",
		Rule:      "a seeded history (launches, steps, breakpoints, failing programs, bad messages, initialize) with the program files rewritten (also to texts of the same length and time stamp), removed or replaced, then a launch and further requests with the file changed meanwhile; from the launch on compared with a fresh adapter that got the same initialize requests and the file as of the launch; non-trivial: the launch succeeded",
		StateRule: "hash of (requests before the launch, position, requests after it, messages)",
		Quick:     16000, Thorough: 480000, Chunk: 300,
		Real: realDbg, Stub: stubDbg,
		Gen: p20Gen, Run: p20Run,
	})
}
