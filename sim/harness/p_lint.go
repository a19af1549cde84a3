//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
)

// P27: what the linter reports about control flow is true of every execution. The
// editor shows the diagnostics of a document; the debugger runs the same text.

// flow is the reference reading of a program's control flow.
type flow struct {
	lines  []string
	op     []string   // "" for lines without an instruction
	args   [][]string // operands
	label  []string   // the label a line defines
	pragma []bool
	defs   map[string][]int
	uses   map[string][]int
}

func readFlow(text string) *flow {
	f := &flow{lines: splitLines(text), defs: map[string][]int{}, uses: map[string][]int{}}
	n := len(f.lines)
	f.op, f.args, f.label, f.pragma = make([]string, n), make([][]string, n), make([]string, n), make([]bool, n)
	for i, ln := range f.lines {
		toks := lineTokens(ln)
		if len(toks) == 0 {
			continue
		}
		t := toks[0].s
		if strings.HasSuffix(t, ":") {
			f.label[i] = strings.TrimSuffix(t, ":")
			f.defs[f.label[i]] = append(f.defs[f.label[i]], i)
			continue
		}
		if t == "#pragma" {
			f.pragma[i] = true
			continue
		}
		f.op[i] = t
		if _, ok := labelOps[t]; ok {
			for _, a := range toks[1:] {
				f.args[i] = append(f.args[i], a.s)
				f.uses[a.s] = append(f.uses[a.s], i)
			}
		}
	}
	return f
}

// next are the lines that may follow a line; the end of the program is len(lines).
func (f *flow) next(i int) []int {
	var out []int
	for _, a := range f.args[i] {
		out = append(out, f.defs[a]...)
	}
	switch f.op[i] {
	case "b", "return", "err", "retsub":
	default:
		out = append(out, i+1)
	}
	return out
}

func (f *flow) reach(from ...int) map[int]bool {
	seen := map[int]bool{}
	for len(from) > 0 {
		i := from[len(from)-1]
		from = from[:len(from)-1]
		if seen[i] {
			continue
		}
		seen[i] = true
		if i < len(f.lines) {
			from = append(from, f.next(i)...)
		}
	}
	return seen
}

var lintKinds = []struct {
	kind, text string
	sev        int
}{
	{"duplicate", "duplicate label", 1}, {"unused", "unused label", 2}, {"unreachable", "unreachable", 2},
	{"before", "just before", 2}, {"missing", "missing label", 1}, {"infinite", "infinite loop", 1}, {"pragma", "#pragma version is only", 1},
}

// genFlow makes programs whose control flow is beyond doubt.
func genFlow(r *Rand) string {
	var names []string
	for _, s := range []string{"a", "b", "l0", "end", "sub_1", "A", "x.y", "loop"} {
		if r.Bool(1, 2) {
			names = append(names, s)
		}
	}
	if len(names) == 0 {
		names = []string{"a"}
	}
	l := func() string { return pick(r, names) }
	def := map[string]bool{}
	eol := pick(r, []string{"\n", "\n", "\r\n"})
	var ls []string
	emit := func(s string) {
		if r.Bool(1, 6) {
			s = pick(r, []string{" ", "\t", "  "}) + s
		}
		if r.Bool(1, 8) {
			s += pick(r, []string{" ", " // b a", "\t// return", " //x:", "  // 😀"})
		}
		ls = append(ls, s)
	}
	if r.Bool(9, 10) {
		emit(fmt.Sprintf("#pragma version %d", 8+r.Intn(3)))
	}
	n := 1 + r.Intn(14)
	if r.Bool(1, 20) {
		n = 30 + r.Intn(60)
	}
	for i := 0; i < n; i++ {
		switch r.Intn(18) {
		case 0, 1, 2, 3:
			s := l()
			if def[s] && !r.Bool(1, 8) {
				s = l()
			}
			if def[s] && !r.Bool(1, 8) {
				continue
			}
			def[s] = true
			emit(s + ":")
		case 4, 5:
			emit("b " + l())
			if r.Bool(1, 3) {
				emit(pick(r, []string{"", "// x", l() + ":"}))
			}
		case 6:
			emit("int 1")
			emit(pick(r, []string{"bz ", "bnz "}) + l())
		case 7:
			emit("callsub " + l())
		case 8:
			emit("int 1")
			s := "switch"
			for j := r.Intn(4); j >= 0; j-- {
				s += " " + l()
			}
			emit(s)
		case 9:
			s := "match"
			for j := r.Intn(3); j >= 0; j-- {
				s += " " + l()
				emit("int 2")
			}
			emit("int 1")
			emit(s)
		case 10:
			emit(pick(r, []string{"return", "retsub", "err", "return", "err"}))
		case 11:
			emit(pick(r, []string{"", "// c", "//", "   "}))
		case 12:
			if r.Bool(1, 4) {
				emit(fmt.Sprintf("#pragma version %d", 8))
			}
		default:
			emit(pick(r, []string{"int 1", "int 1", "byte 0x61", "txn Sender", `byte "a: b a"`, "int 1", "global GroupSize"}))
		}
	}
	s := strings.Join(ls, eol)
	if r.Bool(1, 2) {
		s += eol
	}
	return s
}

func genP27(r *Rand) *Plan {
	p := &Plan{}
	u := pick(r, uriPool)
	p.Ops = append(p.Ops, Op{K: "open", S: u, J: genFlow(r)})
	for i := r.Intn(4); i > 0; i-- {
		switch r.Intn(4) {
		case 0:
			// edit a line of it
			p.Ops = append(p.Ops, Op{K: "edit", S: u, A: []int{r.Intn(1 << 16), r.Intn(3), r.Intn(1 << 16)}})
		case 1:
			p.Ops = append(p.Ops, Op{K: "change", S: u, J: genFlow(r)})
		case 2:
			p.Ops = append(p.Ops, Op{K: "other", J: genFlow(r)})
		default:
			g := newLspGen(r)
			g.open("file:///z.teal", "int 1")
			g.bad()
			p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
		}
	}
	for i := 0; i < 1+r.Intn(3); i++ {
		p.Ops = append(p.Ops, Op{K: "next", A: []int{r.Intn(1 << 16), 1 + r.Intn(25)}})
	}
	return p
}

type lintAt struct {
	line int
	sev  int
	msg  string
}

func runP27(p *Plan, x *X) {
	resetFiles()
	x.Trivial = true
	var text string
	var unreach map[int]bool
	dialog(x, "lsp", func(call func([]byte) []string) {
		c := &aidClient{x: x, call: call, docs: map[string]string{}}
		for _, o := range p.Ops {
			switch o.K {
			case "bad":
				call(o.wire())
				continue
			case "other":
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": "file:///other.teal", "languageId": "teal", "version": 1, "text": o.J}}})
				continue
			case "open":
				text = o.J
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": o.S, "languageId": "teal", "version": 1, "text": o.J}}})
			case "change":
				text = o.J
				c.change(o.S, o.J)
			case "edit":
				eol := "\n"
				if strings.Contains(text, "\r\n") {
					eol = "\r\n"
				}
				ls := strings.Split(text, eol)
				i := o.A[0] % len(ls)
				switch o.A[1] {
				case 0:
					ls = append(append([]string{}, ls[:i]...), ls[i+1:]...)
				case 1:
					ls = append(append(append([]string{}, ls[:i]...), ls[o.A[2]%len(ls)]), ls[i:]...)
				case 2:
					j := o.A[2] % len(ls)
					ls[i], ls[j] = ls[j], ls[i]
				}
				text = strings.Join(ls, eol)
				c.change(o.S, text)
			default:
				continue
			}
			unreach = judgeLint(x, text, c.diagnostics(o.S))
		}
	})
	x.check()
	if len(unreach) == 0 {
		return
	}
	// the debugger runs the text
	if err := os.WriteFile("p0.teal", []byte(text), 0o644); err != nil {
		panic(err)
	}
	dialog(x, "dbg", func(call func([]byte) []string) {
		d := &dbgClient{x: x, call: call, lz: 1}
		d.do(d.msg("initialize", obj{"adapterID": "teal"}))
		d.do(d.msg("launch", obj{"program": "p0.teal"}))
		look := func() []int {
			var ts struct {
				Threads []struct {
					Id int `json:"id"`
				} `json:"threads"`
			}
			d.one("threads", nil, &ts)
			var ids []int
			for _, t := range ts.Threads {
				var b struct {
					StackFrames []struct {
						Line int `json:"line"`
					} `json:"stackFrames"`
				}
				d.one("stackTrace", obj{"threadId": t.Id}, &b)
				if len(b.StackFrames) == 0 {
					continue
				}
				if l := b.StackFrames[0].Line - 1; unreach[l] {
					x.fail("unreachable", "the debugger gets to line %d of %q, which is reported as unreachable", l, text)
				}
				ids = append(ids, t.Id)
			}
			x.probe("debugger_states_compared")
			return ids
		}
		ids := look()
		for _, o := range p.Ops {
			if o.K != "next" {
				continue
			}
			for i := 0; i < o.A[1] && len(ids) > 0 && len(ids) < 20; i++ {
				for _, f := range call(d.msg("next", obj{"threadId": ids[o.A[0]%len(ids)]})) {
					m := parseDap(x, f)
					if m.Event == "terminated" || (m.Event == "stopped" && strings.Contains(string(m.Body), "exception")) {
						return
					}
				}
				ids = look()
			}
		}
	})
}

func (c *aidClient) diagnostics(u string) []lintAt {
	var rep struct {
		Items []struct {
			Message  string `json:"message"`
			Range    rng    `json:"range"`
			Severity int    `json:"severity"`
		} `json:"items"`
	}
	c.req("textDocument/diagnostic", obj{"textDocument": obj{"uri": u}}, &rep)
	var out []lintAt
	for _, d := range rep.Items {
		out = append(out, lintAt{d.Range.Start.Line, d.Severity, d.Message})
	}
	return out
}

// judgeLint compares the diagnostics with the reference reading and returns the
// lines reported as unreachable.
func judgeLint(x *X, text string, ds []lintAt) map[int]bool {
	f := readFlow(text)
	got := map[string]map[int]bool{}
	for _, k := range lintKinds {
		got[k.kind] = map[int]bool{}
	}
	missing := map[string]bool{}
	versioned := false // otherwise instructions may be too new
	for i := range f.lines {
		if f.pragma[i] || f.op[i] != "" {
			versioned = f.pragma[i]
			break
		}
	}
	for _, d := range ds {
		known := false
		for _, k := range lintKinds {
			if strings.Contains(d.msg, k.text) {
				known = true
				if d.sev != k.sev {
					x.fail("severity", "severity %d of %q in %q", d.sev, d.msg, text)
				}
				got[k.kind][d.line] = true
				if k.kind == "missing" {
					missing[fmt.Sprint(d.line, " ", d.msg)] = true
				}
			}
		}
		if !known && versioned {
			x.fail("error", "%q is reported in line %d of %q", d.msg, d.line, text)
		}
	}
	exact := func(kind string, want map[int]bool) {
		if !sameLines(got[kind], want) {
			x.fail(kind, "lines reported as %s in %q: %v, expected %v", kind, text, lineList(got[kind]), lineList(want))
		}
		if len(want) > 0 {
			x.probe("exact_" + kind)
		}
	}
	dup, unused, miss, prag := map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	dups := false
	for n, ls := range f.defs {
		for _, i := range ls {
			if len(ls) > 1 {
				dup[i] = true
				dups = true
			}
			if len(f.uses[n]) == 0 {
				unused[i] = true
			}
		}
	}
	for n, ls := range f.uses {
		if len(f.defs[n]) == 0 {
			for _, i := range ls {
				miss[i] = true
				found := false
				for m := range missing {
					found = found || (strings.HasPrefix(m, fmt.Sprint(i, " ")) && strings.Contains(m, `"`+n+`"`))
				}
				if !found {
					x.fail("missing", "%q in line %d of %q is not reported missing: %v", n, i, text, ds)
				}
			}
		}
	}
	started := false
	for i := range f.lines {
		if f.pragma[i] && started {
			prag[i] = true
		}
		started = started || f.pragma[i] || f.op[i] != ""
	}
	exact("duplicate", dup)
	exact("unused", unused)
	exact("missing", miss)
	exact("pragma", prag)
	// unreachable code: sound, and found behind unconditional branches
	live := f.reach(0)
	for i := range got["unreachable"] {
		if live[i] {
			x.fail("unreachable", "line %d of %q is reported as unreachable, but can be reached", i, text)
		}
		x.probe("unreachable_lines")
	}
	dead := false
	for i := range f.lines {
		if f.label[i] != "" && len(f.uses[f.label[i]]) > 0 {
			dead = false
		}
		if f.op[i] == "" {
			continue
		}
		if dead && !got["unreachable"][i] {
			x.fail("unreachable", "line %d of %q cannot be reached, but is not reported", i, text)
		}
		switch f.op[i] {
		case "b", "return", "err":
			dead = true
		}
	}
	// branches to the next instruction
	for i := range f.lines {
		if f.op[i] != "b" {
			if got["before"][i] {
				x.fail("before", "line %d of %q is not a branch", i, text)
			}
			continue
		}
		first, any, j := "", false, i+1
		for ; j < len(f.lines) && f.op[j] == ""; j++ {
			if first == "" {
				first = f.label[j]
			}
			any = any || f.label[j] == f.args[i][0]
		}
		if got["before"][i] && !any {
			x.fail("before", "the branch in line %d of %q does not lead to the next instruction", i, text)
		}
		if !got["before"][i] && first == f.args[i][0] {
			x.fail("before", "the branch in line %d of %q leads to the label right below, but is not reported", i, text)
		}
		if any {
			x.probe("branches_before_label")
		}
	}
	// infinite loops
	for i := range f.lines {
		if got["infinite"][i] && f.op[i] != "b" {
			x.fail("infinite", "line %d of %q is not a branch", i, text)
		}
		if f.op[i] != "b" || dups {
			continue
		}
		if got["infinite"][i] {
			x.probe("infinite_loops")
			for j := range f.reach(i) {
				if j == len(f.lines) || f.op[j] == "return" || f.op[j] == "err" || f.op[j] == "retsub" {
					x.fail("infinite", "the loop at line %d of %q can be left at line %d", i, text, j)
				}
			}
			continue
		}
		if ls := f.defs[f.args[i][0]]; len(ls) == 1 && ls[0] < i {
			plain := true
			for j := ls[0]; j < i; j++ {
				_, br := labelOps[f.op[j]]
				plain = plain && !br && f.op[j] != "return" && f.op[j] != "err" && f.op[j] != "retsub"
			}
			if plain {
				x.fail("infinite", "the loop at line %d of %q is never left, but is not reported", i, text)
			}
		}
	}
	x.Trivial = false
	x.probe("programs_judged")
	var sig []int
	for _, k := range lintKinds {
		sig = append(sig, min(len(got[k.kind]), 3))
	}
	b, _ := json.Marshal(sig)
	x.state("lint", string(b), min(len(f.lines)/4, 6))
	return got["unreachable"]
}

func sameLines(a, b map[int]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !b[i] {
			return false
		}
	}
	return true
}

func lineList(m map[int]bool) []int {
	var out []int
	for i := range m {
		out = append(out, i)
	}
	sort.Ints(out)
	return out
}

func init() {
	register(&Prop{
		ID: "P27", Level: "exploration",
		Rule:      "an edit history over generated control flow (labels, jumps, calls, switches, ends, pragmas), its diagnostics compared with a reference control-flow graph after every edit, then the debugger executing the same text with a seeded choice of thread at every step: no line reported as unreachable may be reached; non-trivial: at least one program judged",
		StateRule: "hash of (number of reports of each kind up to 3, program length band)",
		Quick:     60000, Thorough: 3000000, Chunk: 200,
		Real: realLsp + "; " + realDbg, Stub: stubIO,
		Gen: genP27, Run: runP27,
	})
}
