//go:build go1.22

package main

import (
	"os"
	"path/filepath"
	"strings"
	"time"
)

// doFile performs a file operation of a plan in the run's scratch directory.
func doFile(x *X, o Op) {
	switch o.K {
	case "file":
		if fi, err := os.Lstat(o.S); err == nil && fi.IsDir() {
			os.RemoveAll(o.S)
		}
		os.MkdirAll(filepath.Dir(o.S), 0o755)
		data := []byte(o.J)
		if o.B != nil {
			data = o.B
		}
		if err := os.WriteFile(o.S, data, 0o644); err != nil {
			panic(err)
		}
		// versions of a file differ in nothing but their content
		os.Chtimes(o.S, time.Unix(1e9, 0), time.Unix(1e9, 0))
	case "rm":
		os.RemoveAll(o.S)
		x.fault("file_removed")
	case "dir":
		os.RemoveAll(o.S)
		os.Mkdir(o.S, 0o755)
		x.fault("file_is_directory")
	}
}

func isFileOp(o Op) bool { return o.K == "file" || o.K == "rm" || o.K == "dir" }

// resetFiles removes the program files of earlier executions.
func resetFiles() {
	for _, f := range progFiles {
		os.RemoveAll(f)
	}
	os.RemoveAll("simdisk")
}

var progFiles = []string{"p0.teal", "p1.teal", "p2.teal", "p 3 é.teal"}

// simDisk is a file that the URI file:///simdisk/d.teal names in simulated worlds.
const simDisk = "simdisk/d.teal"

// dapGen generates debug-adapter sessions.
type dapGen struct {
	r        *Rand
	seq      int
	ops      []Op
	launched bool
	lines    int
	lz       int
	nofile   bool
}

func newDapGen(r *Rand) *dapGen {
	g := &dapGen{r: r, seq: r.Intn(3), lz: 1}
	return g
}

func (g *dapGen) file(name, text string) {
	g.ops = append(g.ops, Op{K: "file", S: name, J: text})
	g.lines = strings.Count(text, "\n") + 1
}

func (g *dapGen) req(cmd string, args any) {
	g.seq++
	if g.r.Bool(1, 20) {
		g.seq += g.r.Intn(50)
	}
	seq := g.seq
	if g.r.Bool(1, 25) {
		// clients need not count upwards
		seq = pick(g.r, []int{0, g.seq - 1, g.seq - 5, 1, 1, 999999})
	}
	m := obj{"seq": seq, "type": "request", "command": cmd}
	if args != nil {
		m["arguments"] = args
	}
	g.ops = append(g.ops, Op{K: "req", J: jstr(m)})
}

func (g *dapGen) initialize() {
	a := obj{"adapterID": "teal", "clientID": "sim", "pathFormat": "path"}
	switch g.r.Intn(4) {
	case 0:
		a["linesStartAt1"] = true
		a["columnsStartAt1"] = true
	case 1:
		a["linesStartAt1"] = g.r.Bool(1, 2)
	}
	g.req("initialize", a)
}

func (g *dapGen) launch(name string) {
	g.req("launch", obj{"program": name})
}

func (g *dapGen) thread() int {
	if g.r.Bool(1, 3) {
		return 0
	}
	return g.r.Intn(6)
}

func (g *dapGen) step() {
	r := g.r
	switch r.Intn(22) {
	case 0:
		g.req("threads", nil)
	case 1:
		g.req("stackTrace", obj{"threadId": g.thread()})
	case 2:
		g.req("scopes", obj{"frameId": g.thread()})
	case 3, 4:
		g.req("variables", obj{"variablesReference": 1 + r.Intn(4) + 10*g.thread()})
	case 5:
		a := obj{"variablesReference": 1 + r.Intn(4) + 10*g.thread(), "start": r.Intn(10)}
		if r.Bool(1, 2) {
			a["count"] = r.Intn(10)
		}
		g.req("variables", a)
	case 6, 7:
		g.setBreakpoints()
	case 8, 9:
		g.req("continue", stepArgs(g.thread(), r.Intn(1<<16)))
	case 10:
		g.req("pause", obj{"threadId": g.thread()})
	case 11:
		g.req(pick(r, []string{"evaluate", "setFunctionBreakpoints", "setInstructionBreakpoints", "setExceptionBreakpoints", "configurationDone"}), obj{"expression": "x", "breakpoints": []any{}, "filters": []any{}})
	case 12:
		g.launch(pick(r, progFiles[:2]))
	case 13:
		if r.Bool(1, 2) {
			g.req("disconnect", pick(r, []any{obj{}, obj{"restart": false, "terminateDebuggee": true}, nil}))
		} else {
			g.req("threads", nil)
		}
	default:
		g.req("next", stepArgs(g.thread(), r.Intn(1<<16)))
	}
}

// stepArgs are the arguments of a request to run a thread, with or without the
// optional ones.
func stepArgs(thread, variant int) obj {
	a := obj{"threadId": thread}
	switch variant % 16 {
	case 1, 2:
		a["singleThread"] = true
	case 3:
		a["singleThread"] = false
	case 4:
		a["granularity"] = "statement"
	case 5:
		a["granularity"] = "line"
	case 6:
		a["granularity"] = "instruction"
	case 7:
		a["singleThread"] = true
		a["granularity"] = "line"
	}
	return a
}

func (g *dapGen) setBreakpoints() {
	r := g.r
	n := r.Intn(4)
	bs := []any{}
	for i := 0; i < n; i++ {
		bs = append(bs, obj{"line": r.Intn(g.lines + 2)})
	}
	g.req("setBreakpoints", obj{"source": obj{"name": "p0.teal", "path": "p0.teal"}, "breakpoints": bs})
}

// genProg makes a program to debug: loops, calls, branches.
func genProg(r *Rand) string {
	if r.Bool(1, 5) {
		return genText(r, r.Intn(15))
	}
	return genStructured(r, r.Intn(3)).text
}

// genDap generates a session of about n steps.
func genDap(r *Rand, n int) *dapGen {
	g := newDapGen(r)
	for i := 0; i < 2; i++ {
		if r.Bool(5, 6) {
			g.file(progFiles[i], genProg(r))
		}
	}
	if r.Bool(9, 10) {
		g.initialize()
	}
	if r.Bool(5, 6) {
		g.launch("p0.teal")
		if r.Bool(1, 2) {
			g.req("configurationDone", nil)
		}
	}
	for i := 0; i < n; i++ {
		g.step()
	}
	return g
}

// bad appends a message that must be refused or ignored. Its seq is >= 1e6.
func (g *dapGen) bad() {
	r := g.r
	g.seq++
	seq := 1_000_000 + g.seq
	raw := func(s string) { g.ops = append(g.ops, Op{K: "bad", J: s}) }
	m := func(cmd any, args any) {
		o := obj{"seq": seq, "type": "request", "command": cmd}
		if args != nil {
			o["arguments"] = args
		}
		raw(jstr(o))
	}
	cmds := []string{"initialize", "launch", "setBreakpoints", "threads", "continue", "next", "variables", "scopes", "stackTrace", "pause", "evaluate"}
	switch r.Intn(21) {
	case 0:
		raw(pick(r, []string{"", "{", "}", "null", "[]", "1", "\"x\"", "{}", "nonsense", "true", "{\"seq\":", "\x00"}))
	case 1:
		s := jstr(obj{"seq": seq, "type": "request", "command": pick(r, cmds), "arguments": obj{"threadId": 0}})
		raw(s[:r.Intn(len(s))])
	case 2:
		m(pick(r, []string{"foo", "stepIn", "stepOut", "", "Launch", "attach", "terminate", "modules"}), obj{})
	case 3:
		m(pick(r, []any{5, nil, obj{}, []any{}, true}), obj{"threadId": 0})
	case 4:
		// missing arguments, for the commands that need them
		m(pick(r, []string{"initialize", "launch", "continue", "next", "variables", "scopes", "stackTrace"}), nil)
	case 5:
		m(pick(r, []string{"initialize", "launch", "setBreakpoints", "continue", "next", "variables", "scopes", "stackTrace"}), pick(r, []any{5, "x", []any{}, true}))
	case 6:
		m("launch", obj{"program": pick(r, []any{"missing.teal", "", "no/such/dir/x.teal", ".", "/dev/null/x", "a\x00b"})})
	case 7:
		m("launch", obj{"program": pick(r, []any{5, obj{}, []any{}})})
	case 8:
		m("stackTrace", obj{"threadId": pick(r, []any{-1, 99999, 1 << 40, "0", 0.5, obj{}})})
	case 9:
		m("scopes", obj{"frameId": pick(r, []any{-1, 99999, 1 << 40, "0", 0.5, obj{}})})
	case 10:
		m("variables", obj{"variablesReference": pick(r, []any{-1, 0, 99999, 1 << 40, "0", 0.5, 5, 9, 10, -2147483648}), "start": pick(r, []any{-1, 0, 1 << 40, 3}), "count": pick(r, []any{-1, 0, 1 << 40, 3})})
	case 11:
		m("variables", obj{"variablesReference": 1 + r.Intn(4), "start": pick(r, []any{-1, -100000, 1 << 40, 257}), "count": pick(r, []any{-1, 1 << 62, 100000})})
	case 12:
		m(pick(r, []string{"next", "continue"}), obj{"threadId": pick(r, []any{"0", 0.5, obj{}, []any{}, 1e300})})
	case 13:
		raw(jstr(obj{"seq": seq, "type": pick(r, []any{"event", "response", "", "x"}), "event": "x", "command": "next", "arguments": obj{"threadId": 0}}))
	case 14:
		raw(jstr(obj{"seq": pick(r, []any{"1", 0.5, nil, obj{}}), "type": 5}))
	case 17:
		// half-right configuration
		m("initialize", pick(r, []any{
			obj{"linesStartAt1": false, "columnsStartAt1": "x"},
			obj{"linesStartAt1": 1, "adapterID": "teal"},
			obj{"adapterID": 5, "linesStartAt1": true},
			obj{"clientID": obj{}, "columnsStartAt1": true, "linesStartAt1": true},
		}))
	case 18:
		bs := []any{obj{"line": r.Intn(g.lines + 2)}, obj{"line": r.Intn(g.lines + 2)}}
		bs[r.Intn(2)] = pick(r, []any{obj{"line": "x"}, 5, obj{"line": 0.5}, obj{"line": obj{}}, []any{}})
		m("setBreakpoints", pick(r, []any{
			obj{"source": obj{"path": "p0.teal"}, "breakpoints": bs},
			obj{"source": 5, "breakpoints": []any{obj{"line": 2}}},
			obj{"breakpoints": obj{"line": 2}},
			obj{"source": obj{"path": 7}, "breakpoints": []any{}},
		}))
	case 19, 20:
		// a program that exists but cannot be read
		o := obj{"seq": seq, "type": "request", "command": "launch", "arguments": obj{"program": pick(r, progFiles[:2])}}
		g.ops = append(g.ops, Op{K: "bad", J: jstr(o), S: o["arguments"].(obj)["program"].(string)})
	case 15, 16:
		g.ops = append(g.ops, Op{K: "bad", B: []byte(badHeader(r))})
	}
}
