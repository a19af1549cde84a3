//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
)

const realLsp = "lsp/ server with the analyser and linter (instrumented copies of the repository's code)"

// in is a decoded client message.
type in struct {
	ID     any `json:"id"`
	Method any `json:"method"`
	Params any `json:"params"`
	keys   map[string]any
	ok     bool
}

func (m *in) method() string { s, _ := m.Method.(string); return s }

func dig(v any, ks ...string) any {
	for _, k := range ks {
		o, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v = o[k]
	}
	return v
}

func digs(v any, ks ...string) string { s, _ := dig(v, ks...).(string); return s }

func parseIn(j string) *in {
	m := &in{}
	var raw map[string]json.RawMessage
	if json.Unmarshal([]byte(j), &raw) != nil || raw == nil {
		return m
	}
	m.keys = map[string]any{}
	for k, v := range raw {
		var a any
		json.Unmarshal(v, &a)
		m.keys[k] = a
	}
	m.ID, m.Method, m.Params = m.keys["id"], m.keys["method"], m.keys["params"]
	m.ok = true
	return m
}

// lspModel follows what a client knows about the server's state.
type lspModel struct {
	docs map[string]string
	opts obj // explicitly set options
	shut bool
}

func newLspModel() *lspModel { return &lspModel{docs: map[string]string{}, opts: obj{}} }

// apply takes one well-formed client message.
func (s *lspModel) apply(m *in) {
	uri := digs(m.Params, "textDocument", "uri")
	switch m.method() {
	case "textDocument/didOpen":
		s.docs[uri] = digs(m.Params, "textDocument", "text")
	case "textDocument/didChange":
		if _, ok := s.docs[uri]; ok {
			cs, _ := dig(m.Params, "contentChanges").([]any)
			for _, c := range cs {
				s.docs[uri] = digs(c, "text")
			}
		}
	case "textDocument/didClose":
		if !s.shut {
			delete(s.docs, uri)
		}
	case "shutdown":
		s.shut = true
	case "initialize":
		if s.shut {
			return
		}
		if o, ok := dig(m.Params, "initializationOptions").(map[string]any); ok {
			for _, n := range optionNames {
				if v, ok := o[n].(bool); ok {
					s.opts[n] = v
				}
			}
		}
	}
}

// target is the document a request is about.
func target(m *in) string {
	if m.method() == "workspace/executeCommand" {
		as, _ := dig(m.Params, "arguments").([]any)
		if len(as) > 0 {
			return digs(as[0], "uri")
		}
		return ""
	}
	return digs(m.Params, "textDocument", "uri")
}

var notifications = map[string]bool{"initialized": true, "exit": true, "textDocument/didOpen": true, "textDocument/didChange": true,
	"textDocument/didSave": true, "textDocument/didClose": true, "$/cancelRequest": true}

// badReq appends a request that must be answered with an error.
func (g *lspGen) badReq() {
	r := g.r
	meth := pick(r, docMethods)
	uri := g.anyOpen()
	text := g.docs[uri]
	switch r.Intn(6) {
	case 0:
		g.breq(pick(r, []string{"textDocument/unknown", "foo", "workspace/symbol", "textDocument/", "$/x", "textDocument/hover2", "Initialize"}), obj{"textDocument": obj{"uri": uri}})
	case 1:
		for meth == "textDocument/diagnostic" {
			meth = pick(r, docMethods)
		}
		g.breq(meth, g.docParams(meth, "file:///never-opened.teal", text))
	case 2:
		g.breq(meth, nil)
	case 3:
		g.breq(meth, pick(r, []any{5, "x", true, []any{1}}))
	case 4:
		g.breq(meth, obj{"textDocument": pick(r, []any{5, "x", []any{}, obj{"uri": 5}})})
	case 5:
		g.breq("workspace/executeCommand", pick(r, []any{
			obj{"command": "teal.unknown", "arguments": []any{obj{"uri": uri}}},
			obj{"command": ""},
			obj{"command": "teal.label.create"},
			obj{"command": "teal.line.remove", "arguments": []any{}},
			obj{"command": "teal.value.replace", "arguments": []any{obj{"uri": uri}, obj{"uri": uri}}},
			obj{"command": "teal.version.update", "arguments": []any{obj{"uri": "file:///never-opened.teal", "version": 3}}},
			obj{"command": "teal.value.replace", "arguments": []any{obj{"uri": "file:///never-opened.teal", "value": "x"}}},
			obj{"command": "teal.line.remove", "arguments": []any{obj{"uri": "file:///never-opened.teal", "line": 0}}},
			obj{"command": "teal.label.remove", "arguments": []any{obj{"uri": "file:///never-opened.teal", "name": "a"}}},
			obj{"command": "teal.label.create", "arguments": []any{obj{"uri": "file:///never-opened.teal", "name": "a"}}},
			obj{"command": "teal.line.remove", "arguments": 5},
			5,
		}))
	}
}

func init() {
	register(&Prop{
		ID: "P02", Level: "exploration",
		Rule:      "a session of requests, notifications, client responses and unservable requests over several documents with integer and string ids, possibly with a shutdown, checked against a model of which requests must be answered how; non-trivial: at least two requests",
		StateRule: "hash of (method, document open, shut down, outcome) of an answered request",
		Quick:     240000, Thorough: 7200000, Chunk: 400,
		Real: realLsp, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			g := genLsp(r, 0)
			p := &Plan{}
			n := 2 + r.Intn(16)
			for i := 0; i < n; i++ {
				switch r.Intn(10) {
				case 0, 1:
					g.badReq()
				case 2:
					g.bad()
				case 3:
					if r.Bool(1, 8) {
						g.req("shutdown", nil)
					} else {
						u := g.anyOpen()
						g.command(u, g.docs[u])
					}
				case 4:
					if r.Bool(1, 3) {
						// a document that was closed
						u := g.anyOpen()
						m := pick(r, docMethods)
						t := g.docs[u]
						g.close(u)
						g.req(m, g.docParams(m, u, t))
					} else {
						g.step()
					}
				default:
					g.step()
				}
			}
			if r.Bool(1, 120) {
				// a long session: many server requests
				u := pick(r, g.uris)
				g.open(u, genText(r, r.Intn(2)))
				n := pick(r, []int{40, 70, 140, 300, 600, 1100})
				if r.Bool(1, 50) {
					n = pick(r, []int{5000, 33000, 66000})
				}
				for ; n > 0; n-- {
					g.command(u, g.docs[u])
				}
			}
			p.Ops = g.ops
			p.set("pipe", r.Intn(2))
			return p
		},
		Run: runP02,
	})
}

type expReq struct {
	id    string
	what  string // result, error, any
	edits int    // server requests expected before the response; -1: any
	op    Op
}

func runP02(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	var exp []expReq
	s := newLspModel()
	for _, o := range ms {
		if o.B != nil {
			continue
		}
		m := parseIn(o.J)
		if !m.ok {
			continue
		}
		meth := m.method()
		_, hasRes := m.keys["result"]
		_, hasErr := m.keys["error"]
		isReq := m.ID != nil && meth != "" && !hasRes && !hasErr && !notifications[meth]
		if o.K == "bad" {
			if isReq {
				e := expReq{jstr(m.ID), "any", -1, o}
				if s.shut {
					e.what = "error"
				}
				exp = append(exp, e)
			}
			continue
		}
		if isReq {
			e := expReq{jstr(m.ID), "result", 0, o}
			_, open := s.docs[target(m)]
			switch {
			case o.K == "breq", s.shut:
				e.what = "error"
			case meth == "workspace/executeCommand":
				e.edits = 1
				if !open {
					e.what, e.edits = "error", 0
				}
			case strings.HasPrefix(meth, "textDocument/") && meth != "textDocument/diagnostic" && !open:
				e.what = "error"
			}
			exp = append(exp, e)
			x.state(meth, open, s.shut, e.what)
		}
		s.apply(m)
	}
	var c *Conn
	if p.cfg("pipe") == 1 {
		c = newConn(x, wire(ms))
	} else {
		c = feed(x, ms)
	}
	res := runServer(x, "lsp", c, nil).alive(x, "session")
	k := 0
	edits := 0
	ids := map[string]bool{}
	for _, b := range res.frames(x, "session") {
		m, err := parseMsg(b)
		if err != nil {
			x.fail("reply", "a frame that is no JSON-RPC message: %s", short(b, 200))
		}
		if v := string(m.keys["jsonrpc"]); v != `"2.0"` {
			x.fail("reply", "jsonrpc is %s: %s", v, short(b, 200))
		}
		if m.Method != "" {
			if m.has("id") {
				id := jstr(m.ID)
				if ids[id] || m.ID == nil {
					x.fail("server-id", "server request id %s used twice: %s", id, short(b, 200))
				}
				ids[id] = true
				edits++
			}
			continue
		}
		if k >= len(exp) {
			x.fail("extra", "a response nobody asked for: %s", short(b, 300))
		}
		e := exp[k]
		k++
		if jstr(m.ID) != e.id {
			x.fail("order", "expected the response to %s, got: %s", short(e.op.J, 300), short(b, 300))
		}
		if m.has("result") == m.has("error") {
			x.fail("reply", "a response must have exactly one of result and error: %s", short(b, 300))
		}
		if m.has("error") && dig(decode(string(m.Error)), "message") == nil {
			x.fail("reply", "an error without a message: %s", short(b, 300))
		}
		if e.what == "result" && !m.has("result") {
			x.fail("refused", "request %s was refused: %s", short(e.op.J, 600), short(b, 300))
		}
		if e.what == "error" && !m.has("error") {
			x.fail("accepted", "request %s should have been refused: %s", short(e.op.J, 600), short(b, 300))
		}
		if e.edits >= 0 && edits != e.edits {
			x.fail("edits", "request %s caused %d server requests", short(e.op.J, 300), edits)
		}
		edits = 0
	}
	if k < len(exp) {
		x.fail("missing", "no response to %s", short(exp[k].op.J, 400))
	}
	x.Trivial = len(exp) < 2
	if len(exp) > 0 {
		x.Probes["requests"] += len(exp)
	}
}

func decode(s string) any {
	var v any
	json.Unmarshal([]byte(s), &v)
	return v
}

// withoutBad drops the responses to bad messages.
func withoutBad(x *X, r *Res) []string {
	var out []string
	for _, b := range r.frames(x, "") {
		if m, err := parseMsg(b); err == nil && m.Method == "" {
			if id, ok := m.ID.(string); ok && strings.HasPrefix(id, "bad") {
				continue
			}
		}
		out = append(out, b)
	}
	return out
}

func init() {
	register(&Prop{
		ID: "P03", Level: "exploration",
		Rule:      "a session over generated documents (arbitrary runes, torn strings, odd line ends, big texts) and positions, with malformed or unservable messages inserted at seeded points, compared with the same session without them; non-trivial: at least one bad message and some output",
		StateRule: "hash of (kind of bad message: first bytes of it, message before it)",
		Quick:     100000, Thorough: 3000000, Chunk: 400,
		Real: realLsp, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			g := genLsp(r, 0)
			n := 2 + r.Intn(14)
			for i := 0; i < n; i++ {
				if r.Bool(1, 4) {
					g.bad()
				} else if r.Bool(1, 40) {
					u := pick(r, g.uris)
					g.open(u, bigText(r, pick(r, bufferSizes)+r.Intn(3)))
				} else {
					g.step()
				}
			}
			// a final request must still be served
			u := g.anyOpen()
			g.req("textDocument/diagnostic", obj{"textDocument": obj{"uri": u}})
			return &Plan{Ops: g.ops}
		},
		Run: func(p *Plan, x *X) {
			ms := prepare(x, p.Ops)
			var good []Op
			for i, o := range ms {
				if o.K == "bad" {
					x.fault("bad_message")
					w := string(o.wire())
					prev := ""
					if i > 0 {
						prev = parseIn(ms[i-1].J).method()
					}
					if m := parseIn(o.J); m.ok {
						x.state(m.method(), fmt.Sprintf("%T", m.Params), prev)
					} else {
						x.state(short(w, 40), prev)
					}
					continue
				}
				good = append(good, o)
			}
			bad := runServer(x, "lsp", feed(x, ms), nil).alive(x, "session with bad messages")
			ref := runServer(x, "lsp", feed(x, good), nil).alive(x, "session without bad messages")
			a, b := withoutBad(x, ref), withoutBad(x, bad)
			for i := 0; i < len(a) || i < len(b); i++ {
				if i >= len(a) {
					x.fail("effect", "bad messages caused additional output: %s", short(b[i], 400))
				}
				if i >= len(b) {
					x.fail("effect", "bad messages suppressed output: %s", short(a[i], 400))
				}
				if a[i] != b[i] {
					x.fail("effect", "bad messages changed the reply: %s", diffAt(a[i], b[i]))
				}
			}
			if bad.Status != ref.Status {
				x.fail("effect", "bad messages changed the status: %d", bad.Status)
			}
			x.Trivial = len(good) == len(ms) || ref.Out == ""
		},
	})

	register(&Prop{
		ID: "P06", Level: "exploration",
		Rule:      "an edit history over several documents with interleaved requests, client responses, re-initialization and bad messages; every request's answer is compared with that of a fresh server (in the same process, or in a new one) that was given the same settings and only that document's current text; non-trivial: at least one request after a change",
		StateRule: "hash of (method, text) of a compared request",
		Quick:     100000, Thorough: 3000000, Chunk: 250,
		Real: realLsp, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			g := genLsp(r, 0)
			onDisk := r.Bool(1, 4)
			if onDisk {
				g.uris = append(g.uris, "file:///simdisk/d.teal")
			}
			n := 3 + r.Intn(18)
			for i := 0; i < n; i++ {
				switch r.Intn(12) {
				case 0:
					g.bad()
				case 1, 2, 3, 4:
					g.edit()
				case 5:
					if r.Bool(1, 3) {
						u := g.anyOpen()
						m := pick(r, docMethods)
						t := g.docs[u]
						g.close(u)
						g.req(m, g.docParams(m, u, t))
					} else {
						g.edit()
					}
				case 6:
					// the same request twice around an edit
					u := g.anyOpen()
					m := pick(r, docMethods)
					ps := g.docParams(m, u, g.docs[u])
					g.req(m, ps)
					g.change(u, editText(r, g.docs[u]))
					g.req(m, ps)
				default:
					g.step()
				}
			}
			g.docReq()
			p := &Plan{Ops: g.ops}
			if onDisk {
				// a file of that name on disk, with another text
				p.Ops = append([]Op{{K: "file", S: simDisk, J: genText(r, r.Intn(6))}}, p.Ops...)
			}
			p.set("fresh", b2i(r.Bool(1, 25)))
			p.set("pipe", b2i(r.Bool(1, 3)))
			return p
		},
		Run: runP06,
	})
}

// anon hides the ids of server requests.
func anon(bodies []string) string {
	var out []string
	for _, b := range bodies {
		if m, err := parseMsg(b); err == nil && m.Method != "" && m.has("id") {
			var o map[string]any
			json.Unmarshal([]byte(b), &o)
			o["id"] = "server"
			b = jstr(o)
		}
		out = append(out, b)
	}
	return strings.Join(out, "\n")
}

func runP06(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	c := feed(x, ms)
	res := runServer(x, "lsp", c, nil).alive(x, "history")
	if p.cfg("pipe") == 1 {
		// all messages are waiting when the server starts
		pr := runServer(x, "lsp", newConn(x, wire(ms)), nil).alive(x, "pipelined history")
		if pr.Out != res.Out {
			x.fail("history", "the answers change when the client does not wait for them: %s", diffAt(res.Out, pr.Out))
		}
	}
	resetFiles() // the fresh servers find no files
	s := newLspModel()
	changed := false
	x.Trivial = true
	var refs [][]Op
	var idx []int
	var got []string
	for i, o := range ms {
		if i >= len(c.outs) {
			break
		}
		if o.K == "bad" {
			continue
		}
		m := parseIn(o.J)
		if m.method() == "textDocument/didChange" {
			changed = true
		}
		s.apply(m)
		uri := target(m)
		if o.K != "req" || uri == "" || s.shut {
			continue
		}
		var ref []Op
		ref = append(ref, Op{K: "req", J: jstr(obj{"jsonrpc": "2.0", "id": "init", "method": "initialize", "params": obj{"capabilities": obj{}, "initializationOptions": s.opts}})})
		if t, ok := s.docs[uri]; ok {
			ref = append(ref, Op{K: "ntf", J: jstr(obj{"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": uri, "languageId": "teal", "version": 1, "text": t}}})})
			x.state(m.method(), t)
		} else {
			x.state(m.method(), "closed")
		}
		ref = append(ref, o)
		hi := len(res.Out)
		if i+1 < len(c.outs) {
			hi = c.outs[i+1]
		}
		fs, _, _ := parseFrames(res.Out[c.outs[i]:hi])
		refs = append(refs, ref)
		idx = append(idx, i)
		got = append(got, anon(fs))
		if changed {
			x.Trivial = false
		}
	}
	cmp := func(k int, all string, head int) {
		fs, _, _ := parseFrames(all[head:])
		if want := anon(fs); want != got[k] {
			x.fail("history", "message %d (%s) is answered differently than by a fresh server: %s", idx[k], short(ms[idx[k]].J, 300), diffAt(want, got[k]))
		}
	}
	if p.cfg("fresh") == 1 && len(refs) > 0 {
		// in a fresh process, last request first
		var ws [][]byte
		for k := len(refs) - 1; k >= 0; k-- {
			ws = append(ws, wire(refs[k][:len(refs[k])-1]), wire(refs[k]))
		}
		cr := freshProcess(x, p.InitSeed, ChildReq{Kind: "lsp", Seed: 1, Wires: ws})
		for j := 0; j < len(refs); j++ {
			cmp(len(refs)-1-j, cr.Outs[2*j+1], len(cr.Outs[2*j]))
		}
		return
	}
	for k := range refs {
		rc := feed(x, refs[k])
		r := runServer(x, "lsp", rc, nil).alive(x, "fresh server")
		cmp(k, r.Out, rc.outs[len(refs[k])-1])
	}
}

func init() {
	register(&Prop{
		ID: "P09", Level: "exploration",
		Rule:      "sessions with one or more initialize requests carrying every combination of present, absent, true and false options, and the same document requests under each setting, compared with reference sessions that have both, one or no hint kind enabled; non-trivial: some option set and a request answered",
		StateRule: "hash of (settings in force, method)",
		Quick:     80000, Thorough: 2400000, Chunk: 200,
		Real: realLsp, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			g := newLspGen(r)
			g.uris = []string{"file:///a.teal"}
			if r.Bool(9, 10) {
				g.initialize()
			}
			text := genText(r, r.Intn(10))
			// lines with known hints
			canary := []string{"txn 0", "byte 0x6b6f616c61", "refd:", "b refd"}
			for _, k := range canary {
				if r.Bool(3, 4) {
					text += "\n" + k
				}
			}
			g.open(g.uris[0], "#pragma version 8\n"+text)
			n := 2 + r.Intn(10)
			for i := 0; i < n; i++ {
				switch r.Intn(6) {
				case 0:
					p := obj{"capabilities": obj{}}
					if r.Bool(4, 5) {
						p["initializationOptions"] = genOptions(r)
					}
					g.req("initialize", p)
				case 1:
					m := "textDocument/inlayHint"
					g.req(m, obj{"textDocument": obj{"uri": g.uris[0]}, "range": obj{"start": obj{"line": 0, "character": 0}, "end": obj{"line": 10000, "character": 100000}}})
				case 2:
					g.req("textDocument/codeLens", obj{"textDocument": obj{"uri": g.uris[0]}})
				case 3:
					g.change(g.uris[0], editText(r, g.docs[g.uris[0]]))
				default:
					g.docReqFor(g.uris[0])
				}
			}
			return &Plan{Ops: g.ops}
		},
		Run: runP09,
	})
}

func runP09(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	resp := func(ops []Op, what string) map[int]*Msg {
		c := feed(x, ops)
		r := runServer(x, "lsp", c, nil).alive(x, what)
		r.frames(x, what)
		out := map[int]*Msg{}
		for i := range ops {
			hi := len(r.Out)
			if i+1 < len(c.outs) {
				hi = c.outs[i+1]
			}
			fs, _, _ := parseFrames(r.Out[c.outs[i]:hi])
			for _, f := range fs {
				if m, err := parseMsg(f); err == nil && m.Method == "" {
					out[i] = m
				}
			}
		}
		return out
	}
	// the same session under fixed settings
	fixed := func(named, decoded bool) map[int]*Msg {
		o := obj{"semanticTokens": true, "inlayNamed": named, "inlayDecoded": decoded, "lensRefs": true}
		init := func(id any) Op {
			return Op{K: "req", J: jstr(obj{"jsonrpc": "2.0", "id": id, "method": "initialize", "params": obj{"capabilities": obj{}, "initializationOptions": o}})}
		}
		ops := []Op{init("first")}
		for _, op := range ms {
			if m := parseIn(op.J); m.method() == "initialize" {
				op = init(m.ID)
			}
			ops = append(ops, op)
		}
		out := map[int]*Msg{}
		for i, m := range resp(ops, "fixed settings") {
			out[i-1] = m
		}
		return out
	}
	got := resp(ms, "session")
	all, nm, dc, none := fixed(true, true), fixed(true, false), fixed(false, true), fixed(false, false)
	set := map[string]bool{"semanticTokens": true, "inlayNamed": true, "inlayDecoded": true, "lensRefs": true}
	s := newLspModel()
	x.Trivial = true
	for i, o := range ms {
		m := parseIn(o.J)
		s.apply(m)
		for _, n := range optionNames {
			if v, ok := s.opts[n].(bool); ok {
				set[n] = v
				x.Trivial = false
			}
		}
		if o.K != "req" {
			continue
		}
		g, a := got[i], all[i]
		if g == nil || a == nil {
			x.fail("missing", "no response to %s", short(o.J, 200))
		}
		x.state(set["semanticTokens"], set["inlayNamed"], set["inlayDecoded"], set["lensRefs"], m.method())
		same := func(w *Msg, why string) {
			if string(g.Result) != string(w.Result) || string(g.Error) != string(w.Error) {
				x.fail("settings", "%s (%s) with settings %v: %s", m.method(), why, set, diffAt(w.Raw, g.Raw))
			}
		}
		switch m.method() {
		case "initialize":
			caps := dig(decode(string(g.Result)), "capabilities")
			gc, ok := caps.(map[string]any)
			if !ok {
				x.fail("settings", "no capabilities: %s", short(g.Raw, 300))
			}
			if _, on := gc["semanticTokensProvider"]; on != set["semanticTokens"] {
				x.fail("settings", "semanticTokensProvider advertised: %v, settings %v", on, set)
			}
			ih, _ := gc["inlayHintProvider"].(bool)
			if ih != (set["inlayNamed"] || set["inlayDecoded"]) {
				x.fail("settings", "inlayHintProvider advertised: %v, settings %v", ih, set)
			}
			ac, _ := dig(decode(string(a.Result)), "capabilities").(map[string]any)
			for _, k := range []string{"semanticTokensProvider", "inlayHintProvider"} {
				delete(gc, k)
				delete(ac, k)
			}
			if !reflect.DeepEqual(gc, ac) {
				x.fail("settings", "settings %v change other capabilities: %s", set, diffAt(jstr(ac), jstr(gc)))
			}
		case "textDocument/inlayHint":
			switch {
			case set["inlayNamed"] && set["inlayDecoded"]:
				same(a, "both kinds on")
			case set["inlayNamed"]:
				same(nm[i], "named hints only")
			case set["inlayDecoded"]:
				same(dc[i], "decoded hints only")
			default:
				same(none[i], "no hints")
			}
			ha, hn, hd, h0 := hints(a), hints(nm[i]), hints(dc[i]), hints(none[i])
			if len(h0) != 0 {
				x.fail("settings", "hints with both kinds off: %s", short(none[i].Raw, 300))
			}
			un := map[string]int{}
			for k, v := range hn {
				un[k] += v
			}
			for k, v := range hd {
				un[k] += v
			}
			if !reflect.DeepEqual(ha, un) && (len(ha) > 0 || len(un) > 0) {
				x.fail("settings", "hints of both kinds together differ from the two kinds: %v, %v + %v", ha, hn, hd)
			}
			// which kind is which
			uri := target(m)
			full := dig(m.Params, "range", "end", "line") == float64(10000)
			for ln, l := range splitLines(s.docs[uri]) {
				if !full {
					break
				}
				key := func(label string) string {
					return jstr(obj{"l": ln, "label": label})
				}
				switch l {
				case "txn 0":
					if hn[key("Sender")] != 1 || hd[key("Sender")] != 0 {
						x.fail("settings", "the named hint for %q (line %d): with named on %d, with decoded on %d", l, ln, hn[key("Sender")], hd[key("Sender")])
					}
					x.probe("named_hint_seen")
				case "byte 0x6b6f616c61":
					if hd[key("koala")] != 1 || hn[key("koala")] != 0 {
						x.fail("settings", "the decoded hint for %q (line %d): with decoded on %d, with named on %d", l, ln, hd[key("koala")], hn[key("koala")])
					}
					x.probe("decoded_hint_seen")
				}
			}
		case "textDocument/codeLens":
			if set["lensRefs"] {
				same(a, "lenses on")
				text := s.docs[target(m)]
				if strings.Contains(text, "\nrefd:\nb refd") && string(a.Result) == "null" {
					x.fail("settings", "no lens for a referenced label with lenses on")
				}
			} else if v := decode(string(g.Result)); v != nil {
				if l, ok := v.([]any); !ok || len(l) > 0 {
					x.fail("settings", "lenses with the option off: %s", short(g.Raw, 300))
				}
			}
		case "textDocument/semanticTokens/full":
			if set["semanticTokens"] {
				same(a, "semantic tokens on")
			}
		default:
			same(a, "unrelated request")
		}
	}
}

func hints(m *Msg) map[string]int {
	out := map[string]int{}
	if m == nil {
		return out
	}
	l, _ := decode(string(m.Result)).([]any)
	for _, h := range l {
		ln, _ := dig(h, "position", "line").(float64)
		out[jstr(obj{"l": int(ln), "label": digs(h, "label")})]++
	}
	return out
}
