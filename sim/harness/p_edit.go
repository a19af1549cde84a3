//go:build go1.22

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal/verifsim/simrt"
)

// client is an interactive simulated client: next is called whenever the server
// waits for input, with the frames written since the last call.
func interact(x *X, kind string, cuts func(int) int, next func(frames []string) (msg []byte, ok bool)) *Res {
	c := newConn(x, nil)
	c.cuts = cuts
	seen := 0
	c.more = func() bool {
		ok := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(stopRun); !is {
						panic(r)
					}
				}
			}()
			fs, rest, err := parseFrames(string(c.out.Bytes()[seen:]))
			if err != nil || rest != "" {
				x.fail("framing", "waiting with bad or partial output: %v %q", err, short(rest, 200))
			}
			seen = c.out.Len()
			c.buf, ok = next(fs)
		}()
		if x.V != nil {
			simrt.Stop()
		}
		return ok
	}
	res := runServer(x, kind, c, nil)
	x.check()
	return res.alive(x, "session")
}

// occ is an occurrence of a label in a text, in UTF-16 units.
type occ struct {
	line, b, e int
	name       string
	def        bool
}

var labelOps = map[string]int{"b": 1, "bz": 1, "bnz": 1, "callsub": 1, "switch": -1, "match": -1}

// occurrences is the reference reading of a program's labels.
func occurrences(text string) []occ {
	var out []occ
	for li, ln := range splitLines(text) {
		type tok struct {
			s    string
			b, e int
		}
		var toks []tok
		rs := []rune(ln)
		col := 0
		w := func(r rune) int {
			if r >= 0x10000 {
				return 2
			}
			return 1
		}
		for i := 0; i < len(rs); {
			r := rs[i]
			if r == ' ' || r == '\t' {
				col++
				i++
				continue
			}
			if r == '/' && i+1 < len(rs) && rs[i+1] == '/' {
				break
			}
			b, st := col, i
			if r == '"' {
				i++
				col++
				for i < len(rs) {
					if rs[i] == '\\' && i+1 < len(rs) {
						col += w(rs[i]) + w(rs[i+1])
						i += 2
						continue
					}
					col += w(rs[i])
					i++
					if rs[i-1] == '"' {
						break
					}
				}
			} else {
				for i < len(rs) && rs[i] != ' ' && rs[i] != '\t' {
					col += w(rs[i])
					i++
				}
			}
			toks = append(toks, tok{string(rs[st:i]), b, col})
		}
		if len(toks) == 0 {
			continue
		}
		if t := toks[0]; strings.HasSuffix(t.s, ":") {
			out = append(out, occ{li, t.b, t.e - 1, strings.TrimSuffix(t.s, ":"), true})
			continue
		}
		n, ok := labelOps[toks[0].s]
		if !ok {
			continue
		}
		for i, t := range toks[1:] {
			if n >= 0 && i >= n {
				break
			}
			out = append(out, occ{li, t.b, t.e, t.s, false})
		}
	}
	return out
}

// genLabelText makes a program in which the reference reading is beyond doubt.
func genLabelText(r *Rand, n int) string {
	var labels []string
	for i := 0; i < 1+r.Intn(5); i++ {
		l := pick(r, labelPool)
		if l == "x:y" {
			l = "x_y"
		}
		labels = append(labels, l)
	}
	l := func() string { return pick(r, labels) }
	ws := func() string { return pick(r, wsPool) }
	st := r.Intn(3)
	var b strings.Builder
	fmt.Fprintf(&b, "#pragma version %d", 8+r.Intn(3))
	b.WriteString(genEol(r, st))
	for i := 0; i < n; i++ {
		if r.Bool(1, 4) {
			b.WriteString(pick(r, []string{" ", "\t", "  "}))
		}
		switch r.Intn(16) {
		case 0, 1, 2, 3:
			b.WriteString(l() + ":")
		case 4:
			b.WriteString("b " + l())
		case 5:
			b.WriteString("bnz" + ws() + l())
		case 6:
			b.WriteString("bz " + l())
		case 7:
			b.WriteString("callsub" + ws() + l())
		case 8:
			b.WriteString("switch" + ws() + l() + ws() + l() + ws() + l())
			if r.Bool(1, 8) {
				for j := r.Intn(40); j > 0; j-- {
					b.WriteString(ws() + l())
				}
			}
		case 9:
			b.WriteString("match " + l() + ws() + l())
			if r.Bool(1, 8) {
				for j := r.Intn(40); j > 0; j-- {
					b.WriteString(ws() + l())
				}
			}
		case 10:
			b.WriteString(`byte "` + l() + `: b ` + l() + ` é😀"`)
		case 11:
			b.WriteString("// " + l() + ": b " + l())
		case 12:
			b.WriteString(`byte "\"` + l() + `" // ` + l() + `:`)
		default:
			b.WriteString(pick(r, []string{"int 1", "pop", "return", "retsub", "", "int 1 // b a", "txn Sender", "proto 1 1", "assert", "err", "\x00", "int \x00"}))
		}
		if r.Bool(1, 5) {
			b.WriteString(ws() + pick(r, []string{"// 😀 ", "// 😀 ", "// 😀 ", "// \x00 ", "// \u00a0\u2028\ufeff "}) + l() + ": " + l())
		} else if r.Bool(1, 8) {
			b.WriteString(ws())
		}
		if i < n-1 || r.Bool(2, 3) {
			b.WriteString(genEol(r, st))
		}
	}
	return b.String()
}

// editLabelText is an edit within the class of genLabelText.
func editLabelText(r *Rand, s string) string {
	eol := "\n"
	if strings.Contains(s, "\r\n") {
		eol = "\r\n"
	}
	ls := strings.Split(s, eol)
	line := func() string {
		t := splitLines(genLabelText(r, 1))
		return t[1]
	}
	i := r.Intn(len(ls))
	if i == 0 && len(ls) > 1 {
		i = 1
	}
	switch r.Intn(5) {
	case 0:
		return genLabelText(r, r.Intn(10))
	case 1:
		return strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), eol)
	case 2:
		j := r.Intn(len(ls))
		if i > 0 && j > 0 {
			ls[i], ls[j] = ls[j], ls[i]
		}
		return strings.Join(ls, eol)
	case 3:
		ls[i] = line()
		return strings.Join(ls, eol)
	}
	out := append(append([]string{}, ls[:i]...), line())
	return strings.Join(append(out, ls[i:]...), eol)
}

type pos struct {
	Line int `json:"line"`
	Char int `json:"character"`
}
type rng struct {
	Start pos `json:"start"`
	End   pos `json:"end"`
}
type textEdit struct {
	Range   rng    `json:"range"`
	NewText string `json:"newText"`
}

// byteAt converts an LSP position to a byte offset, as a client would.
func byteAt(text string, p pos) int {
	off, li := 0, 0
	for li < p.Line {
		i := strings.IndexAny(text[off:], "\r\n")
		if i < 0 {
			return len(text)
		}
		off += i + 1
		if text[off-1] == '\r' && off < len(text) && text[off] == '\n' {
			off++
		}
		li++
	}
	col := 0
	for i, r := range text[off:] {
		if col >= p.Char || r == '\n' || r == '\r' {
			return off + i
		}
		col++
		if r >= 0x10000 {
			col++
			if col > p.Char {
				return off + i // inside a surrogate pair
			}
		}
	}
	return len(text)
}

// applyEdits applies edits the way a client does; overlapping edits are an error.
func applyEdits(text string, es []textEdit) (string, error) {
	type span struct {
		a, b int
		s    string
	}
	var ss []span
	for _, e := range es {
		a, b := byteAt(text, e.Range.Start), byteAt(text, e.Range.End)
		if a > b {
			return "", fmt.Errorf("range ends before it starts: %v", e.Range)
		}
		ss = append(ss, span{a, b, e.NewText})
	}
	sort.SliceStable(ss, func(i, j int) bool { return ss[i].a < ss[j].a })
	var sb strings.Builder
	at := 0
	for _, s := range ss {
		if s.a < at {
			return "", fmt.Errorf("overlapping edits")
		}
		sb.WriteString(text[at:s.a])
		sb.WriteString(s.s)
		at = s.b
	}
	sb.WriteString(text[at:])
	return sb.String(), nil
}

// rewriteLabels is the reference rename.
func rewriteLabels(text, from, to string) string {
	var es []textEdit
	for _, o := range occurrences(text) {
		if o.name == from {
			es = append(es, textEdit{rng{pos{o.line, o.b}, pos{o.line, o.e}}, to})
		}
	}
	t, _ := applyEdits(text, es)
	return t
}

func init() {
	register(&Prop{
		ID: "P07", Level: "exploration",
		Rule:      "a history of opens, changes, closes and queries over documents with generated labels (non-ASCII names, duplicates, undefined ones, names in comments and strings, CRLF), in which the client sends rename, highlight, definition, prepareRename and symbol requests on chosen occurrences, applies the returned edits and sends the new text; every answer is compared with a reference reading of the text; non-trivial: at least one occurrence queried",
		StateRule: "hash of (method, occurrence kind, number of definitions and uses, non-ASCII before it, whether the text came from an applied rename)",
		Quick:     300000, Thorough: 9000000, Chunk: 300,
		Real: realLsp, Stub: stubIO + "; the editor applying the edits",
		Gen: func(r *Rand) *Plan {
			p := &Plan{}
			docs := map[string]string{}
			uris := uriPool[:1+r.Intn(2)]
			for _, u := range uris {
				t := genLabelText(r, 1+r.Intn(12))
				docs[u] = t
				p.Ops = append(p.Ops, Op{K: "open", S: u, J: t})
			}
			n := 2 + r.Intn(12)
			for i := 0; i < n; i++ {
				u := pick(r, uris)
				switch r.Intn(10) {
				case 0:
					docs[u] = editLabelText(r, docs[u])
					p.Ops = append(p.Ops, Op{K: "change", S: u, J: docs[u]})
				case 1:
					if r.Bool(1, 3) {
						p.Ops = append(p.Ops, Op{K: "close", S: u}, Op{K: "open", S: u, J: docs[u]})
					} else {
						g := newLspGen(r)
						g.open("file:///z.teal", "int 1")
						g.bad()
						p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
					}
				case 2, 3, 4:
					name := pick(r, []string{"fresh", "naïve", "😀🎉", "n_1", "Z"}) + fmt.Sprint(i)
					if r.Bool(1, 12) {
						name = pick(r, []string{"", "a b", "a\tb", "a\nb", "// a", "a ", "\n", "a\r", " ", "a //"})
					}
					p.Ops = append(p.Ops, Op{K: "rename", S: u, H: name, A: []int{r.Intn(1 << 20), r.Intn(1 << 20)}})
				case 5:
					p.Ops = append(p.Ops, Op{K: "symbols", S: u})
				default:
					p.Ops = append(p.Ops, Op{K: pick(r, []string{"highlight", "definition", "prepare", "everywhere"}), S: u, A: []int{r.Intn(1 << 20), r.Intn(1 << 20)}})
				}
			}
			for _, u := range uris {
				p.Ops = append(p.Ops, Op{K: "symbols", S: u})
			}
			return p
		},
		Run: runP07,
	})
}

func rngs(v any) []rng {
	var out []rng
	b, _ := json.Marshal(v)
	json.Unmarshal(b, &out)
	return out
}

func sortRngs(rs []rng) []rng {
	sort.Slice(rs, func(i, j int) bool {
		a, b := rs[i], rs[j]
		if a.Start != b.Start {
			return a.Start.Line < b.Start.Line || (a.Start.Line == b.Start.Line && a.Start.Char < b.Start.Char)
		}
		return a.End.Line < b.End.Line || (a.End.Line == b.End.Line && a.End.Char < b.End.Char)
	})
	return rs
}

func runP07(p *Plan, x *X) {
	docs := map[string]string{}
	renamed := map[string]bool{}
	id := 0
	var queue [][]byte
	var pending func(fs []string)
	i := 0
	x.Trivial = true
	var result func(fs []string) *Msg
	send := func(m obj) []byte {
		m["jsonrpc"] = "2.0"
		return frame(jstr(m), "")
	}
	req := func(method string, params obj, check func(fs []string)) []byte {
		id++
		my := id
		pending = check
		result = func(fs []string) *Msg {
			if len(fs) != 1 {
				x.fail("reply", "%s: %d messages", method, len(fs))
			}
			m, err := parseMsg(fs[0])
			if err != nil || m.has("error") || fmt.Sprint(m.ID) != fmt.Sprint(my) {
				x.fail("reply", "%s %s failed: %s", method, short(jstr(params), 200), short(fs[0], 300))
			}
			return m
		}
		return send(obj{"id": id, "method": method, "params": params})
	}
	textDoc := func(u string) obj { return obj{"uri": u} }
	next := func(fs []string) ([]byte, bool) {
		if pending != nil {
			f := pending
			pending = nil
			f(fs)
		}
		for {
			if len(queue) > 0 {
				m := queue[0]
				queue = queue[1:]
				return m, true
			}
			if i == len(p.Ops) {
				return nil, false
			}
			o := p.Ops[i]
			i++
			u := o.S
			text, open := docs[u]
			switch o.K {
			case "bad":
				return o.wire(), true
			case "open":
				docs[u] = o.J
				return send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": o.J}}}), true
			case "change":
				docs[u] = o.J
				renamed[u] = false
				return send(obj{"method": "textDocument/didChange", "params": obj{"textDocument": textDoc(u), "contentChanges": []any{obj{"text": o.J}}}}), true
			case "close":
				delete(docs, u)
				return send(obj{"method": "textDocument/didClose", "params": obj{"textDocument": textDoc(u)}}), true
			}
			if !open {
				continue
			}
			occs := occurrences(text)
			if o.K == "symbols" {
				return req("textDocument/documentSymbol", obj{"textDocument": textDoc(u)}, func(fs []string) {
					var got []struct {
						Name  string `json:"name"`
						Range rng    `json:"range"`
					}
					m := result(fs)
					if json.Unmarshal(m.Result, &got) != nil {
						x.fail("symbols", "not a list of symbols: %s", short(m.Raw, 300))
					}
					type s struct {
						name string
						p    pos
					}
					var a, b []s
					for _, g := range got {
						a = append(a, s{g.Name, g.Range.Start})
					}
					for _, o := range occs {
						if o.def {
							b = append(b, s{o.name, pos{o.line, o.b}})
						}
					}
					sort.Slice(a, func(i, j int) bool {
						return a[i].p.Line < a[j].p.Line || (a[i].p.Line == a[j].p.Line && a[i].p.Char < a[j].p.Char)
					})
					if !reflect.DeepEqual(a, b) {
						x.fail("symbols", "labels of %q: expected %v, got %v", text, b, a)
					}
					x.state("symbols", len(b), renamed[u])
				}), true
			}
			if len(occs) == 0 {
				continue
			}
			at := occs[o.A[0]%len(occs)]
			p := pos{at.line, at.b + o.A[1]%(at.e-at.b+1)}
			params := obj{"textDocument": textDoc(u), "position": p}
			var defs, all []rng
			uses := 0
			for _, q := range occs {
				if q.name == at.name {
					r := rng{pos{q.line, q.b}, pos{q.line, q.e}}
					all = append(all, r)
					if q.def {
						defs = append(defs, r)
					} else {
						uses++
					}
				}
			}
			x.Trivial = false
			ln := splitLines(text)[at.line]
			x.state(o.K, at.def, len(defs), uses, u16len(ln) != len(ln), renamed[u])
			switch o.K {
			case "rename":
				params["newName"] = o.H
				if o.H == "" || strings.ContainsAny(o.H, " \t\r\n") {
					return req("textDocument/rename", params, func(fs []string) {
						for _, f := range fs {
							if dig(decode(f), "error") == nil {
								x.fail("rename", "renaming %q to %q, which cannot be a label, in %q is not refused: %s", at.name, o.H, text, short(f, 300))
							}
						}
						x.probe("bad_names_refused")
					}), true
				}
				return req("textDocument/rename", params, func(fs []string) {
					m := result(fs)
					var r struct {
						Changes         map[string][]textEdit `json:"changes"`
						DocumentChanges []struct {
							TextDocument struct {
								Uri string `json:"uri"`
							} `json:"textDocument"`
							Edits []textEdit `json:"edits"`
						} `json:"documentChanges"`
					}
					if json.Unmarshal(m.Result, &r) != nil {
						x.fail("rename", "not a workspace edit: %s", short(m.Raw, 300))
					}
					var es []textEdit
					if len(r.DocumentChanges) > 0 {
						for _, d := range r.DocumentChanges {
							if d.TextDocument.Uri != u && len(d.Edits) > 0 {
								x.fail("rename", "edits in another document: %s", short(m.Raw, 300))
							}
							es = append(es, d.Edits...)
						}
					} else {
						for k, v := range r.Changes {
							if k != u && len(v) > 0 {
								x.fail("rename", "edits in another document: %s", short(m.Raw, 300))
							}
							es = append(es, v...)
						}
					}
					got, err := applyEdits(text, es)
					if err != nil {
						x.fail("rename", "renaming %q at %v in %q: %v", at.name, p, text, err)
					}
					want := rewriteLabels(text, at.name, o.H)
					if got != want {
						x.fail("rename", "renaming %q at %v to %q in %q gives %q, expected %q", at.name, p, o.H, text, got, want)
					}
					docs[u] = got
					renamed[u] = true
					x.probe("renames_applied")
					queue = append(queue, send(obj{"method": "textDocument/didChange", "params": obj{"textDocument": textDoc(u), "contentChanges": []any{obj{"text": got}}}}))
				}), true
			case "highlight":
				return req("textDocument/documentHighlight", params, func(fs []string) {
					m := result(fs)
					var hs []struct {
						Range rng `json:"range"`
					}
					json.Unmarshal(m.Result, &hs)
					var got []rng
					for _, h := range hs {
						got = append(got, h.Range)
					}
					if !reflect.DeepEqual(sortRngs(got), sortRngs(all)) {
						x.fail("highlight", "occurrences of %q (at %v) in %q: expected %v, got %v", at.name, p, text, all, got)
					}
				}), true
			case "definition":
				return req("textDocument/definition", params, func(fs []string) {
					m := result(fs)
					var hs []struct {
						Uri   string `json:"uri"`
						Range rng    `json:"range"`
					}
					json.Unmarshal(m.Result, &hs)
					var got []rng
					for _, h := range hs {
						if h.Uri != u {
							x.fail("definition", "a definition in another document: %s", short(m.Raw, 300))
						}
						got = append(got, h.Range)
					}
					if len(got) == 0 && at.def {
						return
					}
					if !reflect.DeepEqual(sortRngs(got), sortRngs(defs)) {
						x.fail("definition", "definitions of %q (at %v) in %q: expected %v, got %v", at.name, p, text, defs, got)
					}
				}), true
			case "prepare":
				return req("textDocument/prepareRename", params, func(fs []string) {
					m := result(fs)
					var h struct {
						Range       *rng   `json:"range"`
						Placeholder string `json:"placeholder"`
					}
					json.Unmarshal(m.Result, &h)
					want := rng{pos{at.line, at.b}, pos{at.line, at.e}}
					if h.Range == nil || *h.Range != want || h.Placeholder != at.name {
						x.fail("prepare", "%q at %v in %q: expected %v, got %s", at.name, p, text, want, short(m.Raw, 300))
					}
				}), true
			case "everywhere":
				// a position outside every occurrence must not rename anything
				rs := splitLines(text)
				li := o.A[0] % len(rs)
				q := pos{li, o.A[1] % (u16len(rs[li]) + 1)}
				hit := false
				for _, c := range occs {
					// the colon of a definition belongs to its token
					e := c.e
					if c.def {
						e++
					}
					if c.line == q.Line && q.Char >= c.b && q.Char <= e {
						hit = true
					}
				}
				if hit {
					continue
				}
				params["position"] = q
				params["newName"] = "nothing"
				return req("textDocument/rename", params, func(fs []string) {
					m := result(fs)
					if strings.Contains(string(m.Result), "nothing") {
						x.fail("rename", "rename at %v, where there is no label, in %q: %s", q, text, short(m.Raw, 300))
					}
				}), true
			}
		}
	}
	interact(x, "lsp", nil, next)
}

// hexBytes decodes a TEAL string literal.
func literalBytes(s string) (string, bool) {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "", false
	}
	s = s[1 : len(s)-1]
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			return "", false
		}
		if s[i] != '\\' {
			b = append(b, s[i])
			continue
		}
		i++
		if i >= len(s) {
			return "", false
		}
		switch s[i] {
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case '\\', '"':
			b = append(b, s[i])
		case 'x':
			if i+2 >= len(s)+0 && i+2 > len(s)-1 {
				return "", false
			}
			v, err := hex.DecodeString(s[i+1 : i+3])
			if err != nil {
				return "", false
			}
			b = append(b, v...)
			i += 2
		default:
			return "", false
		}
	}
	return string(b), true
}

func init() {
	register(&Prop{
		ID: "P08", Level: "exploration",
		Rule:      "a document (generated text with unclosed strings, odd runes and CRLF excluded only where noted) is opened after an edit history; the client repeatedly asks for code actions, executes a seeded one, applies the server's applyEdit request, answers it, sends the new text and asks again, up to a bound; each applied fix is compared with a reference edit; non-trivial: at least one fix applied",
		StateRule: "hash of (command, title class, diagnostics before and after)",
		Quick:     300000, Thorough: 9000000, Chunk: 200,
		Real: realLsp, Stub: stubIO + "; the editor applying the edits",
		Gen: func(r *Rand) *Plan {
			p := &Plan{}
			u := pick(r, uriPool)
			for i := 0; i < r.Intn(3); i++ {
				p.Ops = append(p.Ops, Op{K: "open", S: u, J: genText(r, r.Intn(8))})
			}
			var t string
			if r.Bool(1, 2) {
				t = genLabelText(r, r.Intn(12))
			} else {
				t = genText(r, r.Intn(12))
			}
			// no lone carriage returns: removing a line next to one may join it with a line feed
			t = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(t, "\r\n", "\x01"), "\r", "\n"), "\x01", "\r\n")
			p.Ops = append(p.Ops, Op{K: "open", S: u, J: t})
			for i := 0; i < 2+r.Intn(20); i++ {
				a := 0
				if r.Bool(1, 8) {
					a = 1 // forget the answer to applyEdit
				}
				switch r.Intn(12) {
				case 0:
					p.Ops = append(p.Ops, Op{K: "edit", S: genLine(r, genLabels(r)), A: []int{r.Intn(1 << 20)}})
				case 1:
					g := newLspGen(r)
					g.open("file:///z.teal", "int 1")
					g.bad()
					p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
				default:
					p.Ops = append(p.Ops, Op{K: "fix", A: []int{r.Intn(1 << 20), a}})
				}
			}
			return p
		},
		Run: runP08,
	})
}

type action struct {
	Title   string `json:"title"`
	Command struct {
		Command   string            `json:"command"`
		Arguments []json.RawMessage `json:"arguments"`
	} `json:"command"`
}

func runP08(p *Plan, x *X) {
	var u, text string
	open := false
	id := 0
	i := 0
	x.Trivial = true
	send := func(m obj) []byte {
		m["jsonrpc"] = "2.0"
		return frame(jstr(m), "")
	}
	change := func() []byte {
		return send(obj{"method": "textDocument/didChange", "params": obj{"textDocument": obj{"uri": u}, "contentChanges": []any{obj{"text": text}}}})
	}
	var state func(fs []string) []byte
	one := func(fs []string, what string) *Msg {
		if len(fs) != 1 {
			x.fail("reply", "%s: %d messages: %v", what, len(fs), fs)
		}
		m, err := parseMsg(fs[0])
		if err != nil || !m.has("result") || fmt.Sprint(m.ID) != fmt.Sprint(id) {
			x.fail("reply", "%s: %s", what, short(fs[0], 300))
		}
		return m
	}
	ask := func(then func(as []action) []byte) []byte {
		id++
		state = func(fs []string) []byte {
			m := one(fs, "codeAction")
			var as []action
			if json.Unmarshal(m.Result, &as) != nil {
				x.fail("reply", "not a list of actions: %s", short(m.Raw, 300))
			}
			return then(as)
		}
		return send(obj{"id": id, "method": "textDocument/codeAction", "params": obj{"textDocument": obj{"uri": u}, "range": obj{"start": pos{0, 0}, "end": pos{len(splitLines(text)) + 1, 1 << 20}}, "context": obj{"diagnostics": []any{}}}})
	}
	seen := map[string]bool{}
	count := func(as []action, a action) int {
		n := 0
		for _, b := range as {
			if b.Title == a.Title && jstr(b.Command) == jstr(a.Command) {
				n++
			}
		}
		return n
	}
	runFix := func(o Op) []byte {
		return ask(func(as []action) []byte {
			if len(as) == 0 {
				return nil
			}
			// a version pragma that is not the first instruction is outside the property
			var cs []action
			for _, a := range as {
				if a.Command.Command == "teal.version.update" && strings.Contains(text, "version") && !pragmaFirst(text) {
					continue
				}
				cs = append(cs, a)
			}
			if len(cs) == 0 {
				return nil
			}
			a := cs[o.A[0]%len(cs)]
			x.Trivial = false
			id++
			state = func(fs []string) []byte {
				if len(fs) != 2 {
					x.fail("edits", "executing %s of %q: %d messages", jstr(a), text, len(fs))
				}
				var es []textEdit
				var srv any
				resp := 0
				for _, f := range fs {
					m, err := parseMsg(f)
					if err != nil {
						x.fail("reply", "%s", short(f, 200))
					}
					if m.Method == "" {
						if !m.has("result") || fmt.Sprint(m.ID) != fmt.Sprint(id) {
							x.fail("refused", "executing %s of %q: %s", jstr(a), text, short(f, 300))
						}
						resp++
						continue
					}
					if m.Method != "workspace/applyEdit" || !m.has("id") {
						x.fail("edits", "executing %s: unexpected %s", jstr(a), short(f, 200))
					}
					srv = m.ID
					var ps struct {
						Edit struct {
							Changes         map[string][]textEdit `json:"changes"`
							DocumentChanges []struct {
								TextDocument struct {
									Uri string `json:"uri"`
								} `json:"textDocument"`
								Edits []textEdit `json:"edits"`
							} `json:"documentChanges"`
						} `json:"edit"`
					}
					if json.Unmarshal(m.Params, &ps) != nil {
						x.fail("edits", "bad applyEdit: %s", short(f, 300))
					}
					for _, d := range ps.Edit.DocumentChanges {
						if d.TextDocument.Uri != u {
							x.fail("edits", "edits another document: %s", short(f, 300))
						}
						es = append(es, d.Edits...)
					}
					for k, v := range ps.Edit.Changes {
						if k != u {
							x.fail("edits", "edits another document: %s", short(f, 300))
						}
						es = append(es, v...)
					}
				}
				if resp != 1 || srv == nil {
					x.fail("edits", "executing %s: expected one applyEdit and one response: %v", jstr(a), fs)
				}
				old := text
				nt, err := applyEdits(old, es)
				if err != nil {
					x.fail("edits", "executing %s of %q: %v", jstr(a), old, err)
				}
				class := judgeFix(x, a, old, nt)
				x.probe("fix_" + class)
				x.state(a.Command.Command, class, len(as))
				text = nt
				if seen[text] {
					x.fail("cycle", "applying fixes returned to an earlier text: %q after %s", text, jstr(a))
				}
				seen[text] = true
				var pre []byte
				if o.A[1] == 0 {
					pre = send(obj{"id": srv, "result": obj{"applied": true}})
				}
				pre = append(pre, change()...)
				before := count(as, a)
				return append(pre, ask(func(bs []action) []byte {
					// the problem is gone
					switch class {
					case "line":
						if strings.HasPrefix(a.Title, "Remove label '") {
							n, k := 0, 0
							for _, b := range as {
								if b.Title == a.Title {
									n++
								}
							}
							for _, b := range bs {
								if b.Title == a.Title {
									k++
								}
							}
							if k >= n {
								x.fail("remains", "%s is still offered after it was applied (%q -> %q)", jstr(a), old, text)
							}
						}
					case "label":
						if n := count(bs, a); n > 0 {
							x.fail("remains", "%s is still offered after it was applied (%q -> %q)", jstr(a), old, text)
						}
					case "value", "version":
						if n := count(bs, a); n >= before {
							x.fail("remains", "%s is still offered after it was applied (%q -> %q)", jstr(a), old, text)
						}
					}
					return nil
				})...)
			}
			cmd := obj{"command": a.Command.Command}
			if a.Command.Arguments != nil {
				cmd["arguments"] = a.Command.Arguments
			}
			return send(obj{"id": id, "method": "workspace/executeCommand", "params": cmd})
		})
	}
	next := func(fs []string) ([]byte, bool) {
		if state != nil {
			f := state
			state = nil
			if m := f(fs); m != nil {
				return m, true
			}
		}
		for i < len(p.Ops) {
			o := p.Ops[i]
			i++
			switch o.K {
			case "bad":
				return o.wire(), true
			case "open":
				u, text = o.S, o.J
				open = true
				seen = map[string]bool{text: true}
				return send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": text}}}), true
			case "edit":
				if !open {
					continue
				}
				ls := strings.Split(text, "\n")
				k := o.A[0] % (len(ls) + 1)
				out := append([]string{}, ls[:k]...)
				out = append(out, o.S)
				text = strings.Join(append(out, ls[k:]...), "\n")
				seen = map[string]bool{text: true}
				return change(), true
			case "fix":
				if open {
					return runFix(o), true
				}
			}
		}
		return nil, false
	}
	interact(x, "lsp", nil, next)
}

// Names whose numbers the AVM fixes.
var txnNames = strings.Fields("Sender Fee FirstValid FirstValidTime LastValid Note Lease Receiver Amount CloseRemainderTo VotePK SelectionPK VoteFirst VoteLast VoteKeyDilution Type TypeEnum XferAsset AssetAmount AssetSender AssetReceiver AssetCloseTo GroupIndex TxID ApplicationID OnCompletion ApplicationArgs NumAppArgs Accounts NumAccounts ApprovalProgram ClearStateProgram RekeyTo ConfigAsset ConfigAssetTotal ConfigAssetDecimals ConfigAssetDefaultFrozen ConfigAssetUnitName ConfigAssetName ConfigAssetURL ConfigAssetMetadataHash ConfigAssetManager ConfigAssetReserve ConfigAssetFreeze ConfigAssetClawback FreezeAsset FreezeAssetAccount FreezeAssetFrozen Assets NumAssets Applications NumApplications GlobalNumUint GlobalNumByteSlice LocalNumUint LocalNumByteSlice ExtraProgramPages Nonparticipation Logs NumLogs CreatedAssetID CreatedApplicationID LastLog StateProofPK")

var avmNames = map[string][]string{
	"global":            strings.Fields("MinTxnFee MinBalance MaxTxnLife ZeroAddress GroupSize LogicSigVersion Round LatestTimestamp CurrentApplicationID CreatorAddress CurrentApplicationAddress GroupID OpcodeBudget CallerApplicationID CallerApplicationAddress"),
	"asset_params_get":  strings.Fields("AssetTotal AssetDecimals AssetDefaultFrozen AssetUnitName AssetName AssetURL AssetMetadataHash AssetManager AssetReserve AssetFreeze AssetClawback AssetCreator"),
	"asset_holding_get": strings.Fields("AssetBalance AssetFrozen"),
	"app_params_get":    strings.Fields("AppApprovalProgram AppClearStateProgram AppGlobalNumUint AppGlobalNumByteSlice AppLocalNumUint AppLocalNumByteSlice AppExtraProgramPages AppCreator AppAddress"),
	"acct_params_get":   strings.Fields("AcctBalance AcctMinBalance AcctAuthAddr"),
	"json_ref":          strings.Fields("JSONString JSONUint64 JSONObject"),
	"block":             strings.Fields("BlkSeed BlkTimestamp"),
	"base64_decode":     strings.Fields("URLEncoding StdEncoding"),
}

// fieldArg: which argument of an instruction is a transaction field.
var fieldArg = map[string]int{"txn": 1, "txna": 1, "txnas": 1, "itxn": 1, "itxna": 1, "gtxns": 1, "gtxnsa": 1, "gtxnsas": 1, "itxn_field": 1, "gtxn": 2, "gtxna": 2, "gtxnas": 2, "gitxn": 2, "gitxna": 2}

// constName is the name of a number at argument i of an instruction; known is
// false where the reference has no table.
func constName(op string, i, n int) (name string, known bool, names []string) {
	names = avmNames[op]
	at := 1
	if k, ok := fieldArg[op]; ok {
		at, names = k, txnNames
	}
	if names == nil || i != at {
		return "", false, nil
	}
	if n >= 0 && n < len(names) {
		return names[n], true, names
	}
	return "", true, names
}

// pragmaFirst: the only version pragma is the first instruction, as TEAL wants.
func pragmaFirst(text string) bool {
	n, first := 0, false
	any := false
	for _, l := range splitLines(text) {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "//") {
			continue
		}
		if f[0] == "#pragma" && len(f) > 1 && f[1] == "version" {
			n++
			if !any && len(f) > 2 {
				v, err := strconv.ParseUint(f[2], 0, 64)
				first = err == nil && v > 0
			}
		}
		any = true
	}
	return n == 1 && first
}

// judgeFix compares an applied fix with what its title promises.
func judgeFix(x *X, a action, old, nt string) string {
	ol, nl := splitLines(old), splitLines(nt)
	arg := obj{}
	if len(a.Command.Arguments) != 1 || json.Unmarshal(a.Command.Arguments[0], &arg) != nil {
		x.fail("action", "unexpected arguments: %s", jstr(a))
	}
	bad := func(why string) {
		x.fail("fix", "%s: executing %s turned %q into %q", why, jstr(a), old, nt)
	}
	switch a.Command.Command {
	case "teal.line.remove", "teal.label.remove":
		n, ok := arg["line"].(float64)
		if !ok {
			x.fail("action", "no line: %s", jstr(a))
		}
		k := int(n)
		if k < 0 || k >= len(ol) {
			bad("a line outside the document")
		}
		// the line is gone; on the last line its text is
		var want []string
		want = append(append(want, ol[:k]...), ol[k+1:]...)
		if k == len(ol)-1 {
			alt := append(append([]string{}, ol[:k]...), "")
			if reflect.DeepEqual(alt, nl) || reflect.DeepEqual(want, nl) {
				return "line"
			}
			bad("the last line is not removed, or others are")
		}
		if !reflect.DeepEqual(want, nl) {
			bad("not exactly the line is removed")
		}
		t := ol[k]
		if strings.HasPrefix(a.Title, "Remove label '") {
			name := strings.TrimSuffix(strings.TrimPrefix(a.Title, "Remove label '"), "'")
			if !strings.Contains(t, name+":") {
				bad("the removed line does not define the label")
			}
		}
		return "line"
	case "teal.label.create":
		name, _ := arg["name"].(string)
		if a.Title != fmt.Sprintf("Create label '%s'", name) {
			x.fail("action", "title and argument disagree: %s", jstr(a))
		}
		// all old lines are kept in order; the label is defined on a new line
		j := 0
		found := false
		for _, l := range nl {
			if j < len(ol) && l == ol[j] {
				j++
				continue
			}
			if strings.Trim(l, " \t") == name+":" {
				found = true
				continue
			}
			if l != "" {
				bad("another line was added or changed")
			}
		}
		if j < len(ol) {
			bad("a line was changed or removed")
		}
		if !found {
			bad("the label is not created")
		}
		return "label"
	case "teal.value.replace":
		var v struct {
			Range rng    `json:"range"`
			Value string `json:"name"`
		}
		json.Unmarshal(a.Command.Arguments[0], &v)
		if v.Range.Start.Line != v.Range.End.Line {
			x.fail("action", "a literal spanning lines: %s", jstr(a))
		}
		b, e := byteAt(old, v.Range.Start), byteAt(old, v.Range.End)
		tok := old[b:e]
		pre, suf := old[:b], old[e:]
		if !strings.HasPrefix(nt, pre) || !strings.HasSuffix(nt, suf) || len(nt) < len(pre)+len(suf) {
			bad("text outside the literal changed")
		}
		// the token is a whole token
		if b > 0 && !strings.ContainsAny(old[b-1:b], " \t\r\n") && !strings.HasSuffix(pre, ";") {
			bad("the replaced range starts inside a token")
		}
		rep := nt[len(pre) : len(nt)-len(suf)]
		if strings.HasPrefix(a.Title, "Replace with literal '") {
			if !strings.HasPrefix(tok, "0x") {
				bad("not a hex literal")
			}
			want, err := hex.DecodeString(tok[2:])
			if err != nil {
				bad("not a hex literal")
			}
			got, ok := literalBytes(rep)
			if !ok || got != string(want) {
				bad(fmt.Sprintf("the new literal %q stands for %q, not %q", rep, got, want))
			}
			return "value"
		}
		if a.Title != fmt.Sprintf("Replace with '%s'", rep) {
			bad("the value differs from the title")
		}
		for _, c := range tok {
			if c < '0' || c > '9' {
				if c != '-' && c != '+' && c != '_' {
					bad(fmt.Sprintf("the replaced token %q is not a number", tok))
				}
			}
		}
		f := strings.Fields(pre[strings.LastIndexAny(pre, "\r\n")+1:])
		n, err := strconv.Atoi(tok)
		if len(f) > 0 && err == nil {
			if name, known, names := constName(f[0], len(f), n); known {
				for _, m := range names {
					if (m == rep || name != "") && name != rep {
						bad("the name does not stand for the number")
					}
				}
				x.probe("fix_field_names")
			}
		}
		return "value"
	case "teal.version.update":
		n, _ := arg["version"].(float64)
		if a.Title != fmt.Sprintf("Update version to %d", int(n)) {
			x.fail("action", "title and argument disagree: %s", jstr(a))
		}
		pragma := func(l string) (rest string, ok bool) {
			f := strings.Fields(l)
			return "", len(f) >= 3 && f[0] == "#pragma" && f[1] == "version"
		}
		if len(nl) == len(ol)+1 {
			if !reflect.DeepEqual(nl[1:], ol) {
				bad("other lines changed")
			}
			if nl[0] != fmt.Sprintf("#pragma version %d", int(n)) {
				bad("no version pragma first")
			}
			for _, l := range ol {
				if _, ok := pragma(l); ok {
					bad("a second version pragma was inserted")
				}
			}
			return "version"
		}
		if len(nl) != len(ol) {
			bad("lines were added or removed")
		}
		diff := 0
		for i := range ol {
			if ol[i] == nl[i] {
				continue
			}
			diff++
			of, nf := strings.Fields(ol[i]), strings.Fields(nl[i])
			if len(of) != len(nf) || len(of) < 3 || of[0] != "#pragma" || of[1] != "version" || nf[2] != fmt.Sprint(int(n)) {
				bad("a line other than the pragma changed")
			}
			of[2] = nf[2]
			if !reflect.DeepEqual(of, nf) {
				bad("more than the version changed")
			}
		}
		if diff != 1 {
			bad(fmt.Sprintf("%d lines changed", diff))
		}
		return "version"
	}
	x.fail("action", "unknown command: %s", jstr(a))
	return ""
}
