//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// P24: every position and range the language server sends lies in the text the
// client has.

type posChecker struct {
	x     *X
	text  string
	lines []string
	why   string
}

func (c *posChecker) pos(p pos, what string) {
	if p.Line < 0 || p.Line >= len(c.lines) {
		c.x.fail("outside", "%s: line %d of a document with %d lines (%s): %q", what, p.Line, len(c.lines), c.why, c.text)
	}
	if n := u16len(c.lines[p.Line]); p.Char < 0 || p.Char > n {
		c.x.fail("outside", "%s: character %d of line %d, which has %d (%s): %q", what, p.Char, p.Line, n, c.why, c.text)
	}
	if b := byteAt(c.text, p); u16len(c.text[lineStart(c.text, b):b]) != p.Char {
		c.x.fail("outside", "%s: character %d of line %d is inside a surrogate pair (%s): %q", what, p.Char, p.Line, c.why, c.text)
	}
}

func lineStart(text string, b int) int { return strings.LastIndexAny(text[:b], "\r\n") + 1 }

func (c *posChecker) rng(r rng, what string) {
	c.pos(r.Start, what)
	c.pos(r.End, what)
	if r.End.Line < r.Start.Line || (r.End.Line == r.Start.Line && r.End.Char < r.Start.Char) {
		c.x.fail("outside", "%s: a range that ends before it starts: %v (%s): %q", what, r, c.why, c.text)
	}
}

// walk finds ranges and positions anywhere in a decoded value.
func (c *posChecker) walk(v any, what string) int {
	n := 0
	switch t := v.(type) {
	case map[string]any:
		if st, ok := t["start"]; ok {
			if en, ok := t["end"]; ok && dig(st, "line") != nil && dig(en, "line") != nil {
				c.rng(toRng(t), what)
				return 1
			}
		}
		if p, ok := t["position"]; ok && dig(p, "line") != nil {
			c.pos(toPos(p), what)
			n++
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n += c.walk(t[k], what)
		}
	case []any:
		for _, e := range t {
			n += c.walk(e, what)
		}
	}
	return n
}

func toPos(v any) pos {
	var p pos
	json.Unmarshal([]byte(jstr(v)), &p)
	return p
}

func toRng(v any) rng {
	var p rng
	json.Unmarshal([]byte(jstr(v)), &p)
	return p
}

func (c *posChecker) tokens(v any) {
	d, _ := dig(v, "data").([]any)
	if len(d)%5 != 0 {
		c.x.fail("tokens", "%d numbers (%s)", len(d), c.why)
	}
	line, ch, end := 0, 0, 0
	for i := 0; i < len(d); i += 5 {
		var f [5]int
		for j := range f {
			n, ok := d[i+j].(float64)
			if !ok || n < 0 {
				c.x.fail("tokens", "token %d has the field %v (%s): %q", i/5, d[i+j], c.why, c.text)
			}
			f[j] = int(n)
		}
		line += f[0]
		if f[0] > 0 {
			ch, end = 0, 0
		}
		ch += f[1]
		if ch < end {
			c.x.fail("tokens", "token %d starts at %d:%d, before the previous one ends at %d (%s): %q", i/5, line, ch, end, c.why, c.text)
		}
		end = ch + f[2]
		c.rng(rng{pos{line, ch}, pos{line, end}}, fmt.Sprintf("semantic token %d", i/5))
		c.x.probe("tokens_checked")
	}
}

// command judges the edits of an applyEdit request. What the client itself put in the
// arguments is not judged; an edit may end, or insert, after the last line.
func (c *posChecker) command(m *in, v any) int {
	cmd := digs(m.Params, "command")
	as, _ := dig(m.Params, "arguments").([]any)
	if cmd == "teal.value.replace" || len(as) != 1 {
		return 0
	}
	if cmd == "teal.line.remove" {
		if ln, ok := dig(as[0], "line").(float64); !ok || int(ln) < 0 || int(ln) >= len(c.lines) {
			return 0
		}
	}
	c.lines = append(append([]string{}, c.lines...), "")
	c.text += "\n"
	chs, _ := dig(v, "params", "edit", "documentChanges").([]any)
	if len(chs) != 1 || digs(chs[0], "textDocument", "uri") != target(m) {
		c.x.fail("edit", "%s: edits of other documents: %s", cmd, jstr(v))
	}
	var es []textEdit
	json.Unmarshal([]byte(jstr(dig(chs[0], "edits"))), &es)
	for _, e := range es {
		c.rng(e.Range, cmd)
	}
	if _, err := applyEdits(c.text, es); err != nil {
		c.x.fail("edit", "%s: %v (%s): %q", cmd, err, c.why, c.text)
	}
	return len(es)
}

func init() {
	register(&Prop{
		ID: "P24", Level: "exploration",
		Rule:      "an edit history over several documents with interleaved requests of every kind; every range and position in the answers, code action arguments, server requests and semantic tokens is checked against the text the client holds at that moment, and formatting edits are applied; non-trivial: at least one range checked",
		StateRule: "hash of (method, ranges in the answer, non-ASCII text, line-end style)",
		Quick:     120000, Thorough: 3600000, Chunk: 300,
		Real: realLsp, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			g := genLsp(r, 0)
			n := 2 + r.Intn(14)
			for i := 0; i < n; i++ {
				switch k := r.Intn(10); {
				case k == 0:
					g.bad()
				case k < 4:
					g.edit()
				case k == 4:
					u := g.anyOpen()
					g.change(u, genLabelText(r, 1+r.Intn(10)))
				default:
					g.docReq()
				}
			}
			u := g.anyOpen()
			for _, m := range []string{"textDocument/diagnostic", "textDocument/semanticTokens/full", "textDocument/documentSymbol", "textDocument/codeLens"} {
				g.req(m, g.docParams(m, u, g.docs[u]))
			}
			for _, m := range []string{"textDocument/inlayHint", "textDocument/codeAction"} {
				ps := g.docParams(m, u, g.docs[u])
				ps["range"] = obj{"start": pos{0, 0}, "end": pos{len(splitLines(g.docs[u])), 1 << 20}}
				g.req(m, ps)
			}
			return &Plan{Ops: g.ops}
		},
		Run: runP24,
	})
}

func runP24(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	c := feed(x, ms)
	res := runServer(x, "lsp", c, nil).alive(x, "history")
	s := newLspModel()
	x.Trivial = true
	for i, o := range ms {
		if i >= len(c.outs) {
			break
		}
		if o.K == "bad" {
			continue
		}
		m := parseIn(o.J)
		s.apply(m)
		text, open := s.docs[target(m)]
		if o.K != "req" || !open || s.shut || m.method() == "textDocument/inlineValue" {
			continue // inlineValue repeats the range of the request
		}
		hi := len(res.Out)
		if i+1 < len(c.outs) {
			hi = c.outs[i+1]
		}
		fs, _, _ := parseFrames(res.Out[c.outs[i]:hi])
		pc := &posChecker{x: x, text: text, lines: splitLines(text), why: short(o.J, 300)}
		for _, f := range fs {
			v := decode(f)
			if dig(v, "error") != nil {
				continue
			}
			n := 0
			switch {
			case m.method() == "textDocument/formatting":
				var es []textEdit
				json.Unmarshal([]byte(jstr(dig(v, "result"))), &es)
				for _, e := range es {
					got, err := applyEdits(text, es)
					if err != nil || len(es) != 1 || got != e.NewText {
						x.fail("formatting", "the edits do not replace the document by the formatted one: %q -> %q, formatted %q (%v)", text, got, e.NewText, err)
					}
					n++
				}
			case m.method() == "workspace/executeCommand" && dig(v, "method") != nil:
				n = pc.command(m, v)
			case m.method() == "textDocument/semanticTokens/full":
				pc.tokens(dig(v, "result"))
				n++
			default:
				n = pc.walk(v, m.method())
				if m.method() == "textDocument/rename" {
					var es []textEdit
					json.Unmarshal([]byte(jstr(dig(v, "result", "changes", target(m)))), &es)
					if _, err := applyEdits(text, es); err != nil {
						x.fail("edit", "rename: %v (%s): %q", err, pc.why, text)
					}
				}
			}
			if n > 0 {
				x.Trivial = false
				x.Probes["ranges_checked"] += n
				x.state(m.method(), n, len(text) != u16len(text), strings.Count(text, "\r") > 0)
			}
		}
	}
}
