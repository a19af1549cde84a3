//go:build go1.22

package main

import (
	"reflect"
	"strings"
)

// P30: formatting a document changes its layout only, and once.

// layoutFree reads a text without its layout: the tokens and the comment of every
// line that has any.
func layoutFree(text string) [][]string {
	var out [][]string
	for _, ln := range splitLines(text) {
		var l []string
		for _, t := range lineTokens(ln) {
			l = append(l, t.s)
		}
		if c := commentOf(ln); c != "" {
			l = append(l, strings.TrimRight(c, " \t"))
		}
		if len(l) > 0 {
			out = append(out, l)
		}
	}
	return out
}

// commentOf is the comment of a line.
func commentOf(ln string) string {
	rs := []rune(ln)
	for i := 0; i < len(rs); {
		switch {
		case rs[i] == ' ' || rs[i] == '\t':
			i++
		case rs[i] == '/' && i+1 < len(rs) && rs[i+1] == '/':
			return string(rs[i:])
		case rs[i] == '"':
			for i++; i < len(rs) && rs[i] != '"'; i++ {
				if rs[i] == '\\' {
					i++
				}
			}
			i++
		default:
			for i < len(rs) && rs[i] != ' ' && rs[i] != '\t' {
				i++
			}
		}
	}
	return ""
}

func genFmtText(r *Rand) string {
	switch r.Intn(4) {
	case 0:
		return genFlow(r)
	case 1:
		return aidText(r, 8, r.Intn(30))
	case 2:
		var ls []string
		for i := r.Intn(12); i >= 0; i-- {
			ls = append(ls, pick(r, []string{"", " ", "\t", "  "})+genAsmLine(r).text()+pick(r, []string{"", " ", " // c", "\t//c d", " // \"", `  // a: "b`}))
			if r.Bool(1, 4) {
				ls = append(ls, pick(r, []string{"", "  ", "// above", "\t// in", "lab:", "lab: // c", " x: "}))
			}
		}
		return strings.Join(ls, pick(r, []string{"\n", "\r\n"})) + pick(r, []string{"", "\n", "\n\n", "\n// last"})
	}
	return pick(r, []string{"", "\n", "// c", "a:", "a:\n", "a:\n// c", "int 1", "a:\nb:\nint 1\n\n\nreturn\n", "#pragma version 8", "\n\n#pragma version 8\nint 1"})
}

func genP30(r *Rand) *Plan {
	p := &Plan{}
	uris := uriPool[:1+r.Intn(2)]
	for _, u := range uris {
		p.Ops = append(p.Ops, Op{K: "open", S: u, J: genFmtText(r)})
	}
	for i := 1 + r.Intn(5); i > 0; i-- {
		u := pick(r, uris)
		switch r.Intn(5) {
		case 0:
			p.Ops = append(p.Ops, Op{K: "change", S: u, J: genFmtText(r)})
		case 1:
			g := newLspGen(r)
			g.open("file:///z.teal", "int 1")
			g.bad()
			p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
		default:
			p.Ops = append(p.Ops, Op{K: "format", S: u})
		}
	}
	return p
}

func runP30(p *Plan, x *X) {
	x.Trivial = true
	dialog(x, "lsp", func(call func([]byte) []string) {
		c := &aidClient{x: x, call: call, docs: map[string]string{}}
		format := func(u string) string {
			var es []textEdit
			c.req("textDocument/formatting", obj{"textDocument": obj{"uri": u}, "options": obj{"tabSize": 4, "insertSpaces": false}}, &es)
			got, err := applyEdits(c.docs[u], es)
			if err != nil {
				x.fail("edits", "formatting %q: %v", c.docs[u], err)
			}
			return got
		}
		for _, o := range p.Ops {
			u := o.S
			switch o.K {
			case "bad":
				c.call(o.wire())
			case "open":
				c.docs[u] = o.J
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": o.J}}})
			case "change":
				c.change(u, o.J)
			case "format":
				text, ok := c.docs[u]
				if !ok {
					continue
				}
				got := format(u)
				if a, b := layoutFree(text), layoutFree(got); !reflect.DeepEqual(a, b) {
					x.fail("meaning", "formatting %q gives %q", text, got)
				}
				c.change(u, got)
				if again := format(u); again != got {
					x.fail("twice", "formatting %q gives %q, and again %q", text, got, again)
				}
				x.Trivial = false
				x.probe("documents_formatted")
				x.state(len(layoutFree(text)), text == got)
			}
		}
	})
}

func init() {
	register(&Prop{
		ID: "P30", Level: "exploration",
		Rule:      "an edit history in which the client formats documents, applies the edits, compares tokens and comments before and after, and formats the result again, which must change nothing; non-trivial: at least one document formatted",
		StateRule: "hash of (number of lines with content, changed or not)",
		Quick:     180000, Thorough: 3000000, Chunk: 300,
		Real: realLsp, Stub: stubIO + "; the formatter itself is a third-party package and runs uninstrumented",
		Gen: genP30, Run: runP30,
	})
}
