//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
)

// P31: hovering describes what stands under the cursor, and a label is shown
// with its signature and comments.

func hoverText(r *Rand, ver int) string {
	var ls []string
	if r.Bool(1, 8) {
		ls = append(ls, "// #pragma mode logicsig")
	}
	ls = append(ls, fmt.Sprintf("#pragma version %d", ver))
	for i := 0; i < 1+r.Intn(10); i++ {
		ind := pick(r, []string{"", "", " ", "\t", "   "})
		tail := pick(r, []string{"", "", "", " // é txn Fee", "  ", "//x", " // 😀"})
		switch k := r.Intn(12); {
		case k < 4:
			ls = append(ls, ind+genField(r)+tail)
		case k < 8:
			name := avmOpNames[r.Intn(len(avmOpNames))]
			g := &opsGen{r: r}
			ws := pick(r, []string{" ", " ", "  ", "\t"})
			ls = append(ls, ind+strings.Join(append([]string{name}, aidImms(g, avmOps[name].imm)...), ws)+tail)
		case k == 8:
			f := fieldOps[r.Intn(len(fieldOps)-1)]
			ls = append(ls, ind+f.op+" "+f.before+fmt.Sprint(r.Intn(70))+f.after+tail)
		case k == 9:
			ls = append(ls, pick(r, []string{"", "   ", "// txn Fee", "  // é int 1"}))
		case k == 10:
			ls = append(ls, ind+fmt.Sprintf("l%d:", i)+tail)
		default:
			ls = append(ls, ind+pick(r, []string{`byte "😀"`, "int pay", "nosuch 1", "txn NoSuch", "txn", "byte 0x41 0x42"})+tail)
		}
	}
	return strings.Join(ls, pick(r, []string{"\n", "\n", "\r\n"}))
}

// subText is a program of subroutines.
func subText(r *Rand, ver int) string {
	ls := []string{fmt.Sprintf("#pragma version %d", ver), "callsub l0"}
	for i := 0; i < 1+r.Intn(5); i++ {
		for r.Bool(1, 3) {
			ls = append(ls, pick(r, []string{"// adds one", "  // é", "//", "// 😀 end", "// #pragma"}))
		}
		name := fmt.Sprintf("l%d", i)
		if r.Bool(1, 8) {
			name = "l0"
		}
		ls = append(ls, pick(r, []string{"", "", " "})+name+":")
		for r.Bool(1, 3) {
			ls = append(ls, pick(r, []string{"", "int 1", "// note", "pop"}))
		}
		if r.Bool(2, 3) {
			ls = append(ls, fmt.Sprintf("proto %d %d", r.Intn(256), r.Intn(256)))
		}
		for r.Bool(1, 2) {
			ls = append(ls, pick(r, []string{"int 1", "pop", "retsub", "", "// last"}))
		}
	}
	return strings.Join(ls, pick(r, []string{"\n", "\n", "\r\n"}))
}

func genP31(r *Rand) *Plan {
	p := &Plan{}
	uris := uriPool[:1+r.Intn(2)]
	ver := func() int {
		if r.Bool(1, 4) {
			return 1 + r.Intn(10)
		}
		return 8 + r.Intn(3)
	}
	text := func() string {
		if r.Bool(1, 4) {
			return subText(r, 8+r.Intn(3))
		}
		return hoverText(r, ver())
	}
	for _, u := range uris {
		p.Ops = append(p.Ops, Op{K: "open", S: u, J: text()})
	}
	for i := 0; i < 3+r.Intn(12); i++ {
		u := pick(r, uris)
		a := []int{r.Intn(1 << 20), r.Intn(1 << 20), r.Intn(1 << 20), r.Intn(1 << 20)}
		switch k := r.Intn(10); {
		case k < 2:
			p.Ops = append(p.Ops, Op{K: "change", S: u, J: text()})
		case k == 2:
			if r.Bool(1, 2) {
				p.Ops = append(p.Ops, Op{K: "close", S: u}, Op{K: "open", S: u, J: text()})
			} else {
				g := newLspGen(r)
				g.open("file:///z.teal", "int 1")
				g.bad()
				p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
			}
		case k < 8:
			p.Ops = append(p.Ops, Op{K: "hover", S: u, A: a})
		default:
			p.Ops = append(p.Ops, Op{K: "subs", S: u, A: a})
		}
	}
	return p
}

func runP31(p *Plan, x *X) {
	x.Trivial = true
	dialog(x, "lsp", func(call func([]byte) []string) {
		c := &aidClient{x: x, call: call, docs: map[string]string{}}
		for _, o := range p.Ops {
			u := o.S
			text, open := c.docs[u]
			switch o.K {
			case "bad":
				c.call(o.wire())
			case "open":
				c.docs[u] = o.J
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": o.J}}})
			case "change":
				if open {
					c.change(u, o.J)
				}
			case "close":
				delete(c.docs, u)
				c.send(obj{"method": "textDocument/didClose", "params": obj{"textDocument": obj{"uri": u}}})
			case "hover":
				if open {
					c.hovering(u, text, o.A)
				}
			case "subs":
				if open {
					c.subs(u, text)
				}
			}
		}
	})
}

// hovering: the cursor rests somewhere.
func (c *aidClient) hovering(u, text string, a []int) {
	x := c.x
	ls := splitLines(text)
	li := a[0] % len(ls)
	toks := lineTokens(ls[li])
	if len(toks) == 0 || a[1]%8 == 0 {
		// where no token is
		ch := a[2] % (u16len(ls[li]) + 3)
		for _, t := range toks {
			if t.b <= ch && ch <= t.e {
				return
			}
		}
		if h := c.hover(u, pos{li, ch}); h != "" {
			x.fail("hover", "hovering at %d:%d of %q, where no token is, says %q", li, ch, text, h)
		}
		x.Trivial = false
		x.probe("nothing_hovered")
		return
	}
	i := a[1] / 8 % len(toks)
	t := toks[i]
	if len(c.problems(u, li)) > 0 || strings.HasPrefix(toks[0].s, "#") || strings.HasSuffix(toks[0].s, ":") {
		return
	}
	h := c.hover(u, pos{li, t.b + a[2]%(t.e-t.b)})
	if g := c.hover(u, pos{li, t.b + a[3]%(t.e-t.b)}); g != h {
		x.fail("hover", "hovering over %q in line %d of %q says %q and %q", t.s, li, text, h, g)
	}
	op := toks[0].s
	if i == 0 {
		if _, ok := avmOps[op]; !ok {
			return
		}
		// what the instruction is offered with
		ver := versionOf(text)
		ref := fmt.Sprintf("#pragma version %d\n%s", ver, op)
		if logicsig(text) {
			ref = "// #pragma mode logicsig\n" + ref
		}
		const r = "file:///ref.teal"
		c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": r, "languageId": "teal", "version": 1, "text": ref}}})
		n := len(splitLines(ref)) - 1
		if g := c.hover(r, pos{n, 0}); g != h {
			x.fail("hover", "hovering over %q in line %d of %q says %q, over the same instruction alone %q", op, li, text, h, g)
		}
		for _, i := range c.complete(r, pos{n, len(op)}) {
			if i.Label == op && !strings.Contains(h, i.Doc.Value) {
				x.fail("hover", "hovering over %q says %q, but it is offered with %q", op, h, i.Doc.Value)
			}
		}
		c.send(obj{"method": "textDocument/didClose", "params": obj{"textDocument": obj{"uri": r}}})
		if h == "" && !undocumented[op] {
			x.fail("hover", "hovering over %q in line %d of %q says nothing", op, li, text)
		}
		x.Trivial = false
		x.probe("instructions_hovered")
		x.state("op", op)
		return
	}
	n, err := strconv.Atoi(t.s)
	_, known, names := constName(op, i, 0)
	if !known {
		return
	}
	name := t.s
	if err == nil {
		if n < 0 || n >= len(names) {
			return
		}
		name = names[n]
	} else {
		n = -1
		for k, s := range names {
			if s == name {
				n = k
			}
		}
		if n < 0 {
			return
		}
	}
	if !word(h, name) || !word(h, fmt.Sprint(n)) {
		x.fail("hover", "hovering over %q in line %d of %q, which is %s = %d, says %q", t.s, li, text, name, n, h)
	}
	x.Trivial = false
	x.probe("fields_hovered")
	x.state("field", op, name, err == nil)
}

func word(s, w string) bool {
	return regexp.MustCompile(`\b` + regexp.QuoteMeta(w) + `\b`).MatchString(s)
}

type subOf struct {
	proto []string
	docs  []string // comments right above
	since []string // comments since the previous label
}

// subs: the labels offered to a call are shown with what is known about them.
func (c *aidClient) subs(u, text string) {
	x := c.x
	ver := versionOf(text)
	if ver < 8 {
		return
	}
	ls := splitLines(text)
	known := map[string]*subOf{}
	twice := map[string]bool{}
	var cur *subOf
	var above, since []string
	call := -1
	for i, l := range ls {
		f := lineTokens(l)
		switch {
		case len(f) == 0:
			if t, ok := strings.CutPrefix(strings.TrimSpace(l), "//"); ok {
				above = append(above, strings.TrimSpace(t))
				since = append(since, strings.TrimSpace(t))
				continue
			}
		case strings.HasSuffix(f[0].s, ":"):
			n := strings.TrimSuffix(f[0].s, ":")
			cur = &subOf{docs: above, since: since}
			since = nil
			if known[n] != nil {
				twice[n] = true
			}
			known[n] = cur
		case f[0].s == "proto" && len(f) == 3:
			if cur != nil {
				cur.proto = []string{f[1].s, f[2].s}
			}
		case f[0].s == "callsub" && len(f) == 2:
			call = i
		}
		above = nil
	}
	if call < 0 {
		return
	}
	for _, i := range c.complete(u, pos{call, u16len(ls[call])}) {
		s := known[i.Label]
		if s == nil {
			x.fail("label", "%q offered in %q", i.Label, text)
		}
		if twice[i.Label] {
			continue
		}
		if got := numRe.FindAllString(i.Detail.Detail, -1); !reflect.DeepEqual(got, s.proto) && len(got)+len(s.proto) > 0 {
			x.fail("label", "%q of %q is offered with %q, its proto is %v", i.Label, text, i.Detail.Detail, s.proto)
		}
		for _, d := range s.docs {
			if !strings.Contains(i.Doc.Value, d) {
				x.fail("label", "%q of %q is offered with %q, above it stands %q", i.Label, text, i.Doc.Value, d)
			}
		}
	line:
		for _, l := range strings.Split(i.Doc.Value, "\n") {
			l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "//"))
			for _, d := range s.since {
				if d == l {
					continue line
				}
			}
			if l != "" {
				x.fail("label", "%q of %q is offered with %q, but %q does not stand between it and the label before", i.Label, text, i.Doc.Value, l)
			}
		}
		x.Trivial = false
		x.probe("labels_described")
		x.state("label", s.proto != nil, len(s.docs))
	}
}

func init() {
	register(&Prop{
		ID: "P31", Level: "exploration",
		Rule:      "an edit history over documents of all versions in which the cursor rests on seeded places; what the server says there is compared with the tables of the AVM's fields, with what it says about the same instruction alone, and, for labels offered to a call, with the protos and comments of the text; non-trivial: at least one description judged",
		StateRule: "hash of (instruction, field, by name or number)",
		Quick:     360000, Thorough: 4800000, Chunk: 300,
		Real: realLsp, Stub: stubIO + "; the editor's cursor",
		Gen: genP31, Run: runP31,
	})
}

// undocumented: the assembler's own instructions, which the AVM's documentation
// does not describe.
var undocumented = map[string]bool{"addr": true, "byte": true, "int": true, "method": true}
