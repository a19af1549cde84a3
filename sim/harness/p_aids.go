//go:build go1.22

package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/dragmz/teal/verifsim/simrt"
)

// P26: what the language server suggests fits the text as edited. The client
// types, accepts suggestions and sends the result.

// tokenOf is a token of the reference reading, in UTF-16 units.
type tokenOf struct {
	s    string
	b, e int
}

// lineTokens reads the tokens of a line up to its comment.
func lineTokens(ln string) []tokenOf {
	var toks []tokenOf
	rs := []rune(ln)
	col := 0
	w := func(r rune) int {
		if r >= 0x10000 {
			return 2
		}
		return 1
	}
	for i := 0; i < len(rs); {
		r := rs[i]
		if r == ' ' || r == '\t' {
			col++
			i++
			continue
		}
		if r == '/' && i+1 < len(rs) && rs[i+1] == '/' {
			break
		}
		b, st := col, i
		if r == '"' {
			i++
			col++
			for i < len(rs) {
				if rs[i] == '\\' && i+1 < len(rs) {
					col += w(rs[i]) + w(rs[i+1])
					i += 2
					continue
				}
				col += w(rs[i])
				i++
				if rs[i-1] == '"' {
					break
				}
			}
		} else {
			for i < len(rs) && rs[i] != ' ' && rs[i] != '\t' {
				col += w(rs[i])
				i++
			}
		}
		toks = append(toks, tokenOf{string(rs[st:i]), b, col})
	}
	return toks
}

// fieldOp is an instruction with a named field operand.
type fieldOp struct {
	op     string
	before string // operands before the field
	after  string // operands after it
	ver    int
	app    bool     // not for logic signatures
	names  []string // some of the names
}

var fieldOps = []fieldOp{
	{"txn", "", "", 1, false, txnFields}, {"gtxn", "0 ", "", 1, false, txnFields}, {"gtxns", "", "", 3, false, txnFields},
	{"global", "", "", 1, false, globalFields}, {"txna", "", " 0", 2, false, arrFields}, {"gtxna", "1 ", " 2", 2, false, arrFields},
	{"gtxnsa", "", " 1", 3, false, arrFields}, {"txnas", "", "", 5, false, arrFields}, {"gtxnas", "2 ", "", 5, false, arrFields}, {"gtxnsas", "", "", 5, false, arrFields},
	{"itxn", "", "", 5, true, txnFields}, {"itxna", "", " 0", 5, true, arrFields}, {"itxn_field", "", "", 5, true, itxnFields},
	{"gitxn", "0 ", "", 6, true, txnFields}, {"gitxna", "0 ", " 1", 6, true, arrFields}, {"itxnas", "", "", 6, true, arrFields},
	{"asset_holding_get", "", "", 2, true, holdingFields}, {"asset_params_get", "", "", 2, true, assetFields},
	{"app_params_get", "", "", 5, true, appFields}, {"acct_params_get", "", "", 6, true, acctFields}, {"block", "", "", 7, false, blockFields},
	{"json_ref", "", "", 7, false, strings.Fields("JSONString JSONUint64 JSONObject")}, {"base64_decode", "", "", 7, false, strings.Fields("StdEncoding URLEncoding")},
	{"vrf_verify", "", "", 7, false, strings.Fields("VrfAlgorand")}, {"ecdsa_verify", "", "", 5, false, strings.Fields("Secp256k1")},
	{"int", "", "", 1, false, strings.Fields("pay axfer NoOp OptIn CloseOut UpdateApplication DeleteApplication")},
}

// aidText is a program with a version pragma in its first line.
func aidText(r *Rand, ver int, n int) string {
	t := splitLines(genLabelText(r, n))
	eol := pick(r, []string{"\n", "\n", "\r\n"})
	t[0] = fmt.Sprintf("#pragma version %d", ver)
	for i := range t {
		if i > 0 && r.Bool(1, 5) {
			t[i] = aidLine(r)
		}
	}
	if r.Bool(1, 6) {
		t = append([]string{pick(r, []string{"// #pragma mode logicsig", "//#pragma mode logicsig", "//  #pragma mode logicsig"})}, t...)
		if r.Bool(1, 3) {
			t = append([]string{"// a", "", "// b"}[r.Intn(3):], t...)
		}
	} else if r.Bool(1, 8) {
		t = append([]string{pick(r, []string{"// #pragma mode", "", "// é"})}, t...)
	}
	return strings.Join(t, eol)
}

func aidLine(r *Rand) string {
	ind := pick(r, []string{"", "", " ", "\t"})
	tail := pick(r, []string{"", "", " // 0x41424344", " // é", "  "})
	switch r.Intn(4) {
	case 0:
		return ind + pick(r, []string{"byte ", "pushbytes ", "byte  ", "bytecblock 0x61 ", "pushbytess 0xff00 "}) + genHexPrintable(r) + tail
	case 1:
		return ind + pick(r, []string{`byte "0x4142"`, `byte "😀" // 0x41`, "byte 0x00ff", "byte 0xé1", "byte 0x", "byte 0X4142", "byte 0x4142é", "byte 0x6a6B", "int 0x41", "byte base64 QUJD", "byte 0x410a", "byte 0x417f", "byte 0x20", "byte 0xc3a9", "byte 0x41e282ac42", "byte 0xe9", "byte 0x41c2a0"}) + tail
	}
	return ind + genField(r) + tail
}

func genP26(r *Rand) *Plan {
	p := &Plan{}
	if r.Bool(1, 3) {
		p.Ops = append(p.Ops, Op{K: "init", J: jstr(genOptions(r))})
	}
	uris := uriPool[:1+r.Intn(2)]
	ver := 8 + r.Intn(3)
	if r.Bool(1, 4) {
		ver = 1 + r.Intn(10)
	}
	for _, u := range uris {
		p.Ops = append(p.Ops, Op{K: "open", S: u, J: aidText(r, ver, 1+r.Intn(10))})
	}
	for i := 0; i < 2+r.Intn(12); i++ {
		u := pick(r, uris)
		a := []int{r.Intn(1 << 20), r.Intn(1 << 20), r.Intn(1 << 20), r.Intn(1 << 20)}
		switch r.Intn(16) {
		case 0, 1:
			p.Ops = append(p.Ops, Op{K: "change", S: u, J: aidText(r, ver, r.Intn(12))})
		case 14, 15:
			p.Ops = append(p.Ops, Op{K: "range", S: u, A: a})
		case 2:
			switch r.Intn(3) {
			case 0:
				p.Ops = append(p.Ops, Op{K: "close", S: u}, Op{K: "open", S: u, J: aidText(r, ver, r.Intn(8))})
			case 1:
				p.Ops = append(p.Ops, Op{K: "init", J: jstr(genOptions(r))})
			case 2:
				g := newLspGen(r)
				g.open("file:///z.teal", "int 1")
				g.bad()
				p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
			}
		case 3, 4:
			p.Ops = append(p.Ops, Op{K: "lens", S: u})
		case 5, 6:
			p.Ops = append(p.Ops, Op{K: "hints", S: u})
		case 7, 8:
			p.Ops = append(p.Ops, Op{K: "label", S: u, A: a})
		case 9, 10:
			p.Ops = append(p.Ops, Op{K: "field", S: u, A: a})
		case 11:
			p.Ops = append(p.Ops, Op{K: "op", S: u, A: a})
		case 12:
			p.Ops = append(p.Ops, Op{K: "named", S: u, A: a})
		default:
			p.Ops = append(p.Ops, Op{K: "sig", S: u, A: a})
		}
	}
	return p
}

type aidClient struct {
	x    *X
	call func([]byte) []string
	id   int
	docs map[string]string
}

func (c *aidClient) send(m obj) []string {
	m["jsonrpc"] = "2.0"
	return c.call(frame(jstr(m), ""))
}

func (c *aidClient) req(method string, params obj, into any) {
	c.id++
	fs := c.send(obj{"id": c.id, "method": method, "params": params})
	if len(fs) != 1 {
		c.x.fail("reply", "%s: %d messages", method, len(fs))
	}
	m, err := parseMsg(fs[0])
	if err != nil || m.has("error") || fmt.Sprint(m.ID) != fmt.Sprint(c.id) {
		c.x.fail("reply", "%s %s failed: %s", method, short(jstr(params), 200), short(fs[0], 300))
	}
	if into != nil && m.has("result") && json.Unmarshal(m.Result, into) != nil {
		c.x.fail("reply", "%s: %s", method, short(fs[0], 300))
	}
}

func (c *aidClient) change(u, text string) {
	c.docs[u] = text
	c.send(obj{"method": "textDocument/didChange", "params": obj{"textDocument": obj{"uri": u}, "contentChanges": []any{obj{"text": text}}}})
}

func at(u string, p pos) obj {
	return obj{"textDocument": obj{"uri": u}, "position": obj{"line": p.Line, "character": p.Char}}
}

type diag struct {
	Message string `json:"message"`
	Range   rng    `json:"range"`
}

// problems are the diagnostics of a line.
func (c *aidClient) problems(u string, line int) []string {
	var rep struct {
		Items []diag `json:"items"`
	}
	c.req("textDocument/diagnostic", obj{"textDocument": obj{"uri": u}}, &rep)
	var out []string
	for _, d := range rep.Items {
		if d.Range.Start.Line == line {
			out = append(out, d.Message)
		}
	}
	return out
}

type completion struct {
	Label  string `json:"label"`
	Kind   int    `json:"kind"`
	Insert string `json:"insertText"`
	Doc    struct {
		Value string `json:"value"`
	} `json:"documentation"`
	Detail struct {
		Detail string `json:"detail"`
	} `json:"labelDetails"`
}

func (c *aidClient) complete(u string, p pos) []completion {
	var items []completion
	c.req("textDocument/completion", at(u, p), &items)
	var out []completion
	for _, i := range items {
		if i.Label != "" {
			out = append(out, i)
		}
	}
	return out
}

func (c *aidClient) hover(u string, p pos) string {
	var h struct {
		Contents struct {
			Value string `json:"value"`
		} `json:"contents"`
	}
	c.req("textDocument/hover", at(u, p), &h)
	return h.Contents.Value
}

func labelsOf(cs []completion) []string {
	var out []string
	seen := map[string]bool{}
	for _, c := range cs {
		if !seen[c.Label] {
			seen[c.Label] = true
			out = append(out, c.Label)
		}
	}
	sort.Strings(out)
	return out
}

// insertLine puts a line right after the version pragma, where nothing precedes
// it, and returns the text and the line's number.
func insertLine(text, ln string) (string, int) {
	eol := "\n"
	if strings.Contains(text, "\r\n") {
		eol = "\r\n"
	}
	ls := strings.Split(text, eol)
	for i, l := range ls {
		if strings.HasPrefix(l, "#pragma version") {
			out := append(append(append([]string{}, ls[:i+1]...), ln), ls[i+1:]...)
			return strings.Join(out, eol), i + 1
		}
	}
	return text, -1
}

var verRe = regexp.MustCompile(`(?m)^#pragma version (\d+)`)

func versionOf(text string) int {
	m := verRe.FindStringSubmatch(text)
	if m == nil {
		return 0
	}
	n, _ := strconv.Atoi(m[1])
	return n
}

func logicsig(text string) bool {
	for _, l := range splitLines(text) {
		if t, ok := strings.CutPrefix(strings.TrimSpace(l), "//"); ok && strings.TrimSpace(t) == "#pragma mode logicsig" {
			return true
		}
	}
	return false
}

func runP26(p *Plan, x *X) {
	x.Trivial = true
	dialog(x, "lsp", func(call func([]byte) []string) {
		c := &aidClient{x: x, call: call, docs: map[string]string{}}
		set := map[string]bool{"lensRefs": true, "inlayNamed": true, "inlayDecoded": true}
		for _, o := range p.Ops {
			u := o.S
			text, open := c.docs[u]
			switch o.K {
			case "bad":
				c.call(o.wire())
				continue
			case "init":
				var opts map[string]any
				json.Unmarshal([]byte(o.J), &opts)
				for k, v := range opts {
					if b, ok := v.(bool); ok {
						set[k] = b
					}
				}
				c.req("initialize", obj{"initializationOptions": opts}, nil)
				continue
			case "open":
				c.docs[u] = o.J
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": o.J}}})
				continue
			case "change":
				if open {
					c.change(u, o.J)
				}
				continue
			case "close":
				delete(c.docs, u)
				c.send(obj{"method": "textDocument/didClose", "params": obj{"textDocument": obj{"uri": u}}})
				continue
			}
			if !open {
				continue
			}
			ver := versionOf(text)
			switch o.K {
			case "lens":
				if ver >= 8 && set["lensRefs"] {
					c.lens(u, text)
				}
			case "hints":
				if ver >= 8 {
					c.hints(u, text, set["inlayNamed"], set["inlayDecoded"])
				}
			case "label":
				c.label(u, text, o.A)
			case "field":
				c.field(u, text, ver, o.A)
			case "op":
				c.op(u, text, ver, o.A)
			case "named":
				if ver >= 8 && set["inlayNamed"] {
					c.named(u, text, o.A)
				}
			case "sig":
				c.sig(u, text, ver, o.A)
			case "range":
				c.within(u, text, o.A)
			}
		}
	})
}

// lens: reference lenses stand on the definitions of used labels and count the uses.
func (c *aidClient) lens(u, text string) {
	x := c.x
	var got []struct {
		Range   rng `json:"range"`
		Command struct {
			Title string `json:"title"`
		} `json:"command"`
	}
	c.req("textDocument/codeLens", obj{"textDocument": obj{"uri": u}}, &got)
	occs := occurrences(text)
	uses := map[string]int{}
	for _, o := range occs {
		if !o.def {
			uses[o.name]++
		}
	}
	type ln struct{ line, n int }
	var want, have []ln
	for _, o := range occs {
		if o.def && uses[o.name] > 0 {
			want = append(want, ln{o.line, uses[o.name]})
		}
	}
	for _, g := range got {
		n, ok := number(g.Command.Title)
		if !ok {
			x.fail("lens", "no number in the lens %q", g.Command.Title)
		}
		have = append(have, ln{g.Range.Start.Line, n})
	}
	sort.Slice(have, func(i, j int) bool { return have[i].line < have[j].line })
	if !reflect.DeepEqual(want, have) {
		x.fail("lens", "lenses (line, uses) of %q: expected %v, got %v", text, want, have)
	}
	x.Trivial = false
	x.probe("lenses_compared")
	x.state("lens", len(want), len(uses))
}

var numRe = regexp.MustCompile(`\d+`)

func number(s string) (int, bool) {
	m := numRe.FindAllString(s, -1)
	if len(m) != 1 {
		return 0, false
	}
	n, err := strconv.Atoi(m[0])
	return n, err == nil
}

type hint struct {
	Position pos    `json:"position"`
	Label    string `json:"label"`
}

func (c *aidClient) allHints(u, text string) []hint {
	var got []hint
	n := len(splitLines(text))
	c.req("textDocument/inlayHint", obj{"textDocument": obj{"uri": u}, "range": rng{pos{0, 0}, pos{n, 1 << 20}}}, &got)
	return got
}

// hints: what hints stand behind which tokens.
func (c *aidClient) hints(u, text string, named, decoded bool) {
	x := c.x
	got := map[pos][]string{}
	for _, h := range c.allHints(u, text) {
		got[h.Position] = append(got[h.Position], h.Label)
	}
	for li, ln := range splitLines(text) {
		toks := lineTokens(ln)
		for i, t := range toks {
			p := pos{li, t.e}
			have := got[p]
			delete(got, p)
			if s, ok := strings.CutPrefix(t.s, "0x"); ok && s != "" {
				want := []string(nil)
				if bs, err := hex.DecodeString(s); err == nil && decoded {
					ok := true
					for _, b := range bs {
						if b < 0x20 || b > 0x7e {
							ok = false
						}
					}
					if ok {
						want = []string{string(bs)}
					}
				}
				if !reflect.DeepEqual(want, have) {
					x.fail("hint", "hints behind %q in line %d of %q: expected %q, got %q", t.s, li, text, want, have)
				}
				x.probe("decoded_hints_compared")
				continue
			}
			n, err := strconv.Atoi(t.s)
			if err != nil || !named || i == 0 {
				if len(have) > 0 && !(t.s == "0x" && have[0] == "") {
					x.fail("hint", "hints behind %q in line %d of %q: %q", t.s, li, text, have)
				}
				continue
			}
			if len(have) > 1 {
				x.fail("hint", "hints behind %q in line %d of %q: %q", t.s, li, text, have)
			}
			name, known, _ := constName(toks[0].s, i, n)
			if !known || name == "" {
				continue
			}
			if len(have) == 1 && have[0] != name {
				x.fail("hint", "%q in line %d of %q is shown as %q, but means %s", t.s, li, text, have[0], name)
			}
			switch toks[0].s {
			case "txn", "gtxn", "gtxns", "global", "asset_params_get", "asset_holding_get", "app_params_get", "json_ref":
				if len(have) == 0 {
					x.fail("hint", "%q in line %d of %q has no hint, but means %s", t.s, li, text, name)
				}
			}
			x.probe("named_hints_compared")
		}
	}
	for p, h := range got {
		x.fail("hint", "hints %q at %v, where no token of %q ends", h, p, text)
	}
	x.Trivial = false
	x.state("hints", named, decoded, strings.Contains(text, "\r\n"))
}

func (p pos) before(q pos) bool {
	return p.Line < q.Line || p.Line == q.Line && p.Char < q.Char
}

type fix struct {
	Title   string `json:"title"`
	Command struct {
		Command   string `json:"command"`
		Arguments []struct {
			Name  string `json:"name"`
			Line  int    `json:"line"`
			Range rng    `json:"range"`
		} `json:"arguments"`
	} `json:"command"`
}

// within: the client asks for a part of the document only, as an editor does
// for what is visible or selected. It gets what belongs to the tokens inside,
// and nothing that belongs to tokens the part does not touch.
func (c *aidClient) within(u, text string, a []int) {
	x := c.x
	ls := splitLines(text)
	end := func(n, k int) pos {
		l := n % len(ls)
		return pos{l, k % (u16len(ls[l]) + 2)}
	}
	part := rng{end(a[0], a[1]), end(a[2], a[3])}
	if part.End.before(part.Start) {
		part.Start, part.End = part.End, part.Start
	}
	inside := func(t rng) bool { return !t.Start.before(part.Start) && !part.End.before(t.End) }
	touched := func(t rng) bool { return !t.End.before(part.Start) && !part.End.before(t.Start) }

	all := c.allHints(u, text)
	var got []hint
	c.req("textDocument/inlayHint", obj{"textDocument": obj{"uri": u}, "range": part}, &got)
	token := func(h hint) rng {
		for _, t := range lineTokens(ls[h.Position.Line]) {
			if t.e == h.Position.Char {
				return rng{pos{h.Position.Line, t.b}, h.Position}
			}
		}
		return rng{h.Position, h.Position}
	}
	count := func(hs []hint, h hint) (n int) {
		for _, o := range hs {
			if o == h {
				n++
			}
		}
		return
	}
	for _, h := range all {
		if inside(token(h)) && count(got, h) != count(all, h) {
			x.fail("range", "the hint %q at %v of %q is missing among those of %v: %v", h.Label, h.Position, text, part, got)
		}
	}
	for _, h := range got {
		if count(all, h) != count(got, h) || !touched(token(h)) {
			x.fail("range", "the hint %q at %v of %q is among those of %v", h.Label, h.Position, text, part)
		}
	}

	ask := func(part rng) []fix {
		var as []fix
		c.req("textDocument/codeAction", obj{"textDocument": obj{"uri": u}, "range": part, "context": obj{"diagnostics": []any{}}}, &as)
		return as
	}
	where := func(t fix) []rng {
		var out []rng
		for _, g := range t.Command.Arguments {
			switch t.Command.Command {
			case "teal.value.replace":
				out = append(out, g.Range)
			case "teal.label.create":
				for _, o := range occurrences(text) {
					if !o.def && o.name == g.Name {
						out = append(out, rng{pos{o.line, o.b}, pos{o.line, o.e}})
					}
				}
			}
		}
		return out
	}
	any := func(rs []rng, f func(rng) bool) bool {
		for _, r := range rs {
			if f(r) {
				return true
			}
		}
		return false
	}
	offered := ask(part)
	for _, t := range ask(rng{pos{0, 0}, pos{len(ls), 1 << 20}}) {
		if any(where(t), inside) {
			found := false
			for _, o := range offered {
				found = found || reflect.DeepEqual(o, t)
			}
			if !found {
				x.fail("range", "the action %q for %v of %q is missing among those of %v: %v", t.Title, where(t), text, part, offered)
			}
		}
	}
	for _, t := range offered {
		if w := where(t); len(w) > 0 && !any(w, touched) {
			x.fail("range", "the action %q for %v of %q is among those of %v", t.Title, w, text, part)
		}
	}
	x.Trivial = false
	x.probe("parts_compared")
	x.state("range", len(all), len(got), len(offered), part.Start.Line == part.End.Line)
}

// label: completion in a label operand offers the labels of the text.
func (c *aidClient) label(u, text string, a []int) {
	x := c.x
	if versionOf(text) < 8 {
		return
	}
	occs := occurrences(text)
	var uses []occ
	defs := map[string]bool{}
	for _, o := range occs {
		if o.def {
			defs[o.name] = true
		} else {
			uses = append(uses, o)
		}
	}
	if len(uses) == 0 {
		return
	}
	o := uses[a[0]%len(uses)]
	ch := o.b + 1 + a[1]%(o.e-o.b)
	var want []string
	for d := range defs {
		want = append(want, d)
	}
	sort.Strings(want)
	have := labelsOf(c.complete(u, pos{o.line, ch}))
	if !reflect.DeepEqual(want, have) {
		x.fail("label", "labels offered at %d:%d of %q: expected %q, got %q", o.line, ch, text, want, have)
	}
	x.Trivial = false
	x.probe("label_completions_compared")
	x.state("label", len(want), o.b == o.e)
}

// field: the client types an instruction with a field operand, asks for
// completions and accepts one.
func (c *aidClient) field(u, text string, ver int, a []int) {
	x := c.x
	f := fieldOps[a[0]%len(fieldOps)]
	if ver < f.ver || (f.app && logicsig(text)) {
		return
	}
	ind := []string{"", " ", "\t\t", "  "}[a[1]%4]
	head := ind + f.op + []string{" ", "  "}[a[1]/4%2] + f.before
	known := f.names[a[2]%len(f.names)]
	typed := head
	if k := a[1] / 8 % 4; k > 0 {
		typed += known[:min(k, len(known))]
	}
	full := func(name string) (int, []string) {
		t, li := insertLine(text, head+name+f.after)
		c.change(u, t)
		return li, c.problems(u, li)
	}
	t, li := insertLine(text, typed)
	if li < 0 {
		return
	}
	c.change(u, t)
	items := c.complete(u, pos{li, len(typed)})
	offered := map[string]completion{}
	for _, i := range items {
		offered[i.Label] = i
	}
	_, bad := full(known)
	if _, ok := offered[known]; !ok && len(bad) == 0 {
		x.fail("field", "%q is accepted, but completing %q in version %d does not offer it: %q", known, typed, ver, labelsOf(items))
	}
	if len(items) > 0 {
		it := items[a[3]%len(items)]
		if _, bad := full(it.Label); len(bad) > 0 {
			x.fail("field", "completing %q in version %d of %q offers %q, which is then refused: %q", typed, ver, text, it.Label, bad)
		}
		x.probe("fields_accepted")
		if n, ok := number(it.Detail.Detail); ok && f.op != "int" {
			// the number it is said to stand for means the same
			name := c.hover(u, pos{li, len(head) + 1})
			if _, bad := full(fmt.Sprint(n)); len(bad) == 0 {
				if got := c.hover(u, pos{li, len(head)}); got != name {
					x.fail("field", "%s%s is offered as %d, but hovering says %q for the name and %q for the number", head, it.Label, n, name, got)
				}
				x.probe("field_numbers_compared")
			}
		}
	}
	x.Trivial = false
	x.state("field", f.op, ver, len(items), known)
}

var tabStops = regexp.MustCompile(`\$(?:\{(\d+)(?::([^}]*))?\}|(\d+))`)

// placeholders says whether a snippet is the instruction followed by operands to
// fill in.
func placeholders(ins, name string) bool {
	rest, ok := strings.CutPrefix(ins, name)
	return ok && strings.TrimSpace(tabStops.ReplaceAllString(rest, "")) == ""
}

func aidImms(g *opsGen, kind string) []string {
	if kind == "idx1" {
		return []string{"1"}
	}
	return g.imms(kind)
}

// op: the client types the beginning of an instruction.
func (c *aidClient) op(u, text string, ver int, a []int) {
	x := c.x
	name := avmOpNames[a[0]%len(avmOpNames)]
	imm := func(n string) (string, bool) {
		op, ok := avmOps[n]
		if !ok || (ver < 8 && op.imm != "") {
			return "", false
		}
		g := &opsGen{r: simrt.NewRand(uint64(a[1]))}
		return strings.Join(append([]string{n}, aidImms(g, op.imm)...), " "), true
	}
	ind := []string{"", "", " ", "\t"}[a[2]%4]
	prefix := name[:a[2]/4%(len(name)+1)]
	t, li := insertLine(text, ind+prefix)
	if li < 0 {
		return
	}
	c.change(u, t)
	items := c.complete(u, pos{li, len(ind) + len(prefix)})
	offered := map[string]bool{}
	var ops []string
	var snips []completion
	for _, i := range items {
		if i.Kind == 15 {
			snips = append(snips, i)
			continue
		}
		if i.Insert != "" && !placeholders(i.Insert, i.Label) {
			x.fail("op", "completing %q offers %q, but inserts %q", prefix, i.Label, i.Insert)
		}
		if !strings.HasPrefix(i.Label, prefix) {
			x.fail("op", "completing %q offers %q", prefix, i.Label)
		}
		offered[i.Label] = true
		ops = append(ops, i.Label)
	}
	full := func(n string) (ok, accepted bool, why []string) {
		ln, ok := imm(n)
		if !ok {
			return false, false, nil
		}
		t, li := insertLine(text, ind+ln)
		c.change(u, t)
		why = c.problems(u, li)
		return true, len(why) == 0, why
	}
	if ok, good, _ := full(name); ok && good && !offered[name] {
		x.fail("op", "%q is accepted in version %d, but completing %q does not offer it: %q", name, ver, prefix, ops)
	}
	if len(ops) > 0 {
		n := ops[a[3]%len(ops)]
		if ok, good, why := full(n); ok && !good {
			x.fail("op", "completing %q in version %d of %q offers %q, which is then refused: %q", prefix, ver, text, n, why)
		} else if ok {
			x.probe("ops_accepted")
		}
	}
	if len(snips) > 0 && ver >= 8 && !logicsig(text) {
		// the snippet with a name of its own for every tab stop
		s := snips[a[3]%len(snips)]
		body := tabStops.ReplaceAllStringFunc(s.Insert, func(m string) string {
			g := tabStops.FindStringSubmatch(m)
			if _, err := strconv.Atoi(g[2]); err == nil {
				return g[2] // a number
			}
			if g[2] == "" {
				return "" // where the cursor ends up
			}
			return "tab" + g[1]
		})
		t := "#pragma version 8\nint 1\nreturn\n" + body
		c.change(u, t)
		for _, d := range c.diagnostics(u) {
			if d.sev == 1 {
				x.fail("snippet", "the snippet %q expands to %q, in which %q is reported", s.Label, t, d.msg)
			}
		}
		x.probe("snippets_accepted")
		c.change(u, text)
	}
	x.Trivial = false
	x.state("op", name, ver, len(prefix))
}

// named: putting the name a hint shows in place of the number means the same.
func (c *aidClient) named(u, text string, a []int) {
	x := c.x
	f := fieldOps[a[0]%(len(fieldOps)-1)]
	if f.app && logicsig(text) {
		return
	}
	num := fmt.Sprint(a[1] % 70)
	head := f.op + " " + f.before
	t, li := insertLine(text, head+num+f.after)
	if li < 0 {
		return
	}
	c.change(u, t)
	before := c.problems(u, li)
	h1 := c.hover(u, pos{li, len(head) + a[2]%(len(num)+1)})
	name := ""
	for _, h := range c.allHints(u, t) {
		if h.Position == (pos{li, len(head) + len(num)}) {
			name = h.Label
		}
	}
	if name == "" {
		return
	}
	t, _ = insertLine(text, head+name+f.after)
	c.change(u, t)
	if after := c.problems(u, li); len(before) == 0 && len(after) > 0 {
		x.fail("named", "%s%s%s is shown as %s, which is refused: %q", head, num, f.after, name, after)
	}
	if h2 := c.hover(u, pos{li, len(head) + a[3]%(len(name)+1)}); len(before) == 0 && h1 != h2 {
		x.fail("named", "%s%s%s is shown as %s, but hovering says %q for the number and %q for the name", head, num, f.after, name, h1, h2)
	}
	x.Trivial = false
	x.probe("named_accepted")
	x.state("named", f.op, num)
}

// sig: signature help shows the instruction and the operand at the cursor.
func (c *aidClient) sig(u, text string, ver int, a []int) {
	x := c.x
	if ver < 8 {
		return
	}
	name := avmOpNames[a[0]%len(avmOpNames)]
	g := &opsGen{r: simrt.NewRand(uint64(a[1]))}
	imms := aidImms(g, avmOps[name].imm)
	if len(imms) == 0 {
		return
	}
	ln := name
	k := a[2] % len(imms)
	ch := 0
	for i, m := range imms {
		ln += " "
		if i == k {
			ch = len(ln) + a[3]%(len(m)+1)
		}
		ln += m
	}
	t, li := insertLine(text, ln)
	if li < 0 {
		return
	}
	c.change(u, t)
	var h struct {
		Signatures []struct {
			Label      string `json:"label"`
			Active     *int   `json:"activeParameter"`
			Parameters []struct {
				Label string `json:"label"`
			} `json:"parameters"`
		} `json:"signatures"`
	}
	c.req("textDocument/signatureHelp", at(u, pos{li, ch}), &h)
	if len(h.Signatures) != 1 || h.Signatures[0].Active == nil {
		x.fail("signature", "no signature at %d of %q", ch, ln)
	}
	s := h.Signatures[0]
	if !strings.Contains(s.Label, name) {
		x.fail("signature", "the signature at %d of %q is %q", ch, ln, s.Label)
	}
	if strings.Count(s.Label, "[") != strings.Count(s.Label, "]") {
		x.fail("signature", "the signature at %d of %q is %q", ch, ln, s.Label)
	}
	if n, op := len(s.Parameters), asmOps[name]; n == 0 || op.imm != "" && !strings.Contains(op.imm, "*") && n < len(imms) {
		x.fail("signature", "the signature of %q has %d parameters", ln, n)
	}
	if n := len(s.Parameters); *s.Active != k && !(k >= n && *s.Active == n-1) {
		x.fail("signature", "parameter %d is shown at %d of %q, not %d", *s.Active, ch, ln, k)
	}
	x.Trivial = false
	x.probe("signatures_compared")
	x.state("sig", name, k)
}

func init() {
	register(&Prop{
		ID: "P26", Level: "exploration",
		Rule:      "an edit history over documents of all versions and both modes in which the client types instructions, asks for completions, accepts a seeded one, replaces numbers by the names hints show, and compares lenses, hints, label completions and signature help with a reference reading of the text; what is accepted is sent and must not be refused; non-trivial: at least one suggestion judged",
		StateRule: "hash of (kind of suggestion, instruction, version, number of suggestions)",
		Quick:     100000, Thorough: 4800000, Chunk: 300,
		Real: realLsp, Stub: stubIO + "; the editor accepting suggestions",
		Gen: genP26, Run: runP26,
	})
}
