//go:build go1.22

package main

import (
	"encoding/hex"
	"fmt"
	"strings"
)

var labelPool = []string{"a", "ab", "a_b", "main", "loop", "end", "int", "sub1", "π", "😀x", "x😀", "étiq", "l0", "l1", "A", "done", "b", "x:y"}
var wsPool = []string{" ", " ", " ", "\t", "  ", " \t "}

func genHexPrintable(r *Rand) string {
	pool := []string{"hello", "a", "", "a b", "say \"hi\"", "back\\slash", "\\", "\\n", "\"", "x//y", "tr\\", "0x41", "'"}
	return "0x" + hex.EncodeToString([]byte(pick(r, pool)))
}

func genLine(r *Rand, labels []string) string {
	l := func() string { return pick(r, labels) }
	ws := func() string { return pick(r, wsPool) }
	switch r.Intn(46) {
	case 0, 1, 2:
		return l() + ":"
	case 3:
		return ws() + l() + ":" + ws() + "// " + l()
	case 4, 5:
		return "b " + l()
	case 6:
		return "bnz" + ws() + l()
	case 7:
		return "bz " + l() + " // back to " + l()
	case 8:
		return "callsub " + l()
	case 9:
		return "switch" + ws() + l() + ws() + l() + ws() + l()
	case 10:
		return "match " + l() + " " + l()
	case 11:
		return fmt.Sprintf("int %d", r.Intn(300))
	case 12:
		return pick(r, []string{"int 0x41", "int NoOp", "int pay", "int OptIn", "int 99999999999999999999", "int -1", "int abc", "int 010", "pushint 7", "pushint 0x10", "intcblock 1 2 3", "intc 1", "intc_0", "pushints 1 2 3"})
	case 13:
		return "byte " + genHexPrintable(r)
	case 14:
		return pick(r, []string{`byte "hello"`, `byte "a\"b"`, `byte "é😀"`, `byte "x:"`, `byte "// no comment" // yes`, `byte "\\"`, `byte "\x41"`, `byte "tab\t"`, `byte ""`, `byte "a b c" // "q"`})
	case 15:
		return pick(r, []string{`byte base64(aGVsbG8=)`, `byte b64 aGVsbG8=`, `byte base32(NBSWY3DP)`, `byte b32 NBSWY3DP`, `byte base64(!!)`, `byte b64`, `byte base64(`, `byte 0xzz`, `byte 0x0`, `byte 0xff00`, `pushbytes 0x414243`, `pushbytess 0x41 "b"`, `bytecblock 0x41 0x42`, `bytec 0`, "byte"})
	case 16:
		return pick(r, []string{`byte "unclosed`, `byte "unclosed // c`, `method "add(uint64)uint64`, `"`, `byte "`, `byte "a\"`, `int "5`})
	case 17, 18:
		return pick(r, []string{"txn Sender", "txn 0", "txn 25", "txn OnCompletion", "txn 255", "txn Nope", "txna ApplicationArgs 0", "txna 26 1", "gtxn 0 Amount", "gtxn 0 8", "gtxna 0 Accounts 1", "gtxns Sender", "txnas Accounts", "itxn Logs", "itxn_field Amount", "itxn_field 8", "itxna Logs 0", "gitxn 0 Fee", "gtxnas 0 28", "gtxnsa ApplicationArgs 0"})
	case 19:
		return pick(r, []string{"global MinTxnFee", "global 0", "global 9", "global Round", "global 99"})
	case 20:
		return pick(r, []string{"asset_params_get 3", "asset_params_get AssetName", "asset_holding_get 0", "asset_holding_get AssetFrozen", "app_params_get 1", "app_params_get AppCreator", "acct_params_get 1", "acct_params_get AcctBalance"})
	case 21:
		return pick(r, []string{"block 0", "block BlkSeed", "vrf_verify 0", "vrf_verify VrfAlgorand", "json_ref 1", "json_ref JSONString", "base64_decode 0", "base64_decode URLEncoding", "ecdsa_verify 0", "ecdsa_verify Secp256r1", "ecdsa_pk_decompress 1", "ec_add 0", "ec_add BN254g1"})
	case 22:
		return pick(r, []string{`method "add(uint64,uint64)uint64"`, `method "x"`, "method add", "addr 7JOPVEP3ABJUW5YZ5WFIONLPWTZ5MYX5HFK4K7JLGSIAG7RRB42MNLQ224", "addr ABC", "addr"})
	case 23:
		return pick(r, []string{"//", "// comment", "//#pragma mode logicsig", "// #pragma mode logicsig", "// π 😀 // more", "/ not a comment", "/", "///", "//\t", "// a\x00b", "// \u2028\u0085\ufeff", "// 100% %s %d %!x", "//%", "// {}\\n $1 `x`"})
	case 24:
		return pick(r, []string{"", " ", "\t", "", ""})
	case 25:
		return pick(r, []string{"unknownop", "foo bar baz", "Int 1", "0x41", ":", "::", "#define x", "#pragma", "#pragma typetrack false", "#pragma version", "#pragma version abc", "#pragma version 0"})
	case 26:
		return pick(r, []string{"int 1 2", "pop 1", "return 5 6 7", "b a b c", "dup extra", "+ 1", "txn Sender 1 2 3", "int 1 // ok"})
	case 27:
		return pick(r, []string{"proto 1 1", "proto 0 0", "proto 2", "proto 300 1", "frame_dig -1", "frame_bury 0", "retsub", "retsub"})
	case 28:
		return pick(r, []string{"return", "err", "assert", "return // done"})
	case 29:
		return pick(r, []string{"pop", "dup", "dup2", "swap", "select", "+", "-", "*", "/", "%", "==", "!=", "&&", "||", "!", "concat", "len", "itob", "btoi", "substring 0 1", "extract 1 2", "dig 1", "cover 2", "uncover 1", "bury 1", "popn 2", "dupn 3", "store 1", "load 255", "load 256", "stores", "loads", "arg 0", "arg_1", "args", "sqrt", "exp", "divw", "replace2 1", "sha3_256"})
	case 30:
		return pick(r, []string{"sha256", "keccak256", "sha512_256", "ed25519verify", "box_create", "box_get", "log", "itxn_begin", "itxn_next", "itxn_submit", "app_global_get", "app_global_put", "balance", "min_balance", "bsqrt", "b+", "b<", "setbit", "getbyte", "gload 0 1", "gloads 2", "gaid 1", "min", "app_opted_in"})
	case 31:
		return ws() + pick(r, []string{"int 1", "pop", "return"}) + ws()
	case 32:
		// arbitrary runes
		n := r.Intn(20)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteRune(pick(r, []rune{'a', ' ', '"', '\\', '/', ':', '0', 'x', '\t', 'é', '😀', 0, 0x7f, 0x2028, 0xfeff, '#', '(', ')', '\'', 0x301, 'ﬀ', '𝒳', 0xfffd}))
		}
		return b.String()
	case 33:
		return "#pragma version " + fmt.Sprint(1+r.Intn(12))
	case 34:
		return "int 1\u00a0// nbsp"
	case 35:
		return l() + ": " + pick(r, []string{"int 1", "b a", "extra tokens here"})
	case 36:
		if r.Bool(1, 3) {
			return genWide(r, labels)
		}
		return genField(r)
	default:
		return pick(r, []string{"int 1", "int 0", "pop", "dup", "txn Fee", "global Round", "assert", "byte 0x61", "return"})
	}
}

// genWide makes a line whose tokens lie far to the right or are many.
func genWide(r *Rand, labels []string) string {
	pad := strings.Repeat(pick(r, []string{" ", "\t", " "}), pick(r, []int{60, 130, 260, 1030, 4100, 5000}))
	switch r.Intn(6) {
	case 0:
		return pad + pick(r, []string{"unknownop", "int 1", "b nowhere", "txn 0", "byte 0x6162", pick(r, labels) + ":"})
	case 1:
		return "int" + pad + pick(r, []string{"1", "abc", "1 2"})
	case 2:
		return "b" + pad + pick(r, labels)
	case 3:
		return "byte \"" + pad + "\" extra"
	case 4:
		return pick(r, []string{"switch", "match"}) + strings.Repeat(" "+pick(r, labels), 5+r.Intn(40)) + " " + pick(r, labels)
	}
	return "pushints" + strings.Repeat(" 7", 5+r.Intn(300)) + pick(r, []string{"", " x"})
}

// genField makes an instruction with a numeric field argument.
func genField(r *Rand) string {
	n := r.Intn(70)
	switch r.Intn(6) {
	case 0:
		n = r.Intn(12)
	case 1:
		n = pick(r, []int{256, 512, 65536, 1 << 32}) + r.Intn(12)
	case 2:
		n = 100 + r.Intn(170)
	}
	s := fmt.Sprint(n)
	if r.Bool(1, 12) {
		s = pick(r, []string{"+", "-", "0", "00"}) + s
	}
	switch r.Intn(4) {
	case 0:
		return pick(r, []string{"gtxn 0 ", "gtxna 0 ", "gitxn 1 ", "gtxnas 0 ", "gtxn 8 "}) + s + pick(r, []string{"", " 0", " 1"})
	case 1:
		return pick(r, []string{"txna ", "gtxnsa ", "itxna "}) + s + " " + fmt.Sprint(r.Intn(4))
	}
	return pick(r, []string{"txn ", "txn ", "global ", "itxn ", "gtxns ", "itxn_field ", "asset_params_get ", "asset_holding_get ", "app_params_get ", "acct_params_get ", "block ", "vrf_verify ", "json_ref ", "base64_decode ", "ecdsa_verify ", "txnas "}) + s
}

func genEol(r *Rand, style int) string {
	switch style {
	case 0:
		return "\n"
	case 1:
		return "\r\n"
	case 2:
		return pick(r, []string{"\n", "\r\n"})
	}
	return pick(r, []string{"\n", "\r\n", "\r", "\n\n", "\r\r\n"})
}

func eolStyle(r *Rand) int {
	switch r.Intn(10) {
	case 0, 1:
		return 1
	case 2:
		return 2
	case 3:
		return 3
	}
	return 0
}

func genLabels(r *Rand) []string {
	n := 1 + r.Intn(6)
	var ls []string
	for i := 0; i < n; i++ {
		ls = append(ls, pick(r, labelPool))
	}
	return ls
}

// genPragma makes a numeric version pragma.
func genPragma(r *Rand) string {
	v := 1 + r.Intn(11)
	if r.Bool(4, 5) {
		return fmt.Sprintf("#pragma version %d", v)
	}
	return pick(r, wsPool) + "#pragma" + pick(r, wsPool) + "version" + pick(r, wsPool) +
		fmt.Sprintf(pick(r, []string{"%d", "0x%x", "0%o", "0b%b", "0x0%x", "0o%o"}), v) + pick(r, []string{"", "", " ", "\t// v", " // version 3"})
}

func genText(r *Rand, n int) string {
	labels := genLabels(r)
	st := eolStyle(r)
	var b strings.Builder
	if r.Bool(2, 3) {
		b.WriteString(genPragma(r))
		b.WriteString(genEol(r, st))
	}
	for i := 0; i < n; i++ {
		b.WriteString(genLine(r, labels))
		if i < n-1 || r.Bool(2, 3) {
			b.WriteString(genEol(r, st))
		}
	}
	return b.String()
}

// editText derives a new text from an old one.
func editText(r *Rand, s string) string {
	switch r.Intn(11) {
	case 9: // white space at the ends only
		switch r.Intn(5) {
		case 0:
			return s + pick(r, []string{"\n", "\r\n", " ", "\t", "\n\n\n", " \n"})
		case 1:
			return strings.TrimRight(s, " \t\r\n")
		case 2:
			return pick(r, []string{"\n", " ", "\t", "\r\n"}) + s
		case 3:
			return strings.TrimLeft(s, " \t\r\n")
		}
		return strings.TrimSpace(s)
	case 10: // change of case or of a line end only
		switch r.Intn(3) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ReplaceAll(s, "\r\n", "\n")
		}
		return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	case 0:
		return genText(r, r.Intn(12))
	case 1: // equal-length edit: change one ASCII letter or digit
		b := []byte(s)
		for t := 0; t < 20 && len(b) > 0; t++ {
			i := r.Intn(len(b))
			if (b[i] >= '0' && b[i] <= '9') || (b[i] >= 'a' && b[i] <= 'z') {
				b[i] = pick(r, []byte("0123456789abxyz"))
				break
			}
		}
		return string(b)
	case 2: // swap two lines (same length)
		ls := strings.Split(s, "\n")
		i, j := r.Intn(len(ls)), r.Intn(len(ls))
		ls[i], ls[j] = ls[j], ls[i]
		return strings.Join(ls, "\n")
	case 3: // delete a line
		ls := strings.Split(s, "\n")
		i := r.Intn(len(ls))
		return strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), "\n")
	case 4, 5: // insert a line
		ls := strings.Split(s, "\n")
		i := r.Intn(len(ls) + 1)
		out := append([]string{}, ls[:i]...)
		out = append(out, genLine(r, genLabels(r)))
		return strings.Join(append(out, ls[i:]...), "\n")
	case 6:
		return ""
	case 7:
		return s
	}
	// replace a line by another
	ls := strings.Split(s, "\n")
	ls[r.Intn(len(ls))] = genLine(r, genLabels(r))
	return strings.Join(ls, "\n")
}

var uriPool = []string{"file:///a.teal", "file:///b.teal", "file:///a.teal2", "file:///A.teal", "file:///simdisk/d.teal", "file:///dir/a%20b.teal", "file:///dir/a b.teal", "file:///dir/../a.teal",
	"untitled:Untitled-1", "untitled:untitled-1", "file:///é.teal", "file:///%C3%A9.teal", "file:///a", "file:///a/", "file:///a.teal/", "file:///a.teal#x", "file:///a.teal?x", "git:/a.teal?q", "file:///c%3A/x.teal", "file:///c:/x.teal"}

// lspGen generates language-server sessions as concrete messages.
type lspGen struct {
	r      *Rand
	docs   map[string]string // open documents
	order  []string
	prev   map[string][]string // earlier texts
	id     int
	strIDs int // 0 ints, 1 strings, 2 mixed
	ops    []Op
	size   int // lines per document
	uris   []string
	shut   bool
	many   bool
}

func newLspGen(r *Rand) *lspGen {
	g := &lspGen{r: r, docs: map[string]string{}, prev: map[string][]string{}, id: r.Intn(5) - 2, strIDs: r.Intn(3), size: 1 + r.Intn(14)}
	n := 1 + r.Intn(3)
	if r.Bool(1, 12) {
		n = 3 + r.Intn(6)
	}
	if r.Bool(1, 80) {
		// many documents at once
		g.many = true
		g.size = 1 + r.Intn(3)
		for i := 9 + r.Intn(70); i > 0; i-- {
			g.uris = append(g.uris, fmt.Sprintf("file:///many/m%d.teal", i))
		}
		return g
	}
	off := r.Intn(len(uriPool))
	for i := 0; i < n; i++ {
		g.uris = append(g.uris, uriPool[(off+i)%len(uriPool)])
	}
	return g
}

type obj = map[string]any

func (g *lspGen) emit(k string, m obj) {
	m["jsonrpc"] = "2.0"
	g.ops = append(g.ops, Op{K: k, J: jstr(m)})
}

func (g *lspGen) newID() any {
	g.id++
	id := g.id
	if g.r.Bool(1, 15) {
		g.id += g.r.Intn(100000)
	}
	if g.r.Bool(1, 200) {
		g.id = 1<<31 - 100 + g.r.Intn(90)
	}
	if g.strIDs == 1 || (g.strIDs == 2 && g.r.Bool(1, 2)) {
		if id == 0 && g.r.Bool(1, 2) {
			return ""
		}
		return fmt.Sprintf("%s%d", pick(g.r, []string{"r-", "", "é", "<&>"}), id)
	}
	return id
}

func (g *lspGen) ntf(method string, params any) {
	g.emit("ntf", obj{"method": method, "params": params})
}
func (g *lspGen) req(method string, params any) {
	m := obj{"id": g.newID(), "method": method}
	if params != nil {
		m["params"] = params
	}
	g.emit("req", m)
}
func (g *lspGen) breq(method string, params any) {
	m := obj{"id": g.newID(), "method": method}
	if params != nil {
		m["params"] = params
	}
	g.emit("breq", m)
}

func (g *lspGen) initialize() {
	p := obj{"processId": nil, "capabilities": obj{}}
	if g.r.Bool(1, 2) {
		p["initializationOptions"] = genOptions(g.r)
	}
	if g.r.Bool(1, 4) {
		p["clientInfo"] = obj{"name": "sim", "version": "1"}
	}
	g.req("initialize", p)
	if g.r.Bool(2, 3) {
		g.ntf("initialized", obj{})
	}
}

var optionNames = []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"}

func genOptions(r *Rand) obj {
	o := obj{}
	for _, n := range optionNames {
		switch r.Intn(3) {
		case 0:
			o[n] = true
		case 1:
			o[n] = false
		}
	}
	return o
}

func (g *lspGen) open(uri, text string) {
	if _, ok := g.docs[uri]; !ok {
		g.order = append(g.order, uri)
	}
	g.docs[uri] = text
	g.ntf("textDocument/didOpen", obj{"textDocument": obj{"uri": uri, "languageId": "teal", "version": 1, "text": text}})
}

func (g *lspGen) change(uri string, texts ...string) {
	g.prev[uri] = append(g.prev[uri], g.docs[uri])
	var cs []obj
	for _, t := range texts {
		cs = append(cs, obj{"text": t})
		g.docs[uri] = t
	}
	g.ntf("textDocument/didChange", obj{"textDocument": obj{"uri": uri, "version": 2}, "contentChanges": cs})
}

func (g *lspGen) close(uri string) {
	delete(g.docs, uri)
	for i, u := range g.order {
		if u == uri {
			g.order = append(g.order[:i:i], g.order[i+1:]...)
			break
		}
	}
	g.ntf("textDocument/didClose", obj{"textDocument": obj{"uri": uri}})
}

func (g *lspGen) anyOpen() string {
	if len(g.order) == 0 {
		u := pick(g.r, g.uris)
		g.open(u, genText(g.r, g.size))
		return u
	}
	return pick(g.r, g.order)
}

func (g *lspGen) pos(text string) obj {
	r := g.r
	ls := splitLines(text)
	line := r.Intn(len(ls) + 1)
	ch := 0
	if line < len(ls) {
		ch = r.Intn(u16len(ls[line]) + 2)
	}
	if r.Bool(1, 25) {
		line = pick(r, []int{1000, 65536, 1 << 30})
	}
	if r.Bool(1, 25) {
		ch = pick(r, []int{1000, 65536, 1 << 30})
	}
	return obj{"line": line, "character": ch}
}

func (g *lspGen) rng(text string) obj {
	r := g.r
	if r.Bool(1, 3) {
		return obj{"start": obj{"line": 0, "character": 0}, "end": obj{"line": len(splitLines(text)), "character": 100000}}
	}
	a, b := g.pos(text), g.pos(text)
	if a["line"].(int) > b["line"].(int) {
		a, b = b, a
	}
	if a["line"] == b["line"] && a["character"].(int) > b["character"].(int) {
		a, b = b, a
	}
	return obj{"start": a, "end": b}
}

var docMethods = []string{
	"textDocument/diagnostic", "textDocument/diagnostic", "textDocument/hover", "textDocument/completion", "textDocument/signatureHelp",
	"textDocument/definition", "textDocument/documentHighlight", "textDocument/documentSymbol", "textDocument/codeAction", "textDocument/codeAction",
	"textDocument/rename", "textDocument/prepareRename", "textDocument/semanticTokens/full", "textDocument/inlayHint", "textDocument/inlayHint",
	"textDocument/codeLens", "textDocument/formatting", "textDocument/inlineValue",
}

func (g *lspGen) docParams(method, uri, text string) obj {
	p := obj{"textDocument": obj{"uri": uri}}
	switch method {
	case "textDocument/hover", "textDocument/completion", "textDocument/signatureHelp", "textDocument/definition", "textDocument/documentHighlight", "textDocument/prepareRename":
		p["position"] = g.pos(text)
	case "textDocument/rename":
		p["position"] = g.pos(text)
		p["newName"] = pick(g.r, []string{"renamed", "x", "é", "😀"})
	case "textDocument/codeAction":
		p["range"] = g.rng(text)
		p["context"] = obj{"diagnostics": []any{}}
	case "textDocument/inlayHint", "textDocument/inlineValue":
		p["range"] = g.rng(text)
	case "textDocument/formatting":
		p["options"] = obj{"tabSize": 4, "insertSpaces": true}
	}
	return p
}

func (g *lspGen) docReq() {
	uri := g.anyOpen()
	g.docReqFor(uri)
}

func (g *lspGen) docReqFor(uri string) {
	m := pick(g.r, docMethods)
	g.req(m, g.docParams(m, uri, g.docs[uri]))
}

func (g *lspGen) command(uri, text string) {
	r := g.r
	switch r.Intn(5) {
	case 0:
		g.req("workspace/executeCommand", obj{"command": "teal.version.update", "arguments": []any{obj{"uri": uri, "version": 1 + r.Intn(10)}}})
	case 1:
		g.req("workspace/executeCommand", obj{"command": "teal.value.replace", "arguments": []any{obj{"uri": uri, "range": g.rng(text), "value": "v"}}})
	case 2:
		g.req("workspace/executeCommand", obj{"command": "teal.line.remove", "arguments": []any{obj{"uri": uri, "line": r.Intn(10)}}})
	case 3:
		g.req("workspace/executeCommand", obj{"command": "teal.label.remove", "arguments": []any{obj{"uri": uri, "name": pick(r, labelPool)}}})
	default:
		g.req("workspace/executeCommand", obj{"command": "teal.label.create", "arguments": []any{obj{"uri": uri, "name": pick(r, labelPool)}}})
	}
}

// edit makes one document-synchronisation step.
func (g *lspGen) edit() {
	r := g.r
	uri := pick(r, g.uris)
	text, open := g.docs[uri]
	if !open {
		g.open(uri, genText(r, r.Intn(g.size+1)))
		return
	}
	switch r.Intn(14) {
	case 0:
		g.close(uri)
	case 1:
		g.open(uri, editText(r, text)) // re-open without close
	case 2:
		g.ntf("textDocument/didSave", obj{"textDocument": obj{"uri": uri}})
	case 3:
		if ps := g.prev[uri]; len(ps) > 0 {
			g.change(uri, pick(r, ps))
			return
		}
		g.change(uri, editText(r, text))
	case 4, 5:
		a := editText(r, text)
		b := editText(r, a)
		g.change(uri, a, b)
	case 6:
		// another document's text
		g.change(uri, g.docs[g.anyOpen()])
	case 7:
		g.close(uri)
		g.open(uri, editText(r, text))
	default:
		g.change(uri, editText(r, text))
	}
}

// bad appends a message that must be answered with an error or dropped.
// Its id, if it has one, starts with "bad".
func (g *lspGen) bad() {
	r := g.r
	g.id++
	id := fmt.Sprintf("bad%d", g.id)
	raw := func(s string) { g.ops = append(g.ops, Op{K: "bad", J: s}) }
	m := func(o obj) {
		o["jsonrpc"] = "2.0"
		raw(jstr(o))
	}
	uri := g.anyOpen()
	meth := pick(r, docMethods)
	switch r.Intn(27) {
	case 24:
		// a change of an open document that cannot be applied as a whole
		good := obj{"text": editText(r, g.docs[uri])}
		m(obj{"method": "textDocument/didChange", "params": obj{"textDocument": pick(r, []any{obj{"uri": uri}, obj{"uri": uri}, nil}), "contentChanges": pick(r, []any{
			[]any{good, nil}, []any{nil, good}, []any{nil}, []any{good, 5}, []any{good, obj{"text": 5}}, obj{"text": "int 3"}, []any{good, good, nil}})}})
	case 25:
		// an open or close of an open document that cannot be understood
		m(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": uri, "text": pick(r, []any{5, obj{}, []any{"int 1"}, true})}}})
	case 26:
		o := genOptions(r)
		o[pick(r, optionNames)] = pick(r, []any{"no", 5, obj{}, []any{}})
		m(obj{"id": id, "method": "initialize", "params": obj{"initializationOptions": o}})
	case 0:
		raw(pick(r, []string{"", "{", "}", "null", "[]", "1", "\"x\"", "{}", "nonsense", "[{}]", "true", "{\"jsonrpc\":", "\x00", "{\"id\":1}}", "{'a':1}"}))
	case 1:
		s := jstr(obj{"jsonrpc": "2.0", "id": id, "method": meth, "params": g.docParams(meth, uri, g.docs[uri])})
		raw(s[:r.Intn(len(s))]) // torn JSON
	case 2:
		m(obj{"id": id, "method": pick(r, []string{"textDocument/unknown", "foo", "workspace/symbol", "textDocument/", "$/unknown", "exi t"}), "params": obj{}})
	case 3:
		m(obj{"method": pick(r, []string{"textDocument/unknown", "$/setTrace", "$/progress", "workspace/didChangeConfiguration", "window/x"}), "params": obj{"value": "off"}})
	case 4:
		m(obj{"id": id, "method": meth}) // no params
	case 5:
		m(obj{"id": id, "method": meth, "params": pick(r, []any{nil, 5, "x", []any{}, true, []any{1, 2}})})
	case 6:
		m(obj{"id": id, "method": meth, "params": obj{"textDocument": pick(r, []any{5, "x", []any{}, obj{"uri": 5}, obj{"uri": obj{}}}), "position": obj{"line": 0, "character": 0}}})
	case 7:
		p := g.docParams(meth, uri, g.docs[uri])
		p["position"] = pick(r, []any{5, "x", obj{"line": "1", "character": 1}, obj{"line": 1.5, "character": 0}, obj{"line": 1e30, "character": 0}, obj{"line": 0, "character": nil, "x": 1}})
		p["range"] = pick(r, []any{5, obj{"start": 5}, obj{"start": obj{"line": "0"}}, obj{"end": []any{}}})
		if _, ok := p["newName"]; ok {
			p["newName"] = 7
		}
		m(obj{"id": id, "method": meth, "params": p})
	case 8:
		m(obj{"id": id, "method": meth, "params": g.docParams(meth, "file:///never-opened.teal", "int 1\n")})
	case 9:
		// positions outside the document
		p := g.docParams(meth, uri, g.docs[uri])
		neg := func() obj {
			return obj{"line": pick(r, []int{-1, -5, 1 << 31, 1 << 40, -(1 << 40), 0}), "character": pick(r, []int{-1, 1 << 40, -(1 << 50), 3})}
		}
		if _, ok := p["position"]; ok {
			p["position"] = neg()
		}
		if _, ok := p["range"]; ok {
			p["range"] = obj{"start": neg(), "end": neg()}
		}
		m(obj{"id": id, "method": meth, "params": p})
	case 10:
		m(obj{"method": "textDocument/didChange", "params": obj{"textDocument": obj{"uri": "file:///never-opened.teal"}, "contentChanges": []any{obj{"text": "int 1"}}}})
	case 11:
		m(obj{"method": pick(r, []string{"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave"}), "params": pick(r, []any{nil, 5, "x", []any{}, obj{"textDocument": 5}, obj{"textDocument": obj{"uri": 1, "text": 2}}, obj{"contentChanges": 5}})})
	case 12:
		m(obj{"method": pick(r, []string{"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"})})
	case 13:
		m(obj{"id": id, "method": "workspace/executeCommand", "params": pick(r, []any{nil, obj{}, obj{"command": 5}, obj{"command": "teal.unknown"}, obj{"command": "teal.label.create"}, obj{"command": "teal.line.remove", "arguments": []any{}}, obj{"command": "teal.line.remove", "arguments": []any{1}}, obj{"command": "teal.value.replace", "arguments": []any{obj{"uri": uri}, obj{"uri": uri}}}, obj{"command": "teal.version.update", "arguments": []any{obj{"uri": "file:///never-opened.teal", "version": 3}}}, obj{"command": "teal.version.update", "arguments": obj{}}, obj{"command": "teal.label.remove", "arguments": []any{obj{"uri": 5}}}})})
	case 14:
		m(obj{"id": id, "method": pick(r, []any{5, nil, obj{}, []any{}, true}), "params": obj{}})
	case 15:
		m(obj{"id": pick(r, []any{obj{}, []any{1}, true}), "result": obj{}})
	case 16:
		m(obj{"id": 999999, "result": pick(r, []any{nil, obj{"applied": true}, 5})})
	case 17:
		m(obj{"id": 999999, "error": obj{"code": -32603, "message": "no"}})
	case 18:
		g.rawHeader()
	case 19:
		g.rawHeader()
	case 20:
		m(obj{"method": "$/cancelRequest", "params": obj{"id": 1}})
	case 21:
		m(obj{"id": id, "method": "initialize", "params": pick(r, []any{5, "x", []any{}, obj{"initializationOptions": 5}, obj{"initializationOptions": obj{"inlayNamed": "no"}}, obj{"clientInfo": 5}})})
	case 22:
		raw(strings.Repeat("[", 1+r.Intn(3000)))
	case 23:
		// deep nesting and big numbers in an otherwise plausible message
		raw(`{"jsonrpc":"2.0","id":"` + id + `","method":"textDocument/nothing","params":` + strings.Repeat(`{"a":`, 200) + "1e999" + strings.Repeat("}", 200) + "}")
	}
}

// rawHeader appends a complete but unusable header block.
func (g *lspGen) rawHeader() {
	g.ops = append(g.ops, Op{K: "bad", B: []byte(badHeader(g.r))})
}

func badHeader(r *Rand) string {
	return pick(r, []string{
		"garbage\r\n\r\n",
		"\r\n",
		"\r\n\r\n",
		"Content-Length: abc\r\n\r\n",
		"Content-Length: -1\r\n\r\n",
		"Content-Length: -99999999999\r\n\r\n",
		"Content-Length: \r\n\r\n",
		"Content-Length: 99999999999999999999999\r\n\r\n",
		"Content-Length: 0x10\r\n\r\n",
		"Content-Length: 1e3\r\n\r\n",
		"Content-Type: x\r\n\r\n",
		"X: y\r\nZ: w\r\n\r\n",
		"é😀: 1\r\n\r\n",
		": 5\r\n\r\n",
		"no colon here\r\n\r\n",
		"\x00\x01\x02\r\n\r\n",
		"Content-Length: 5 5\r\n\r\n",
		"{\"jsonrpc\"}\r\n\r\n",
		"GET / HTTP/1.1\r\n\r\n",
		strings.Repeat("k", 5000) + "\r\n\r\n",
		"Content-Length: 0\r\n\r\n",
	})
}

// step appends one random well-formed step.
func (g *lspGen) step() {
	r := g.r
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5, 6:
		g.edit()
	case 7:
		u := g.anyOpen()
		g.command(u, g.docs[u])
	case 8:
		g.emit("rsp", obj{"id": fmt.Sprint(1 + r.Intn(5)), "result": obj{"applied": true}})
	case 9:
		if r.Bool(1, 3) {
			g.initialize()
			return
		}
		g.docReq()
	default:
		g.docReq()
	}
}

// genLsp generates a session of about n well-formed steps.
func genLsp(r *Rand, n int) *lspGen {
	g := newLspGen(r)
	if r.Bool(9, 10) {
		g.initialize()
	}
	g.openMany()
	for i := 0; i < n; i++ {
		g.step()
	}
	return g
}

// openMany opens all documents of a session with many.
func (g *lspGen) openMany() {
	if g.many {
		for _, u := range g.uris {
			g.open(u, genText(g.r, g.r.Intn(g.size+1)))
		}
	}
}

// big makes a text of roughly n bytes.
func bigText(r *Rand, n int) string {
	var b strings.Builder
	if r.Bool(1, 3) {
		b.WriteString("// ")
		b.WriteString(strings.Repeat("x", n))
		b.WriteString("\n")
		return b.String()
	}
	i := 0
	for b.Len() < n {
		i++
		fmt.Fprintf(&b, "// line %d é😀\nint %d\npop\n", i, i)
	}
	return b.String()
}

var bufferSizes = []int{512, 1024, 4096, 8192, 16384, 32768, 65536}

// padTo pads a JSON object with trailing white space up to n bytes.
func padTo(j string, n int) string {
	if len(j) >= n {
		return j
	}
	return j + strings.Repeat(" ", n-len(j))
}
