//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
)

// P33: everything the servers send has the form its protocol prescribes.

// shape judges a decoded JSON value and says what is wrong with it, if anything.
type shape func(v any) string

func sStr(v any) string {
	if _, ok := v.(string); !ok {
		return fmt.Sprintf("%s is not a string", short(jstr(v), 80))
	}
	return ""
}

func sBool(v any) string {
	if _, ok := v.(bool); !ok {
		return fmt.Sprintf("%s is not a boolean", short(jstr(v), 80))
	}
	return ""
}

func sAny(v any) string { return "" }

// sInt is an integer from lo to hi.
func sInt(lo, hi float64) shape {
	return func(v any) string {
		if n, ok := v.(float64); !ok || n != math.Trunc(n) || n < lo || n > hi {
			return fmt.Sprintf("%s is not an integer from %.0f to %.0f", short(jstr(v), 80), lo, hi)
		}
		return ""
	}
}

var (
	sUint = sInt(0, math.MaxInt32)
	sNum  = sInt(math.MinInt32, math.MaxInt32)
)

func sArr(e shape) shape {
	return func(v any) string {
		a, ok := v.([]any)
		if !ok {
			return fmt.Sprintf("%s is not an array", short(jstr(v), 80))
		}
		for i, w := range a {
			if s := e(w); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
		return ""
	}
}

func sMap(e shape) shape {
	return func(v any) string {
		m, ok := v.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is not an object", short(jstr(v), 80))
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s := e(m[k]); s != "" {
				return fmt.Sprintf("%q: %s", k, s)
			}
		}
		return ""
	}
}

func sOr(es ...shape) shape {
	return func(v any) string {
		var all []string
		for _, e := range es {
			s := e(v)
			if s == "" {
				return ""
			}
			all = append(all, s)
		}
		return strings.Join(all, ", and ")
	}
}

func sNull(v any) string {
	if v != nil {
		return fmt.Sprintf("%s is not null", short(jstr(v), 80))
	}
	return ""
}

func sIs(ss ...string) shape {
	return func(v any) string {
		for _, s := range ss {
			if v == s {
				return ""
			}
		}
		return fmt.Sprintf("%s is not one of %q", short(jstr(v), 80), ss)
	}
}

type field struct {
	name string
	s    shape
}

// sObj has the fields named with a shape; a name that ends in ? may be missing.
func sObj(fs ...any) shape {
	var l []field
	for i := 0; i < len(fs); i += 2 {
		var s shape
		switch t := fs[i+1].(type) {
		case shape:
			s = t
		case func(any) string:
			s = t
		}
		l = append(l, field{fs[i].(string), s})
	}
	return func(v any) string {
		m, ok := v.(map[string]any)
		if !ok {
			return fmt.Sprintf("%s is not an object", short(jstr(v), 80))
		}
		for _, f := range l {
			n, opt := strings.CutSuffix(f.name, "?")
			w, is := m[n]
			if !is || (opt && w == nil) {
				if opt {
					continue
				}
				return fmt.Sprintf("%s has no %q", short(jstr(v), 120), n)
			}
			if s := f.s(w); s != "" {
				return fmt.Sprintf("%q: %s", n, s)
			}
		}
		return ""
	}
}

var (
	sPos     = sObj("line", sUint, "character", sUint)
	sRange   = sObj("start", sPos, "end", sPos)
	sMarkup  = sObj("kind", sIs("plaintext", "markdown"), "value", sStr)
	sDoc     = sOr(sStr, sMarkup)
	sCommand = sObj("title", sStr, "command", sStr, "arguments?", sArr(sAny))
	sEdit    = sObj("range", sRange, "newText", sStr)
	sVerDoc  = sObj("uri", sStr, "version", sOr(sNull, sNum))
	sWsEdit  = sObj("changes?", sMap(sArr(sEdit)), "documentChanges?", sArr(sObj("textDocument", sVerDoc, "edits", sArr(sEdit))))
	sDiag    = sObj("range", sRange, "severity?", sInt(1, 4), "message", sStr, "source?", sStr, "code?", sOr(sStr, sNum), "tags?", sArr(sInt(1, 2)))
	sLoc     = sObj("uri", sStr, "range", sRange)
	sItem    = sObj("label", sStr, "labelDetails?", sObj("detail?", sStr, "description?", sStr), "kind?", sInt(1, 25), "tags?", sArr(sInt(1, 1)),
		"detail?", sStr, "documentation?", sDoc, "deprecated?", sBool, "preselect?", sBool, "sortText?", sStr, "filterText?", sStr,
		"insertText?", sStr, "insertTextFormat?", sInt(1, 2), "insertTextMode?", sInt(1, 2),
		"textEdit?", sOr(sEdit, sObj("newText", sStr, "insert", sRange, "replace", sRange)), "textEditText?", sStr,
		"additionalTextEdits?", sArr(sEdit), "commitCharacters?", sArr(sStr), "command?", sCommand)
	sActionCtx = sObj("title", sStr, "kind?", sStr, "diagnostics?", sArr(sDiag), "isPreferred?", sBool, "edit?", sWsEdit, "command?", sCommand)
	sSig       = sObj("label", sStr, "documentation?", sDoc, "parameters?", sArr(sObj("label", sOr(sStr, sArr(sUint)), "documentation?", sDoc)), "activeParameter?", sUint)
	sProvider  = sOr(sBool, sMap(sAny))
)

// lspResults are the results of the requests of the language server protocol.
var lspResults = map[string]shape{
	"initialize": sObj("capabilities", sObj(
		"textDocumentSync?", sOr(sInt(0, 2), sMap(sAny)),
		"positionEncoding?", sIs("utf-16"),
		"completionProvider?", sObj("triggerCharacters?", sArr(sStr), "allCommitCharacters?", sArr(sStr), "resolveProvider?", sBool, "completionItem?", sObj("labelDetailsSupport?", sBool)),
		"hoverProvider?", sProvider, "definitionProvider?", sProvider, "documentHighlightProvider?", sProvider, "documentSymbolProvider?", sProvider,
		"codeActionProvider?", sProvider, "documentFormattingProvider?", sProvider, "inlayHintProvider?", sProvider, "inlineValueProvider?", sProvider, "colorProvider?", sProvider,
		"signatureHelpProvider?", sObj("triggerCharacters?", sArr(sStr), "retriggerCharacters?", sArr(sStr)),
		"codeLensProvider?", sObj("resolveProvider?", sBool),
		"renameProvider?", sOr(sBool, sObj("prepareProvider?", sBool)),
		"executeCommandProvider?", sObj("commands", sArr(sStr)),
		"semanticTokensProvider?", sObj("legend", sObj("tokenTypes", sArr(sStr), "tokenModifiers", sArr(sStr)), "range?", sProvider, "full?", sProvider),
		"diagnosticProvider?", sObj("interFileDependencies", sBool, "workspaceDiagnostics", sBool)),
		"serverInfo?", sObj("name", sStr, "version?", sStr)),
	"shutdown":                         sNull,
	"workspace/executeCommand":         sAny,
	"textDocument/completion":          sOr(sNull, sArr(sItem), sObj("isIncomplete", sBool, "items", sArr(sItem))),
	"textDocument/hover":               sOr(sNull, sObj("contents", sOr(sDoc, sArr(sStr)), "range?", sRange)),
	"textDocument/signatureHelp":       sOr(sNull, sObj("signatures", sArr(sSig), "activeSignature?", sUint, "activeParameter?", sUint)),
	"textDocument/definition":          sOr(sNull, sLoc, sArr(sLoc)),
	"textDocument/documentHighlight":   sOr(sNull, sArr(sObj("range", sRange, "kind?", sInt(1, 3)))),
	"textDocument/documentSymbol":      sOr(sNull, sArr(sObj("name", sStr, "kind", sInt(1, 26), "range", sRange, "selectionRange", sRange, "detail?", sStr))),
	"textDocument/codeAction":          sOr(sNull, sArr(sOr(sObj("title", sStr, "command", sStr, "arguments?", sArr(sAny)), sActionCtx))),
	"textDocument/codeLens":            sOr(sNull, sArr(sObj("range", sRange, "command?", sCommand))),
	"textDocument/formatting":          sOr(sNull, sArr(sEdit)),
	"textDocument/rename":              sOr(sNull, sWsEdit),
	"textDocument/prepareRename":       sOr(sNull, sRange, sObj("range", sRange, "placeholder", sStr), sObj("defaultBehavior", sBool)),
	"textDocument/semanticTokens/full": sOr(sNull, sObj("data", sArr(sUint), "resultId?", sStr)),
	"textDocument/inlayHint": sOr(sNull, sArr(sObj("position", sPos, "label", sOr(sStr, sArr(sObj("value", sStr))), "kind?", sInt(1, 2), "textEdits?", sArr(sEdit),
		"tooltip?", sDoc, "paddingLeft?", sBool, "paddingRight?", sBool))),
	"textDocument/inlineValue": sOr(sNull, sArr(sObj("range", sRange, "text?", sStr, "variableName?", sStr, "expression?", sStr))),
	"textDocument/diagnostic":  sOr(sObj("kind", sIs("full"), "items", sArr(sDiag), "resultId?", sStr), sObj("kind", sIs("unchanged"), "resultId", sStr)),
}

// advertised are the requests a capability stands for.
var advertised = map[string]string{
	"completionProvider": "textDocument/completion", "hoverProvider": "textDocument/hover", "signatureHelpProvider": "textDocument/signatureHelp",
	"definitionProvider": "textDocument/definition", "documentHighlightProvider": "textDocument/documentHighlight", "documentSymbolProvider": "textDocument/documentSymbol",
	"codeActionProvider": "textDocument/codeAction", "codeLensProvider": "textDocument/codeLens", "documentFormattingProvider": "textDocument/formatting",
	"renameProvider": "textDocument/rename", "semanticTokensProvider": "textDocument/semanticTokens/full", "inlayHintProvider": "textDocument/inlayHint",
	"inlineValueProvider": "textDocument/inlineValue", "diagnosticProvider": "textDocument/diagnostic",
}

var (
	sSource = sObj("name?", sStr, "path?", sStr)
	sBps    = sObj("breakpoints", sArr(sObj("id?", sNum, "verified", sBool, "message?", sStr, "source?", sSource, "line?", sNum, "column?", sNum)))
	sNoBody = sOr(sNull, sMap(sAny))
)

// dapBodies are the bodies of the successful responses of the debug adapter protocol.
var dapBodies = map[string]shape{
	"initialize": sOr(sNull, sMap(sOr(sBool, sArr(sAny)))),
	"launch":     sNoBody, "disconnect": sNoBody, "configurationDone": sNoBody, "pause": sNoBody, "next": sNoBody,
	"evaluate":                  sObj("result", sStr, "variablesReference", sUint, "type?", sStr),
	"setBreakpoints":            sBps,
	"setFunctionBreakpoints":    sBps,
	"setInstructionBreakpoints": sBps,
	"setExceptionBreakpoints":   sOr(sNull, sObj("breakpoints?", sArr(sAny))),
	"threads":                   sObj("threads", sArr(sObj("id", sNum, "name", sStr))),
	"continue":                  sObj("allThreadsContinued?", sBool),
	"variables":                 sObj("variables", sArr(sObj("name", sStr, "value", sStr, "variablesReference", sUint, "type?", sStr, "namedVariables?", sUint, "indexedVariables?", sUint))),
	"scopes": sObj("scopes", sArr(sObj("name", sStr, "variablesReference", sInt(1, math.MaxInt32), "expensive", sBool, "presentationHint?", sStr,
		"namedVariables?", sUint, "indexedVariables?", sUint))),
	"stackTrace": sObj("stackFrames", sArr(sObj("id", sNum, "name", sStr, "source?", sSource, "line", sNum, "column", sNum, "endLine?", sNum, "endColumn?", sNum)), "totalFrames?", sUint),
}

var dapEvents = map[string]shape{
	"initialized": sNoBody,
	"process":     sObj("name", sStr, "startMethod?", sIs("launch", "attach", "attachForSuspendedLaunch"), "systemProcessId?", sNum, "isLocalProcess?", sBool),
	"stopped": sObj("reason", sStr, "description?", sStr, "threadId?", sNum, "allThreadsStopped?", sBool, "hitBreakpointIds?", sArr(sNum),
		"preserveFocusHint?", sBool, "text?", sStr),
	"continued":  sObj("threadId", sNum, "allThreadsContinued?", sBool),
	"exited":     sObj("exitCode", sNum),
	"terminated": sNoBody,
	"thread":     sObj("reason", sStr, "threadId", sNum),
	"output":     sObj("output", sStr, "category?", sStr),
}

func genP33(r *Rand) *Plan {
	p := &Plan{}
	if r.Bool(1, 3) {
		p.set("dap", 1)
		g := genDap(r, 2+r.Intn(16))
		for i := 0; i < r.Intn(5); i++ {
			if r.Bool(1, 3) {
				g.bad()
			} else {
				g.step()
			}
		}
		p.Ops = g.ops
		return p
	}
	g := genLsp(r, 0)
	for i := 0; i < 4+r.Intn(14); i++ {
		switch k := r.Intn(14); {
		case k == 0:
			g.bad()
		case k < 4:
			g.edit()
		case k == 4:
			u := g.anyOpen()
			g.change(u, genLabelText(r, 1+r.Intn(10)))
		case k == 5:
			u := g.anyOpen()
			g.command(u, g.docs[u])
		case k == 6:
			g.change(g.anyOpen(), hoverText(r, 1+r.Intn(10)))
		case k == 7 && i > 8:
			o := obj{}
			for _, k := range []string{"semanticTokens", "inlayNamed", "inlayDecoded", "lensRefs"} {
				if r.Bool(1, 2) {
					o[k] = r.Bool(3, 4)
				}
			}
			g.req("initialize", obj{"capabilities": obj{}, "initializationOptions": o})
		default:
			g.docReq()
		}
	}
	if r.Bool(1, 5) {
		g.req("shutdown", nil)
	}
	p.Ops = g.ops
	return p
}

func runP33(p *Plan, x *X) {
	x.Trivial = true
	if p.cfg("dap") == 1 {
		protoDap(p, x)
		return
	}
	var commands map[string]bool
	types, mods := 1<<30, 1<<30
	s := newLspModel()
	ids := map[string]bool{}
	seen := map[string]bool{}
	dialog(x, "lsp", func(call func([]byte) []string) {
		for _, o := range p.Ops {
			if isFileOp(o) {
				doFile(x, o)
				continue
			}
			m := parseIn(o.J)
			if o.K == "req" || o.K == "ntf" {
				s.apply(m)
			}
			for _, f := range call(o.wire()) {
				v := decode(f)
				if dig(v, "jsonrpc") != "2.0" {
					x.fail("envelope", "no JSON-RPC version in %s", short(f, 200))
				}
				if me, ok := dig(v, "method").(string); ok {
					switch me {
					case "textDocument/publishDiagnostics":
						if e := sObj("uri", sStr, "diagnostics", sArr(sDiag))(dig(v, "params")); e != "" {
							x.fail("shape", "%s: %s", me, e)
						}
					case "workspace/applyEdit":
						if e := sObj("edit", sWsEdit, "label?", sStr)(dig(v, "params")); e != "" {
							x.fail("shape", "%s: %s", me, e)
						}
						id := jstr(dig(v, "id"))
						if id == "null" || ids[id] {
							x.fail("envelope", "the server's request has the id %s, which is none or was used before: %s", id, short(f, 200))
						}
						ids[id] = true
					default:
						if dig(v, "id") != nil {
							x.fail("envelope", "a client cannot expect the request %s", short(f, 200))
						}
					}
					x.state("server", me)
					continue
				}
				if e := dig(v, "error"); e != nil {
					if e := sObj("code", sNum, "message", sStr)(e); e != "" {
						x.fail("shape", "error of %s: %s", short(o.J, 200), e)
					}
					if m := m.method(); o.K == "req" && seen[m] {
						if _, open := s.docs[target(parseIn(o.J))]; open && !s.shut {
							x.fail("advertised", "%s is announced and refused: %s", m, short(f, 200))
						}
					}
					continue
				}
				if o.K != "req" {
					continue
				}
				sh := lspResults[m.method()]
				if sh == nil {
					continue
				}
				res := dig(v, "result")
				if e := sh(res); e != "" {
					x.fail("shape", "result of %s: %s (%s)", m.method(), e, short(o.J, 200))
				}
				x.Trivial = false
				x.probe("results_checked")
				x.state(m.method(), res == nil, len(f)/64)
				switch m.method() {
				case "initialize":
					commands = map[string]bool{}
					cs, _ := dig(res, "capabilities", "executeCommandProvider", "commands").([]any)
					for _, c := range cs {
						commands[c.(string)] = true
					}
					if l := dig(res, "capabilities", "semanticTokensProvider", "legend"); l != nil {
						ts, _ := dig(l, "tokenTypes").([]any)
						ms, _ := dig(l, "tokenModifiers").([]any)
						types, mods = len(ts), len(ms)
					}
					for c, me := range advertised {
						if w := dig(res, "capabilities", c); w != nil && w != false {
							seen[me] = true
						}
					}
				case "textDocument/semanticTokens/full":
					d, _ := dig(res, "data").([]any)
					if len(d)%5 != 0 {
						x.fail("shape", "%d numbers describe the tokens of %s", len(d), short(o.J, 200))
					}
					for i := 0; i+4 < len(d); i += 5 {
						if int(d[i+3].(float64)) >= types || (mods < 31 && int(d[i+4].(float64)) >= 1<<mods) {
							x.fail("legend", "a token has the type %v and the modifiers %v, the legend has %d and %d", d[i+3], d[i+4], types, mods)
						}
					}
				case "textDocument/hover", "textDocument/prepareRename":
					rg := dig(res, "range")
					if rg == nil && dig(res, "start") != nil {
						rg = res
					}
					if rg != nil {
						g, at := toRng(rg), toPos(dig(m.Params, "position"))
						if m.method() == "textDocument/prepareRename" {
							at.Char = g.Start.Char // the cursor may stand behind the colon of a label
						}
						if at.Line < g.Start.Line || at.Line > g.End.Line || (at.Line == g.Start.Line && at.Char < g.Start.Char) || (at.Line == g.End.Line && at.Char > g.End.Char) {
							x.fail("range", "%s at %d:%d answers for the range %s", m.method(), at.Line, at.Char, jstr(rg))
						}
					}
				case "textDocument/documentSymbol":
					as, _ := res.([]any)
					for _, a := range as {
						g, n := toRng(dig(a, "range")), toRng(dig(a, "selectionRange"))
						if less(n.Start, g.Start) || less(g.End, n.End) {
							x.fail("range", "the symbol %s is named outside of its range", short(jstr(a), 200))
						}
					}
				case "textDocument/codeAction":
					as, _ := res.([]any)
					for _, a := range as {
						c, ok := dig(a, "command", "command").(string)
						if !ok {
							c, ok = dig(a, "command").(string)
						}
						if ok && commands != nil && !commands[c] {
							x.fail("advertised", "the action %s has a command the server did not announce", short(jstr(a), 200))
						}
					}
				}
			}
		}
	})
}

func less(a, b pos) bool { return a.Line < b.Line || (a.Line == b.Line && a.Char < b.Char) }

func protoDap(p *Plan, x *X) {
	resetFiles()
	defer resetFiles()
	dialog(x, "dbg", func(call func([]byte) []string) {
		for _, o := range p.Ops {
			if isFileOp(o) {
				doFile(x, o)
				continue
			}
			for _, f := range call(o.wire()) {
				g := parseDap(x, f)
				var body any
				if len(g.Body) > 0 {
					json.Unmarshal(g.Body, &body)
				}
				switch g.Type {
				case "event":
					if e := sObj("seq", sUint, "event", sStr)(decode(f)); e != "" {
						x.fail("envelope", "event: %s", e)
					}
					if sh := dapEvents[g.Event]; sh != nil {
						if e := sh(body); e != "" {
							x.fail("shape", "event %s: %s", g.Event, e)
						}
					}
					x.state("event", g.Event)
				case "response":
					if e := sObj("seq", sUint, "request_seq", sNum, "success", sBool, "command", sStr, "message?", sStr)(decode(f)); e != "" {
						x.fail("envelope", "response: %s", e)
					}
					if !g.Success {
						x.state("refused", g.Command)
						continue
					}
					sh := dapBodies[g.Command]
					if sh == nil {
						continue
					}
					if e := sh(body); e != "" {
						x.fail("shape", "response to %s: %s (%s)", g.Command, e, short(o.J, 200))
					}
					if bs, ok := dig(body, "breakpoints").([]any); ok && o.K == "req" && g.Command != "setExceptionBreakpoints" {
						as, _ := dig(decode(o.J), "arguments", "breakpoints").([]any)
						if len(as) != len(bs) {
							x.fail("shape", "%d breakpoints are answered for %s", len(bs), short(o.J, 200))
						}
					}
					x.Trivial = false
					x.probe("results_checked")
					x.state(g.Command, len(f)/64)
				default:
					x.fail("envelope", "neither an event nor a response: %s", short(f, 200))
				}
			}
		}
	})
}

func init() {
	register(&Prop{
		ID: "P33", Level: "exploration",
		Rule:      "a session with the language server (an edit history over several documents with requests of every kind, commands and malformed messages) or the debug adapter (seeded commands in any order, program files that come and go, malformed messages); every message the server sends is judged by the form its protocol prescribes for it, and by what the server announced about itself; non-trivial: at least one result judged",
		StateRule: "hash of (method or command, empty or not, size class)",
		Quick:     80000, Thorough: 3000000, Chunk: 300,
		Real: realLsp, Stub: stubIO,
		Gen: genP33,
		Run: runP33,
	})
}
