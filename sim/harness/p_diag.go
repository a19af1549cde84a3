//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// P28: errors are reported for exactly the lines the AVM's assembler refuses.

// asmOp is an instruction of the assembler: the versions that have it in
// applications and in logic signatures (0: never), and its operands.
type asmOp struct {
	app, sig int
	imm      string
}

var asmOps = func() map[string]asmOp {
	m := map[string]asmOp{}
	add := func(app, sig int, s string) {
		for _, n := range strings.Fields(s) {
			n, imm, _ := strings.Cut(n, "@")
			m[n] = asmOp{app, sig, strings.ReplaceAll(imm, ",", " ")}
		}
	}
	both := func(v int, s string) { add(v, v, s) }
	both(1, "err sha256 keccak256 sha512_256 + - / * < > <= >= && || == != ! len itob btoi % | & ^ ~ mulw intcblock@u64* intc@u8 intc_0 intc_1 intc_2 intc_3 bytecblock@bytes* bytec@u8 bytec_0 bytec_1 bytec_2 bytec_3 txn@txn global@global gtxn@u8,txn load@u8 store@u8 bnz@label pop dup int@const byte@bytes addr@addr method@method")
	both(2, "addw txna@arr,u8 gtxna@u8,arr,u8 bz@label b@label return dup2 concat substring@u8,u8 substring3")
	both(3, "gtxns@txn gtxnsa@arr,u8 assert dig@u8 swap select getbit setbit getbyte setbyte pushbytes@bytes pushint@u64")
	both(4, "divmodw shl shr sqrt bitlen exp expw b+ b- b/ b* b< b> b<= b>= b== b!= b% b| b& b^ b~ bzero callsub@label retsub")
	both(5, "ecdsa_verify@curve ecdsa_pk_decompress@curve ecdsa_pk_recover@curve loads stores cover@u8 uncover@u8 extract@u8,u8 extract3 extract_uint16 extract_uint32 extract_uint64 txnas@arr gtxnas@u8,arr gtxnsas@arr")
	both(6, "bsqrt divw")
	both(7, "replace2@u8 replace3 base64_decode@b64 json_ref@json ed25519verify_bare sha3_256 vrf_verify@vrf block@block")
	both(8, "bury@u8 popn@u8 dupn@u8 pushbytess@bytes* pushints@u64* proto@u8,u8 frame_dig@i8 frame_bury@i8 switch@label* match@label*")
	add(2, 0, "balance app_opted_in app_local_get app_local_get_ex app_global_get app_global_get_ex app_local_put app_global_put app_local_del app_global_del asset_holding_get@holding asset_params_get@asset")
	add(3, 0, "min_balance")
	add(4, 0, "gload@u8,u8 gloads@u8 gaid@u8 gaids")
	add(5, 0, "app_params_get@app log itxn_begin itxn_field@ifield itxn_submit itxn@txn itxna@arr,u8")
	add(6, 0, "itxn_next gitxn@u8,txn gitxna@u8,arr,u8 gloadss itxnas@arr gitxnas@u8,arr acct_params_get@acct")
	add(8, 0, "box_create box_extract box_replace box_del box_len box_get box_put")
	add(0, 1, "arg@u8 arg_0 arg_1 arg_2 arg_3")
	add(0, 5, "args")
	add(5, 1, "ed25519verify")
	return m
}()

var asmNames = func() []string {
	var ns []string
	for n := range asmOps {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}()

// asmFields gives the versions that have a field.
var asmFields = map[string]map[string]int{
	"txn": fieldVersions(
		"Sender Fee FirstValid LastValid Note Lease Receiver Amount CloseRemainderTo VotePK SelectionPK VoteFirst VoteLast VoteKeyDilution Type TypeEnum XferAsset AssetAmount AssetSender AssetReceiver AssetCloseTo GroupIndex TxID",
		"ApplicationID OnCompletion NumAppArgs NumAccounts ApprovalProgram ClearStateProgram RekeyTo ConfigAsset ConfigAssetTotal ConfigAssetDecimals ConfigAssetDefaultFrozen ConfigAssetUnitName ConfigAssetName ConfigAssetURL ConfigAssetMetadataHash ConfigAssetManager ConfigAssetReserve ConfigAssetFreeze ConfigAssetClawback FreezeAsset FreezeAssetAccount FreezeAssetFrozen",
		"NumAssets NumApplications GlobalNumUint GlobalNumByteSlice LocalNumUint LocalNumByteSlice",
		"ExtraProgramPages", "Nonparticipation NumLogs CreatedAssetID CreatedApplicationID", "LastLog StateProofPK", "FirstValidTime NumApprovalProgramPages NumClearStateProgramPages"),
	"arr":     fieldVersions("", "ApplicationArgs Accounts", "Assets Applications", "", "Logs", "", "ApprovalProgramPages ClearStateProgramPages"),
	"global":  fieldVersions("MinTxnFee MinBalance MaxTxnLife ZeroAddress GroupSize", "LogicSigVersion Round LatestTimestamp CurrentApplicationID", "CreatorAddress", "", "CurrentApplicationAddress GroupID", "OpcodeBudget CallerApplicationID CallerApplicationAddress"),
	"ifield":  fieldVersions("", "", "", "", "Sender Fee Receiver Amount CloseRemainderTo Type TypeEnum XferAsset AssetAmount AssetSender AssetReceiver AssetCloseTo ConfigAsset ConfigAssetTotal ConfigAssetName ConfigAssetManager FreezeAsset FreezeAssetAccount FreezeAssetFrozen", "Note RekeyTo VotePK ApplicationID OnCompletion ApplicationArgs Accounts Assets Applications ApprovalProgram ClearStateProgram GlobalNumUint LocalNumByteSlice ExtraProgramPages", "ApprovalProgramPages ClearStateProgramPages"),
	"holding": fieldVersions("", "AssetBalance AssetFrozen"),
	"asset":   fieldVersions("", "AssetTotal AssetDecimals AssetDefaultFrozen AssetUnitName AssetName AssetURL AssetMetadataHash AssetManager AssetReserve AssetFreeze AssetClawback", "", "", "AssetCreator"),
	"app":     fieldVersions("", "", "", "", "AppApprovalProgram AppClearStateProgram AppGlobalNumUint AppGlobalNumByteSlice AppLocalNumUint AppLocalNumByteSlice AppExtraProgramPages AppCreator AppAddress"),
	"acct":    fieldVersions("", "", "", "", "", "AcctBalance AcctMinBalance AcctAuthAddr", "", "AcctTotalNumUint AcctTotalNumByteSlice AcctTotalExtraAppPages AcctTotalAppsCreated AcctTotalAppsOptedIn AcctTotalAssetsCreated AcctTotalAssets AcctTotalBoxes AcctTotalBoxBytes"),
	"block":   fieldVersions("", "", "", "", "", "", "BlkSeed BlkTimestamp"),
	"json":    fieldVersions("", "", "", "", "", "", "JSONString JSONUint64 JSONObject"),
	"b64":     fieldVersions("", "", "", "", "", "", "StdEncoding URLEncoding"),
	"vrf":     fieldVersions("", "", "", "", "", "", "VrfAlgorand"),
	"curve":   fieldVersions("", "", "", "", "Secp256k1", "", "Secp256r1"),
}

func fieldVersions(vs ...string) map[string]int {
	m := map[string]int{}
	for i, s := range vs {
		for _, n := range strings.Fields(s) {
			m[n] = i + 1
		}
	}
	return m
}

var asmFieldNames = func() map[string][]string {
	out := map[string][]string{}
	for k, m := range asmFields {
		for n := range m {
			out[k] = append(out[k], n)
		}
		sort.Strings(out[k])
	}
	return out
}()

// operand makes an operand the assembler accepts, or one it refuses.
func asmOperand(r *Rand, kind string, good bool) string {
	switch kind {
	case "u8":
		if good {
			return pick(r, []string{"0", "1", "7", "127", "128", "254", "255", fmt.Sprint(r.Intn(256))})
		}
		return pick(r, []string{"256", "-1", "x", "1000", "1.5", "99999999999999999999", "0x1g", `"1"`})
	case "i8":
		if good {
			return pick(r, []string{"0", "1", "127", "-1", "-128", fmt.Sprint(r.Intn(256) - 128)})
		}
		return pick(r, []string{"128", "-129", "x", "1000"})
	case "u64", "const":
		if good {
			if kind == "const" && r.Bool(1, 3) {
				return pick(r, []string{"pay", "keyreg", "acfg", "axfer", "afrz", "appl", "NoOp", "OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication"})
			}
			return pick(r, []string{"0", "1", "18446744073709551615", "0x10", "0xffffffffffffffff", fmt.Sprint(r.Intn(1 << 30))})
		}
		return pick(r, []string{"18446744073709551616", "-1", "x", "Pay", "0xfffffffffffffffff", "1.0", `"1"`, "0xg"})
	case "bytes":
		if good {
			return pick(r, []string{"0x", "0x00", "0xABcd", `"a"`, `""`, `"a b // c"`, `"\n\t\\\""`, `"\x41"`, "base64(QUI=)", "b64(QUI=)", "base32(MFRGG)", "b32(MFRGG)", "base64 QUI=", "b64 QUI=", "base32 MFRGG", `"é😀"`})
		}
		return pick(r, []string{"0x0", "0xgg", "abc", "1", "base64(QUI", "base64(!)", "base32(1)", "base64 !", `"\q"`, "b64(", "0X00"})
	case "addr":
		if good {
			return someAddr
		}
		return pick(r, []string{someAddr[1:], "A" + someAddr[1:], strings.ToLower(someAddr), "x", someAddr + "A"})
	case "method":
		if good {
			return pick(r, []string{`"add(uint64,uint64)uint64"`, `"f()void"`})
		}
		return pick(r, []string{"f()void", `f()"`})
	case "label":
		if good {
			return "end"
		}
		return pick(r, []string{"nowhere", "End", "end2"})
	}
	if good {
		return pick(r, asmFieldNames[kind])
	}
	f := pick(r, asmFieldNames[kind])
	return pick(r, []string{"Nope", strings.ToLower(f), f + "x", "256", "-1", f[:len(f)-1] + "_"})
}

// asmLine is a line of a program and what the assembler says about it.
type asmLine struct {
	op   string
	imms []string
	bad  bool // refused in every version
}

// fields: K op, S text, A: [bad]
func genAsmLine(r *Rand) asmLine {
	l := asmLine{op: pick(r, asmNames)}
	kinds := strings.Fields(asmOps[l.op].imm)
	wrong := -1
	mut := -1
	if r.Bool(1, 3) {
		mut = r.Intn(4)
	}
	if mut == 0 && len(kinds) > 0 {
		wrong = r.Intn(len(kinds))
		l.bad = true
	}
	for i, k := range kinds {
		if b, ok := strings.CutSuffix(k, "*"); ok {
			n := 1 + r.Intn(4)
			if r.Bool(1, 10) {
				n = 30
			}
			w := -1
			if wrong == i {
				w = r.Intn(n)
			}
			for j := 0; j < n; j++ {
				l.imms = append(l.imms, asmOperand(r, b, j != w))
			}
			continue
		}
		l.imms = append(l.imms, asmOperand(r, k, i != wrong))
	}
	switch mut {
	case 1: // too many
		if !strings.Contains(asmOps[l.op].imm, "*") {
			// some take an optional operand more
			for i := 0; i < 2+r.Intn(2); i++ {
				l.imms = append(l.imms, pick(r, []string{"0", "1", "end", "Sender"}))
			}
			l.bad = true
		}
	case 2: // too few
		if n := len(l.imms); n > 0 && !strings.Contains(asmOps[l.op].imm, "*") && l.op != "extract" {
			l.imms = l.imms[:r.Intn(n)]
			l.bad = true
		}
	case 3:
		n := pick(r, []string{l.op + "x", strings.ToUpper(l.op), "_" + l.op, l.op + l.op, "unknown"})
		if _, ok := asmOps[n]; !ok && n != "replace" && !strings.HasPrefix(n, "//") {
			l.op = n
			l.bad = true
		}
	}
	return l
}

func (l asmLine) text() string { return strings.Join(append([]string{l.op}, l.imms...), " ") }

// refused says whether the assembler refuses a line; sure is false where it is
// not specified here.
func (l asmLine) refused(ver int, sig bool) (no, sure bool) {
	if l.bad {
		return true, true
	}
	op := asmOps[l.op]
	min := op.app
	if sig {
		min = op.sig
	}
	if min == 0 || min > ver {
		return true, true
	}
	kinds := strings.Fields(op.imm)
	for i, k := range kinds {
		if m, ok := asmFields[k]; ok && i < len(l.imms) {
			if m[l.imms[i]] > ver {
				return true, true
			}
			if k == "global" && sig {
				return false, false // some are for applications only
			}
		}
	}
	return false, true
}

func genP28(r *Rand) *Plan {
	p := &Plan{}
	p.set("eol", r.Intn(2))
	p.set("ver", 1+r.Intn(10))
	p.set("sig", r.Intn(6))
	line := func(k string) Op {
		l := genAsmLine(r)
		b := 0
		if l.bad {
			b = 1
		}
		return Op{K: k, S: l.op, J: jstr(l.imms), A: []int{b, r.Intn(1 << 16), r.Intn(8)}}
	}
	for i := 0; i < 1+r.Intn(12); i++ {
		p.Ops = append(p.Ops, line("line"))
	}
	for i := r.Intn(5); i > 0; i-- {
		switch r.Intn(6) {
		case 0, 1, 2:
			p.Ops = append(p.Ops, line(pick(r, []string{"replace", "insert"})))
		case 3:
			p.Ops = append(p.Ops, Op{K: "ver", A: []int{1 + r.Intn(10)}})
		case 4:
			p.Ops = append(p.Ops, Op{K: "sig", A: []int{r.Intn(6)}})
		case 5:
			g := newLspGen(r)
			g.open("file:///z.teal", "int 1")
			g.bad()
			p.Ops = append(p.Ops, g.ops[len(g.ops)-1])
		}
	}
	return p
}

func runP28(p *Plan, x *X) { runAsm(p, x, false) }

func runP29(p *Plan, x *X) { runAsm(p, x, true) }

// semTok is a decoded semantic token.
type semTok struct {
	b, n int
	kind string
}

// semLine are the semantic tokens of an accepted line.
func (l asmLine) semLine(text string) []semTok {
	var out []semTok
	kinds := strings.Fields(asmOps[l.op].imm)
	toks := lineTokens(text)
	k := 0
	for i, t := range toks {
		kind := "keyword"
		if i > 0 {
			kk := kinds[min(k, len(kinds)-1)]
			switch strings.TrimSuffix(kk, "*") {
			case "u8", "i8", "u64", "const":
				kind = "number"
			default:
				kind = "string"
			}
			if strings.HasPrefix(kk, "bytes") && (t.s == "base64" || t.s == "b64" || t.s == "base32" || t.s == "b32") {
				kind = "keyword"
				k--
			}
			k++
		}
		out = append(out, semTok{t.b, t.e - t.b, kind})
	}
	if i := len(text) - len("// c"); strings.HasSuffix(text, " // c") {
		out = append(out, semTok{utf16Len(text[:i]), len("// c"), "comment"})
	}
	return out
}

func utf16Len(s string) int {
	n := 0
	for _, r := range s {
		n++
		if r >= 0x10000 {
			n++
		}
	}
	return n
}

// semantic asks for the semantic tokens, by line.
func (c *aidClient) semantic(u string, legend []string) map[int][]semTok {
	var res struct {
		Data []int `json:"data"`
	}
	c.req("textDocument/semanticTokens/full", obj{"textDocument": obj{"uri": u}}, &res)
	out := map[int][]semTok{}
	if len(res.Data)%5 != 0 {
		c.x.fail("tokens", "%d numbers", len(res.Data))
	}
	ln, ch := 0, 0
	for i := 0; i+5 <= len(res.Data); i += 5 {
		d := res.Data[i : i+5]
		if d[0] != 0 {
			ch = 0
		}
		ln += d[0]
		ch += d[1]
		if d[3] < 0 || d[3] >= len(legend) {
			c.x.fail("tokens", "type %d is not in the legend", d[3])
		}
		out[ln] = append(out[ln], semTok{ch, d[2], legend[d[3]]})
	}
	return out
}

func runAsm(p *Plan, x *X, sem bool) {
	x.Trivial = true
	u := uriPool[0]
	dialog(x, "lsp", func(call func([]byte) []string) {
		c := &aidClient{x: x, call: call, docs: map[string]string{}}
		type line struct {
			asmLine
			deco int
		}
		var ls []line
		ver, sig := p.cfg("ver"), p.cfg("sig")
		eol := []string{"\n", "\r\n"}[p.cfg("eol")]
		opened := false
		var legend []string
		if sem {
			var res struct {
				Capabilities struct {
					P struct {
						Legend struct {
							T []string `json:"tokenTypes"`
						} `json:"legend"`
					} `json:"semanticTokensProvider"`
				} `json:"capabilities"`
			}
			c.req("initialize", obj{"initializationOptions": obj{"semanticTokens": true}}, &res)
			legend = res.Capabilities.P.Legend.T
		}
		judge := func() {
			// the mode stands in the first line, behind the version, or is for applications
			head := []string{fmt.Sprintf("#pragma version %d", ver)}
			switch sig {
			case 1:
				head = []string{"//#pragma mode logicsig", head[0]}
			case 2:
				head = append(head, "// #pragma mode logicsig")
			case 4:
				head = append(head, "// a", "", "// b", "// #pragma mode logicsig")
			case 5:
				head = []string{"// a", "", "// #pragma mode logicsig", "", head[0]}
			}
			out := head
			for _, l := range ls {
				t := l.text()
				switch l.deco {
				case 1:
					t = "\t" + t
				case 2:
					t += " // c"
				case 3:
					t = "  " + t + "  "
				case 4:
					t = strings.ReplaceAll(t, " ", "  ")
					if strings.Contains(t, `"`) {
						t = l.text()
					}
				}
				out = append(out, t)
			}
			out = append(out, "end:")
			text := strings.Join(out, eol)
			if opened {
				c.change(u, text)
			} else {
				opened = true
				c.send(obj{"method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": text}}})
			}
			isSig := sig != 0 && sig != 3
			if sem {
				got := c.semantic(u, legend)
				expect := func(at int, want []semTok) {
					if !reflect.DeepEqual(got[at], want) {
						x.fail("tokens", "semantic tokens (start, length, type) of line %d of %q: %v, expected %v", at, text, got[at], want)
					}
				}
				for i, h := range head {
					if h == "" {
						expect(i, nil)
					} else if strings.HasPrefix(h, "//") {
						expect(i, []semTok{{0, len(h), "comment"}})
					} else {
						expect(i, []semTok{{0, 7, "macro"}, {8, 7, "macro"}, {16, len(h) - 16, "number"}})
					}
				}
				for i, l := range ls {
					at := i + len(head)
					if no, sure := l.refused(ver, isSig); !no && sure {
						expect(at, l.semLine(out[at]))
						x.probe("lines_compared")
						x.state(l.op, l.deco, len(l.imms))
					}
				}
				expect(len(out)-1, []semTok{{0, 4, "method"}})
				x.Trivial = false
				return
			}
			got := map[int][]string{}
			for _, d := range c.diagnostics(u) {
				if d.sev == 1 {
					got[d.line] = append(got[d.line], d.msg)
				}
			}
			for i, l := range ls {
				at := i + len(head)
				no, sure := l.refused(ver, isSig)
				if !sure {
					delete(got, at)
					continue
				}
				if no && len(got[at]) == 0 {
					x.fail("missed", "no error is reported for %q (version %d, logicsig %v) in line %d of %q", out[at], ver, isSig, at, text)
				}
				if !no && len(got[at]) > 0 {
					x.fail("false", "%q is reported for %q (version %d, logicsig %v) in line %d of %q", got[at], out[at], ver, isSig, at, text)
				}
				delete(got, at)
				if no {
					x.probe("refused_lines")
				} else {
					x.probe("accepted_lines")
				}
				x.state(l.op, ver, isSig, no)
			}
			for at, ms := range got {
				x.fail("false", "%q is reported in line %d of %q", ms, at, text)
			}
			x.Trivial = false
		}
		for i, o := range p.Ops {
			var l line
			if o.J != "" && o.K != "bad" {
				json.Unmarshal([]byte(o.J), &l.imms)
				l.op, l.bad, l.deco = o.S, o.A[0] == 1, o.A[2]
			}
			switch o.K {
			case "line":
				ls = append(ls, l)
				if i+1 < len(p.Ops) && p.Ops[i+1].K == "line" {
					continue
				}
			case "replace":
				if len(ls) == 0 {
					continue
				}
				ls[o.A[1]%len(ls)] = l
			case "insert":
				k := o.A[1] % (len(ls) + 1)
				ls = append(ls[:k:k], append([]line{l}, ls[k:]...)...)
			case "ver":
				ver = o.A[0]
			case "sig":
				sig = o.A[0]
			case "bad":
				call(o.wire())
				continue
			}
			judge()
		}
	})
}

func init() {
	register(&Prop{
		ID: "P28", Level: "exploration",
		Rule:      "an edit history over programs of all versions and both modes, built line by line from instructions with generated operands, a third of them spoilt (wrong, missing or too many operands, unknown instructions or fields); after every edit the lines with errors must be exactly those the reference table of the assembler refuses; non-trivial: at least one program judged",
		StateRule: "hash of (instruction, version, mode, refused or not)",
		Quick:     500000, Thorough: 9000000, Chunk: 400,
		Real: realLsp, Stub: stubIO,
		Gen: genP28, Run: runP28,
	})
	register(&Prop{
		ID: "P29", Level: "exploration",
		Rule:      "the edit histories of P28; after every edit the decoded semantic tokens of every accepted line must be exactly its tokens in the reference reading, each with the type of its role by the legend the server announced; non-trivial: at least one program judged",
		StateRule: "hash of (instruction, layout, number of operands)",
		Quick:     360000, Thorough: 6000000, Chunk: 400,
		Real: realLsp, Stub: stubIO,
		Gen: genP28, Run: runP29,
	})
}
