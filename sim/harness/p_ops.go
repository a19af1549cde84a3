//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"
)

// avmOp is the stack effect of a straight-line instruction: argument and result
// types (U uint64, B bytes, . any), the last one on top, and its cost.
type avmOp struct {
	args, rets string
	cost       int
	imm        string // how its immediates are generated
}

// avmOps follows the AVM specification, versions 8 and up.
var avmOps = map[string]avmOp{
	"-": {"UU", "U", 1, ""}, "/": {"UU", "U", 1, ""}, "*": {"UU", "U", 1, ""}, "%": {"UU", "U", 1, ""},
	"<": {"UU", "U", 1, ""}, ">": {"UU", "U", 1, ""}, "<=": {"UU", "U", 1, ""}, ">=": {"UU", "U", 1, ""},
	"&&": {"UU", "U", 1, ""}, "||": {"UU", "U", 1, ""}, "==": {"..", "U", 1, ""}, "!=": {"..", "U", 1, ""}, "!": {"U", "U", 1, ""},
	"len": {"B", "U", 1, ""}, "itob": {"U", "B", 1, ""}, "btoi": {"B", "U", 1, ""},
	"|": {"UU", "U", 1, ""}, "&": {"UU", "U", 1, ""}, "^": {"UU", "U", 1, ""}, "~": {"U", "U", 1, ""},
	"mulw": {"UU", "UU", 1, ""}, "addw": {"UU", "UU", 1, ""}, "divw": {"UUU", "U", 1, ""},
	"shl": {"UU", "U", 1, ""}, "shr": {"UU", "U", 1, ""}, "sqrt": {"U", "U", 4, ""}, "bitlen": {".", "U", 1, ""},
	"exp": {"UU", "U", 1, ""}, "expw": {"UU", "UU", 10, ""},
	"intcblock": {"", "", 1, "ints"}, "intc": {"", "U", 1, "idx"}, "intc_0": {"", "U", 1, ""}, "intc_1": {"", "U", 1, ""}, "intc_2": {"", "U", 1, ""}, "intc_3": {"", "U", 1, ""},
	"bytecblock": {"", "", 1, "bytes"}, "bytec": {"", "B", 1, "idx"}, "bytec_0": {"", "B", 1, ""}, "bytec_1": {"", "B", 1, ""}, "bytec_2": {"", "B", 1, ""}, "bytec_3": {"", "B", 1, ""},
	"pushint": {"", "U", 1, "int"}, "addr": {"", "B", 1, "addr"}, "method": {"", "B", 1, "method"},
	"assert": {"U", "", 1, ""}, "select": {"..U", ".", 1, ""},
	"concat": {"BB", "B", 1, ""}, "substring": {"B", "B", 1, "two"}, "substring3": {"BUU", "B", 1, ""},
	"getbit": {".U", "U", 1, ""}, "setbit": {".UU", ".", 1, ""}, "getbyte": {"BU", "U", 1, ""}, "setbyte": {"BUU", "B", 1, ""},
	"extract": {"B", "B", 1, "two"}, "extract3": {"BUU", "B", 1, ""}, "extract_uint16": {"BU", "U", 1, ""}, "extract_uint32": {"BU", "U", 1, ""}, "extract_uint64": {"BU", "U", 1, ""},
	"replace2": {"BB", "B", 1, "idx"}, "replace3": {"BUB", "B", 1, ""}, "bzero": {"U", "B", 1, ""},
	"sha3_256": {"B", "B", 130, ""}, "json_ref": {"BB", ".", -1, "json"}, "base64_decode": {"B", "B", -1, "b64"},
	"b+": {"BB", "B", 10, ""}, "b-": {"BB", "B", 10, ""}, "b/": {"BB", "B", 20, ""}, "b*": {"BB", "B", 20, ""}, "b%": {"BB", "B", 20, ""},
	"b<": {"BB", "U", 1, ""}, "b>": {"BB", "U", 1, ""}, "b<=": {"BB", "U", 1, ""}, "b>=": {"BB", "U", 1, ""}, "b==": {"BB", "U", 1, ""}, "b!=": {"BB", "U", 1, ""},
	"b|": {"BB", "B", 6, ""}, "b&": {"BB", "B", 6, ""}, "b^": {"BB", "B", 6, ""}, "b~": {"B", "B", 4, ""}, "bsqrt": {"B", "B", 40, ""},
	"ecdsa_pk_decompress": {"B", "BB", 650, "k1"}, "ecdsa_verify": {"BBBBB", "U", 1700, "k1"}, "ecdsa_pk_recover": {"BUBB", "BB", 2000, "k1"},
	"ed25519verify_bare": {"BBB", "U", 1900, ""}, "vrf_verify": {"BBB", "BU", 5700, "vrf"},
	"arg": {"", "B", 1, "idx"}, "arg_0": {"", "B", 1, ""}, "arg_1": {"", "B", 1, ""}, "arg_2": {"", "B", 1, ""}, "arg_3": {"", "B", 1, ""}, "args": {"U", "B", 1, ""},
	"txn": {"", "T", 1, "txn"}, "gtxn": {"", "T", 1, "gtxn"}, "gtxns": {"U", "T", 1, "txn"},
	"txna": {"", "T", 1, "txna"}, "gtxna": {"", "T", 1, "gtxna"}, "gtxnsa": {"U", "T", 1, "txna"},
	"txnas": {"U", "T", 1, "arr"}, "gtxnas": {"U", "T", 1, "garr"}, "gtxnsas": {"UU", "T", 1, "arr"},
	"itxn": {"", "T", 1, "txn"}, "itxna": {"", "T", 1, "txna"}, "itxnas": {"U", "T", 1, "arr"}, "gitxn": {"", "T", 1, "gtxn"}, "gitxna": {"", "T", 1, "gtxna"}, "gitxnas": {"U", "T", 1, "garr"},
	"global": {"", "T", 1, "global"},
	"gload":  {"", ".", 1, "gload"}, "gloads": {"U", ".", 1, "idx"}, "gloadss": {"UU", ".", 1, ""}, "gaid": {"", "U", 1, "idx"}, "gaids": {"U", "U", 1, ""}, "loads": {"U", ".", 1, ""},
	"balance": {".", "U", 1, ""}, "min_balance": {".", "U", 1, ""}, "app_opted_in": {".U", "U", 1, ""},
	"app_local_get": {".B", ".", 1, ""}, "app_local_get_ex": {".UB", ".U", 1, ""}, "app_global_get": {"B", ".", 1, ""}, "app_global_get_ex": {"UB", ".U", 1, ""},
	"app_local_put": {".B.", "", 1, ""}, "app_global_put": {"B.", "", 1, ""}, "app_local_del": {".B", "", 1, ""}, "app_global_del": {"B", "", 1, ""},
	"asset_holding_get": {".U", "TU", 1, "holding"}, "asset_params_get": {"U", "TU", 1, "asset"}, "app_params_get": {"U", "TU", 1, "app"}, "acct_params_get": {".", "TU", 1, "acct"},
	"log": {"B", "", 1, ""}, "itxn_begin": {"", "", 1, ""}, "itxn_field": {"F", "", 1, "ifield"}, "itxn_submit": {"", "", 1, ""}, "itxn_next": {"", "", 1, ""},
	"box_create": {"BU", "U", 1, ""}, "box_extract": {"BUU", "B", 1, ""}, "box_replace": {"BUB", "", 1, ""}, "box_del": {"B", "U", 1, ""}, "box_len": {"B", "UU", 1, ""}, "box_get": {"B", "BU", 1, ""}, "box_put": {"BB", "", 1, ""},
	"block": {"U", "T", 1, "block"},
	// stack manipulation and others with effects of their own
	"dup2": {"..", "*", 1, ""}, "dig": {"", "*", 1, "idx"}, "bury": {"", "*", 1, "idx1"}, "cover": {"", "*", 1, "idx"}, "uncover": {"", "*", 1, "idx"},
	"popn": {"", "*", 1, "idx"}, "dupn": {".", "*", 1, "idx"}, "pushints": {"", "*", 1, "ints"}, "pushbytess": {"", "*", 1, "bytes"}, "pushbytes": {"", "*", 1, "byte"}, "stores": {"", "*", 1, ""},
}

var avmOpNames = func() []string {
	m := map[string]bool{}
	for n := range avmOps {
		m[n] = true
	}
	var ns []string
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}()

// fieldTypes of the fields that programs of these checks use.
var fieldTypes = map[string]byte{
	"Sender": 'B', "Fee": 'U', "FirstValid": 'U', "LastValid": 'U', "Note": 'B', "Lease": 'B', "Receiver": 'B', "Amount": 'U', "CloseRemainderTo": 'B',
	"VotePK": 'B', "SelectionPK": 'B', "VoteFirst": 'U', "VoteLast": 'U', "VoteKeyDilution": 'U', "Type": 'B', "TypeEnum": 'U', "XferAsset": 'U', "AssetAmount": 'U',
	"AssetSender": 'B', "AssetReceiver": 'B', "AssetCloseTo": 'B', "GroupIndex": 'U', "TxID": 'B', "ApplicationID": 'U', "OnCompletion": 'U', "NumAppArgs": 'U', "NumAccounts": 'U',
	"ApprovalProgram": 'B', "ClearStateProgram": 'B', "RekeyTo": 'B', "ConfigAsset": 'U', "ConfigAssetTotal": 'U', "ConfigAssetDecimals": 'U', "ConfigAssetDefaultFrozen": 'U',
	"ConfigAssetUnitName": 'B', "ConfigAssetName": 'B', "ConfigAssetURL": 'B', "ConfigAssetMetadataHash": 'B', "ConfigAssetManager": 'B', "FreezeAsset": 'U', "FreezeAssetAccount": 'B', "FreezeAssetFrozen": 'U',
	"NumAssets": 'U', "NumApplications": 'U', "GlobalNumUint": 'U', "LocalNumByteSlice": 'U', "ExtraProgramPages": 'U', "Nonparticipation": 'U', "NumLogs": 'U', "CreatedAssetID": 'U', "LastLog": 'B',
	"ApplicationArgs": 'B', "Accounts": 'B', "Assets": 'U', "Applications": 'U', "Logs": 'B',
	"MinTxnFee": 'U', "MinBalance": 'U', "MaxTxnLife": 'U', "ZeroAddress": 'B', "GroupSize": 'U', "LogicSigVersion": 'U', "Round": 'U', "LatestTimestamp": 'U', "CurrentApplicationID": 'U',
	"CreatorAddress": 'B', "CurrentApplicationAddress": 'B', "GroupID": 'B', "OpcodeBudget": 'U', "CallerApplicationID": 'U', "CallerApplicationAddress": 'B',
	"AssetBalance": 'U', "AssetFrozen": 'U', "AssetTotal": 'U', "AssetDecimals": 'U', "AssetDefaultFrozen": 'U', "AssetUnitName": 'B', "AssetName": 'B', "AssetURL": 'B', "AssetMetadataHash": 'B', "AssetManager": 'B', "AssetReserve": 'B', "AssetFreeze": 'B', "AssetClawback": 'B', "AssetCreator": 'B',
	"AppApprovalProgram": 'B', "AppClearStateProgram": 'B', "AppGlobalNumUint": 'U', "AppGlobalNumByteSlice": 'U', "AppLocalNumUint": 'U', "AppLocalNumByteSlice": 'U', "AppExtraProgramPages": 'U', "AppCreator": 'B', "AppAddress": 'B',
	"AcctBalance": 'U', "AcctMinBalance": 'U', "AcctAuthAddr": 'B', "AcctTotalNumUint": 'U', "AcctTotalAssets": 'U', "AcctTotalBoxes": 'U',
	"BlkSeed": 'B', "BlkTimestamp": 'U',
}

var txnFields = strings.Fields("Sender Fee FirstValid LastValid Note Lease Receiver Amount CloseRemainderTo VotePK SelectionPK VoteFirst VoteLast VoteKeyDilution Type TypeEnum XferAsset AssetAmount AssetSender AssetReceiver AssetCloseTo GroupIndex TxID ApplicationID OnCompletion NumAppArgs NumAccounts ApprovalProgram ClearStateProgram RekeyTo ConfigAsset ConfigAssetTotal ConfigAssetDecimals ConfigAssetDefaultFrozen ConfigAssetUnitName ConfigAssetName ConfigAssetURL ConfigAssetMetadataHash ConfigAssetManager FreezeAsset FreezeAssetAccount FreezeAssetFrozen NumAssets NumApplications GlobalNumUint LocalNumByteSlice ExtraProgramPages Nonparticipation")
var arrFields = strings.Fields("ApplicationArgs Accounts Assets Applications")
var globalFields = strings.Fields("MinTxnFee MinBalance MaxTxnLife ZeroAddress GroupSize LogicSigVersion Round LatestTimestamp CurrentApplicationID CreatorAddress CurrentApplicationAddress GroupID OpcodeBudget CallerApplicationID CallerApplicationAddress")
var itxnFields = strings.Fields("Fee Note Receiver Amount CloseRemainderTo Type TypeEnum XferAsset AssetAmount AssetReceiver ApplicationID OnCompletion ApplicationArgs Accounts Assets Applications ApprovalProgram RekeyTo ConfigAssetName ConfigAssetTotal")
var holdingFields = strings.Fields("AssetBalance AssetFrozen")
var assetFields = strings.Fields("AssetTotal AssetDecimals AssetDefaultFrozen AssetUnitName AssetName AssetURL AssetMetadataHash AssetManager AssetReserve AssetFreeze AssetClawback AssetCreator")
var appFields = strings.Fields("AppApprovalProgram AppClearStateProgram AppGlobalNumUint AppGlobalNumByteSlice AppLocalNumUint AppLocalNumByteSlice AppExtraProgramPages AppCreator AppAddress")
var acctFields = strings.Fields("AcctBalance AcctMinBalance AcctAuthAddr AcctTotalNumUint AcctTotalAssets AcctTotalBoxes")
var blockFields = strings.Fields("BlkSeed BlkTimestamp")

const someAddr = "7JOPVEP3ABJUW5YZ5WFIONLPWTZ5MYX5HFK4K7JLGSIAG7RRB42MNLQ224"

// canonValue reduces a displayed value to its type, except for the constants by
// which programs of these checks tell values apart.
func canonValue(v string) string {
	t, c, ok := strings.Cut(v, ": ")
	if !ok {
		return v
	}
	switch {
	case t == "uint64" && len(c) == 4 && strings.Trim(c, "0123456789") == "":
		return v
	case t == "bytes" && strings.HasPrefix(c, "b64 ") && len(c) > 8:
		return v
	}
	return t
}

func canonList(vs []string) []string {
	var out []string
	for _, v := range vs {
		out = append(out, canonValue(v))
	}
	return out
}

// firstWords reduces a trace to instruction names.
func firstWords(vs []string) []string {
	var out []string
	for _, v := range vs {
		w, _, _ := strings.Cut(v, " ")
		out = append(out, w)
	}
	return out
}

func typeName(c byte) string {
	switch c {
	case 'U':
		return "uint64"
	case 'B':
		return "bytes"
	}
	return "any"
}

// immField finds the field among the immediates.
func immField(imm []string) (byte, bool) {
	for _, f := range imm {
		if t, ok := fieldTypes[f]; ok {
			return t, true
		}
	}
	return 0, false
}

// avmCost of an instruction of the table.
func avmCost(in Ins, m *mstate) int {
	op := avmOps[in.Op]
	length := func(i int) int {
		if len(m.stack) <= i {
			return -1
		}
		return constLen(m.stack[len(m.stack)-1-i])
	}
	switch in.Op {
	case "ecdsa_verify":
		if len(in.Imm) > 0 && in.Imm[0] == "Secp256r1" {
			return 2500
		}
	case "ecdsa_pk_decompress":
		if len(in.Imm) > 0 && in.Imm[0] == "Secp256r1" {
			return 2400
		}
	case "base64_decode":
		if l := length(0); l >= 0 {
			return 1 + (l+15)/16
		}
		return 1
	case "json_ref":
		if l := length(1); l >= 0 {
			return 25 + 2*((l+6)/7)
		}
		return 1
	}
	return op.cost
}

// constLen of a displayed constant; -1 if the length is unknown.
func constLen(v string) int {
	c, ok := strings.CutPrefix(v, "bytes: b64 ")
	if !ok {
		return -1
	}
	return len(c)/4*3 - strings.Count(c, "=")
}

// avmStep performs an instruction of the table on the stack of m.
func avmStep(in Ins, m *mstate, pop func(string) string, push func(string)) {
	op := avmOps[in.Op]
	n := 0
	if len(in.Imm) > 0 {
		fmt.Sscan(in.Imm[0], &n)
	}
	need := func(k int) {
		if len(m.stack) < k {
			panic(badStep{true})
		}
	}
	L := len(m.stack)
	switch in.Op {
	case "json_ref", "base64_decode":
		// what they cost is not settled unless the length is known
		if i := L - len(op.args); i >= 0 && constLen(m.stack[i]) < 0 {
			panic(badStep{})
		}
	case "dup2":
		need(2)
		m.stack = append(m.stack, m.stack[L-2], m.stack[L-1])
		return
	case "dig":
		need(n + 1)
		push(m.stack[L-1-n])
		return
	case "bury":
		need(n + 1)
		if n == 0 {
			panic(badStep{})
		}
		v := pop("")
		m.stack[L-1-n] = v
		return
	case "cover":
		need(n + 1)
		v := m.stack[L-1]
		copy(m.stack[L-n:], m.stack[L-1-n:L-1])
		m.stack[L-1-n] = v
		return
	case "uncover":
		need(n + 1)
		v := m.stack[L-1-n]
		copy(m.stack[L-1-n:], m.stack[L-n:])
		m.stack[L-1] = v
		return
	case "popn":
		need(n)
		m.stack = m.stack[:L-n]
		return
	case "dupn":
		need(1)
		for i := 0; i < n; i++ {
			push(m.stack[L-1])
		}
		return
	case "pushints":
		for range in.Imm {
			push("uint64")
		}
		return
	case "pushbytess", "pushbytes":
		for _, b := range in.Imm {
			push("bytes: b64 " + hexB64(b))
		}
		return
	case "stores":
		v := pop("")
		i := pop("uint64")
		var k int
		if _, err := fmt.Sscanf(i, "uint64: %d", &k); err != nil || k > 255 {
			panic(badStep{})
		}
		m.scratch[k] = v
		return
	}
	ft, hasField := immField(in.Imm)
	for i := len(op.args) - 1; i >= 0; i-- {
		switch op.args[i] {
		case 'U', 'B':
			pop(typeName(op.args[i]))
		default:
			pop("")
		}
	}
	for i := 0; i < len(op.rets); i++ {
		t := op.rets[i]
		if t == 'T' {
			if !hasField {
				panic(badStep{})
			}
			t = ft
		}
		push(typeName(t))
	}
}

// opsGen makes straight-line code over the whole instruction set, with some
// branches, keeping track of the types on the stack.
type opsGen struct {
	r    *Rand
	ls   []string
	st   []byte
	cnt  int
	cost int
}

func (g *opsGen) emit(s string) { g.ls = append(g.ls, s) }

// value pushes a value of the type.
func (g *opsGen) value(t byte) {
	r := g.r
	g.cost++
	g.cnt++
	if t != 'U' && t != 'B' {
		t = pick(r, []byte{'U', 'B'})
	}
	if t == 'U' {
		g.emit(fmt.Sprintf("int %d", 1000+g.cnt))
	} else {
		g.emit(fmt.Sprintf("byte 0x%08x%s", 0x61000000+g.cnt, strings.Repeat("62", r.Intn(20))))
	}
	g.st = append(g.st, t)
}

// have makes the top of the stack fit the types.
func (g *opsGen) have(ts string, fresh bool) {
	ok := len(g.st) >= len(ts)
	if ok {
		for i := range ts {
			s := g.st[len(g.st)-len(ts)+i]
			if ts[i] != '.' && s != ts[i] && s != '.' {
				ok = false
			}
		}
	}
	if ok && !fresh && g.r.Bool(2, 3) {
		return
	}
	for i := range ts {
		g.value(ts[i])
	}
}

func (g *opsGen) imms(kind string) []string {
	r := g.r
	small := func() string { return fmt.Sprint(r.Intn(4)) }
	switch kind {
	case "ints":
		var s []string
		for i := 0; i < 1+r.Intn(5); i++ {
			s = append(s, fmt.Sprint(r.Intn(200)))
		}
		return s
	case "bytes":
		var s []string
		for i := 0; i < 1+r.Intn(4); i++ {
			g.cnt++
			s = append(s, fmt.Sprintf("0x%08x", 0x61000000+g.cnt))
		}
		return s
	case "byte":
		g.cnt++
		return []string{fmt.Sprintf("0x%08x", 0x61000000+g.cnt)}
	case "int":
		return []string{fmt.Sprint(r.Intn(100))}
	case "idx":
		return []string{small()}
	case "two":
		return []string{small(), small()}
	case "addr":
		return []string{someAddr}
	case "method":
		return []string{`"add(uint64,uint64)uint64"`}
	case "json":
		return []string{pick(r, []string{"JSONString", "JSONUint64", "JSONObject"})}
	case "b64":
		return []string{pick(r, []string{"StdEncoding", "URLEncoding"})}
	case "k1":
		return []string{pick(r, []string{"Secp256k1", "Secp256k1", "Secp256k1", "Secp256r1"})}
	case "vrf":
		return []string{"VrfAlgorand"}
	case "txn":
		return []string{pick(r, txnFields)}
	case "gtxn":
		return []string{small(), pick(r, txnFields)}
	case "txna":
		return []string{pick(r, arrFields), small()}
	case "gtxna":
		return []string{small(), pick(r, arrFields), small()}
	case "arr":
		return []string{pick(r, arrFields)}
	case "garr":
		return []string{small(), pick(r, arrFields)}
	case "global":
		return []string{pick(r, globalFields)}
	case "gload":
		return []string{small(), small()}
	case "holding":
		return []string{pick(r, holdingFields)}
	case "asset":
		return []string{pick(r, assetFields)}
	case "app":
		return []string{pick(r, appFields)}
	case "acct":
		return []string{pick(r, acctFields)}
	case "block":
		return []string{pick(r, blockFields)}
	case "ifield":
		return []string{pick(r, itxnFields)}
	}
	return nil
}

func (g *opsGen) op(name string) {
	op := avmOps[name]
	r := g.r
	imm := g.imms(op.imm)
	L := func() int { return len(g.st) }
	text := strings.TrimSpace(name + " " + strings.Join(imm, " "))
	if op.cost > 0 {
		g.cost += op.cost
	} else {
		g.cost += 30
	}
	switch name {
	case "dup2":
		for L() < 2 {
			g.value('.')
		}
		g.emit(text)
		g.st = append(g.st, g.st[L()-2], g.st[L()-1])
		return
	case "dig", "cover", "uncover", "bury":
		n := r.Intn(6)
		if r.Bool(1, 12) {
			n = r.Intn(60)
		}
		if l := L(); l > 20 && r.Bool(1, 2) {
			n = r.Intn(l)
			if n > 255 {
				n = 255
			}
		}
		if name == "bury" && n == 0 {
			n = 1
		}
		for L() < n+1 {
			g.value('.')
		}
		g.emit(fmt.Sprintf("%s %d", name, n))
		l := L()
		switch name {
		case "dig":
			g.st = append(g.st, g.st[l-1-n])
		case "bury":
			g.st[l-1-n] = g.st[l-1]
			g.st = g.st[:l-1]
		case "cover":
			v := g.st[l-1]
			copy(g.st[l-n:], g.st[l-1-n:l-1])
			g.st[l-1-n] = v
		case "uncover":
			v := g.st[l-1-n]
			copy(g.st[l-1-n:], g.st[l-n:])
			g.st[l-1] = v
		}
		return
	case "popn":
		n := r.Intn(4)
		if l := L(); l > 4 && r.Bool(1, 3) {
			n = r.Intn(l)
			if n > 255 {
				n = 255
			}
		}
		for L() < n {
			g.value('.')
		}
		g.emit(fmt.Sprintf("popn %d", n))
		g.st = g.st[:L()-n]
		return
	case "dupn":
		n := r.Intn(5)
		if r.Bool(1, 15) {
			n = 100 + r.Intn(156)
		}
		if L() == 0 {
			g.value('.')
		}
		g.emit(fmt.Sprintf("dupn %d", n))
		for ; n > 0; n-- {
			g.st = append(g.st, g.st[L()-1])
		}
		return
	case "pushints":
		g.emit(text)
		for range imm {
			g.st = append(g.st, 'U')
		}
		return
	case "pushbytess", "pushbytes":
		g.emit(text)
		for range imm {
			g.st = append(g.st, 'B')
		}
		return
	case "stores":
		g.emit(fmt.Sprintf("int %d", r.Intn(256)))
		g.st = append(g.st, 'U')
		g.value('.')
		g.emit("stores")
		g.st = g.st[:L()-2]
		return
	}
	args := op.args
	if args == "F" {
		t, _ := immField(imm)
		args = string(t)
	}
	if r.Bool(1, 70) && len(args) > 0 {
		// an operand of the wrong type, or none at all
		k := r.Intn(len(args))
		switch args[k] {
		case 'U':
			g.have(args[:k]+"B"+args[k+1:], false)
		case 'B':
			g.have(args[:k]+"U"+args[k+1:], false)
		default:
			g.have(args, false)
		}
	} else {
		g.have(args, name == "json_ref" || name == "base64_decode")
	}
	g.emit(text)
	g.st = g.st[:L()-len(args)]
	for i := 0; i < len(op.rets); i++ {
		t := op.rets[i]
		if t == 'T' {
			t, _ = immField(imm)
		}
		g.st = append(g.st, t)
	}
}

func genOps(r *Rand) []string {
	g := &opsGen{r: r}
	g.emit(fmt.Sprintf("#pragma version %d", 8+r.Intn(3)))
	if r.Bool(1, 10) {
		// a deep stack
		g.value('.')
		for len(g.st) < 100+r.Intn(300) {
			g.op("dupn")
		}
	}
	n := 3 + r.Intn(25)
	for i := 0; i < n && g.cost < 650; i++ {
		switch r.Intn(14) {
		case 0:
			g.emit(pick(r, []string{"", "// c", fmt.Sprintf("l%d:", i)}))
		case 1:
			g.have("U", false)
			if k := 1 + r.Intn(4); len(g.st) > k && r.Bool(1, 4) {
				g.emit("match" + strings.Repeat(" end", k-1) + " other")
				g.st = g.st[:len(g.st)-1-k]
				break
			}
			g.emit(pick(r, []string{"bz end", "bnz end", "switch end", "switch end other"}))
			g.st = g.st[:len(g.st)-1]
		case 2:
			if len(g.st) > 0 {
				s := r.Intn(4)
				if r.Bool(1, 3) {
					s = r.Intn(256)
				}
				g.emit(fmt.Sprintf("store %d", s))
				g.st = g.st[:len(g.st)-1]
			}
		case 3:
			if len(g.st) > 1 {
				g.emit(pick(r, []string{"swap", "dup"}))
				l := len(g.st)
				if g.ls[len(g.ls)-1] == "swap" {
					g.st[l-1], g.st[l-2] = g.st[l-2], g.st[l-1]
				} else {
					g.st = append(g.st, g.st[l-1])
				}
			}
		default:
			name := pick(r, avmOpNames)
			if avmOps[name].cost > 400 && !r.Bool(1, 4) {
				continue
			}
			g.op(name)
		}
	}
	g.emit("other:")
	if len(g.st) == 0 || r.Bool(1, 2) {
		g.emit("int 1000")
	}
	g.emit("end:")
	g.emit("txn Fee")
	return g.ls
}

func genP25(r *Rand) *Plan {
	p := &Plan{Prop: "P25", Text: genOps(r)}
	p.set("lz", r.Intn(3))
	p.set("nl", r.Intn(2))
	p.set("types", 1)
	if r.Bool(1, 6) {
		// to the end in one go, or from breakpoint to breakpoint
		p.Ops = append(p.Ops, Op{K: "next", A: []int{0, r.Intn(5)}})
		if r.Bool(1, 2) {
			p.Ops = append(p.Ops, Op{K: "bp", A: []int{r.Intn(1 << 16), r.Intn(1 << 16)}})
		}
		p.Ops = append(p.Ops, Op{K: "cont", A: []int{0}}, Op{K: "cont", A: []int{0}})
		return p
	}
	for i := 0; i < 1+r.Intn(6); i++ {
		sel := 0
		if r.Bool(1, 3) {
			sel = r.Intn(1 << 16)
		}
		p.Ops = append(p.Ops, Op{K: "next", A: []int{sel, 2 + r.Intn(40)}})
	}
	return p
}

func init() {
	register(&Prop{
		ID: "P25", Level: "exploration",
		Rule:      "a generated program over the whole instruction set (about 150 straight-line instructions with generated immediates, mixed with branches), debugged in lock-step with a model of the AVM's stack effects and costs; after every step all threads are inspected: types, the constants that identify values, scratch space, budget and the instruction names of the trace must agree, and an instruction whose operands are missing or of the wrong type must stop with an exception; non-trivial: at least one step",
		StateRule: "hash of (instruction or continue, successors, number of threads, call depth, budget band, first thread or another)",
		Quick:     18000, Thorough: 500000, Chunk: 100,
		Real: realDbg, Stub: stubDbg,
		Gen: genP25, Run: runVM,
	})
}
