// Command rewrite instruments a scratch copy of dragmz/teal for simulation.
//
//	rewrite DIR
//
// DIR is a copy of the repository (never /repo itself) into which the
// simulator's run-time package has been copied. Every package of the module
// that the servers and commands need is type-checked and edited in place:
//
//   - a step hook at the start of every function and loop body,
//   - map iterations go through a seeded iterator,
//   - os, path/filepath, net, io/ioutil, time and sync calls that the simulator
//     controls go to its shim,
//   - "go func() {...}()" starts a simulated task,
//   - commands become importable packages (package clause, main -> VerifMain).
//
// All edits stay on the line they are made on, so line numbers survive.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	modPath = "github.com/dragmz/teal"
	rtPath  = modPath + "/verifsim/simrt"
	rtName  = "verifsimrt"
)

type pkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion string }
}

type edit struct {
	off, end int
	text     string

	from, to int  // insert this segment, with its own edits, instead of text
	moved    bool // stands where a segment was that is inserted elsewhere
}

// shims: package path -> function -> replacement in the run-time package
var shims = map[string]map[string]string{
	"os": {
		"ReadFile": "ReadFile", "Open": "Open", "OpenFile": "OpenFile", "Create": "Create",
		"WriteFile": "WriteFile", "Stat": "Stat", "Lstat": "Lstat", "ReadDir": "ReadDir", "Exit": "Exit", "DirFS": "DirFS",
	},
	"io/ioutil":     {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "ReadDir": "IoutilReadDir"},
	"path/filepath": {"WalkDir": "WalkDir", "Walk": "Walk"},
	"net":           {"Dial": "Dial", "DialTimeout": "DialTimeout", "Dialer": "Dialer", "DialTCP": "DialTCP", "DialUnix": "DialUnix"},
	"time": {
		"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc",
		"Timer": "Timer", "NewTimer": "NewTimer", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick",
	},
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"math/rand":    randShims,
	"math/rand/v2": randShims,
	"crypto/rand":  {"Read": "RandRead", "Reader": "RandReader"},
}

var randShims = map[string]string{
	"Int": "RandInt", "Intn": "RandIntn", "IntN": "RandIntn", "Int63": "RandInt63", "Int63n": "RandInt63n",
	"Int31n": "RandInt31n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64",
	"Perm": "RandPerm", "Shuffle": "RandShuffle",
}

// keep an import used after its calls went to the shim
var keep = map[string]string{
	"os": "var _ = %s.ErrNotExist", "io/ioutil": "var _ = %s.Discard", "path/filepath": "var _ = %s.Separator",
	"math/rand": "var _ %s.Source", "math/rand/v2": "var _ %s.Source", "crypto/rand": "var _ = %s.Prime",
	"net": "var _ = %s.IPv4len", "time": "var _ = %s.Second", "sync": "var _ %s.Locker",
}

type stats struct {
	Hooks, MapRanges, MapSkipped, Shims, Gos, GoSkipped, ChanOps int
}

var st stats

func fatal(args ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"rewrite:"}, args...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 2 {
		fatal("usage: rewrite DIR")
	}
	dir := os.Args[1]
	roots := []string{".", "./lsp", "./dbg"}
	for _, c := range []string{"tealsp", "tealdbg", "tealsarif"} {
		roots = append(roots, "./cmd/"+c)
	}
	args := append([]string{"list", "-trimpath", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,ImportMap,Module"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list:", err)
	}
	pkgs := map[string]*pkg{}
	var mine []*pkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output:", err)
		}
		pkgs[p.ImportPath] = p
		if !p.Standard && (p.ImportPath == modPath || strings.HasPrefix(p.ImportPath, modPath+"/")) {
			mine = append(mine, p)
		}
	}
	fset := token.NewFileSet()
	for _, p := range mine {
		if err := process(fset, pkgs, p); err != nil {
			fatal(p.ImportPath, err)
		}
	}
	b, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(dir, "verifsim", "rewrite.json"), b, 0o644); err != nil {
		fatal(err)
	}
}

func process(fset *token.FileSet, pkgs map[string]*pkg, p *pkg) error {
	var files []*ast.File
	var names []string
	srcs := map[*ast.File][]byte{}
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			return err
		}
		files = append(files, af)
		names = append(names, name)
		srcs[af] = src
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		d := pkgs[path]
		if d == nil || d.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(d.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp, FakeImportC: true}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return fmt.Errorf("type check: %w", err)
	}
	for i, af := range files {
		out := rewriteFile(fset, p, af, srcs[af], info)
		if err := os.WriteFile(names[i], out, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func rewriteFile(fset *token.FileSet, p *pkg, af *ast.File, src []byte, info *types.Info) []byte {
	tf := fset.File(af.Pos())
	off := func(pos token.Pos) int { return tf.Offset(pos) }
	var edits []edit
	add := func(from, to int, text string) { edits = append(edits, edit{off: from, end: to, text: text}) }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }

	kept := map[string]string{} // import path -> local name
	n := 0

	hook := func(b *ast.BlockStmt) {
		if b == nil {
			return
		}
		st.Hooks++
		o := off(b.Lbrace) + 1
		add(o, o, " "+rtName+".Y();")
	}

	comm := map[ast.Node]bool{} // communications of select clauses
	labelled := map[*ast.SelectStmt]bool{}

	chanRange := func(x *ast.RangeStmt) {
		st.ChanOps++
		n++
		c, ok := fmt.Sprintf("verifCh%d", n), fmt.Sprintf("verifOk%d", n)
		k := "_"
		if id, isID := x.Key.(*ast.Ident); isID {
			k = id.Name
		} else if x.Key != nil {
			return
		}
		if x.Tok == token.ASSIGN && k != "_" {
			v := fmt.Sprintf("verifV%d", n)
			add(off(x.For)+len("for"), off(x.X.Pos()), fmt.Sprintf(" %s, %s, %s := %s.RangeChan(", c, v, ok, rtName))
			add(off(x.X.End()), off(x.Body.Lbrace)+1, fmt.Sprintf("); %s; %s, %s = %s.Recv2(%s) { %s = %s;", ok, v, ok, rtName, c, k, v))
			return
		}
		add(off(x.For)+len("for"), off(x.X.Pos()), fmt.Sprintf(" %s, %s, %s := %s.RangeChan(", c, k, ok, rtName))
		add(off(x.X.End()), off(x.X.End()), fmt.Sprintf("); %s; %s, %s = %s.Recv2(%s)", ok, k, ok, rtName, c))
	}

	ast.Inspect(af, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			hook(x.Body)
			if p.Name == "main" && x.Recv == nil && x.Name.Name == "main" {
				add(off(x.Name.Pos()), off(x.Name.End()), "VerifMain")
			}
		case *ast.FuncLit:
			hook(x.Body)
		case *ast.ForStmt:
			hook(x.Body)
		case *ast.RangeStmt:
			hook(x.Body)
			t := info.Types[x.X].Type
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				if _, ok := t.Underlying().(*types.Chan); ok {
					chanRange(x)
				}
				break
			}
			id := func(e ast.Expr) (string, bool) {
				if e == nil {
					return "", true
				}
				i, ok := e.(*ast.Ident)
				if !ok {
					return "", false
				}
				return i.Name, true
			}
			k, ok1 := id(x.Key)
			v, ok2 := id(x.Value)
			if !ok1 || !ok2 {
				st.MapSkipped++
				break
			}
			n++
			it := fmt.Sprintf("verifIt%d", n)
			ref := func(s string) string {
				if s == "" || s == "_" {
					return "nil"
				}
				return "&" + s
			}
			next := fmt.Sprintf(" %s.Next(%s, %s);", it, ref(k), ref(v))
			var head string
			kk, vv := k, v
			if kk == "_" {
				kk = ""
			}
			if vv == "_" {
				vv = ""
			}
			if x.Tok == token.DEFINE && (kk != "" || vv != "") {
				switch {
				case vv == "":
					head = fmt.Sprintf("%s, %s := %s.Start1(", kk, it, rtName)
				case kk == "":
					head = fmt.Sprintf("_, %s, %s := %s.Start2(", vv, it, rtName)
				default:
					head = fmt.Sprintf("%s, %s, %s := %s.Start2(", kk, vv, it, rtName)
				}
			} else {
				head = fmt.Sprintf("%s := %s.Start0(", it, rtName)
			}
			st.MapRanges++
			add(off(x.For)+len("for"), off(x.X.Pos()), " "+head)
			add(off(x.X.End()), off(x.X.End()), ");"+next)
		case *ast.GoStmt:
			fl, ok := x.Call.Fun.(*ast.FuncLit)
			if ok && len(x.Call.Args) == 0 {
				st.Gos++
				add(off(x.Go), off(fl.Pos()), rtName+".Go(")
				add(off(fl.End()), off(x.Call.End()), ")")
				break
			}
			if tv := info.Types[x.Call.Fun]; tv.IsBuiltin() || tv.IsType() {
				st.GoSkipped++
				break
			}
			// go f(a, b): the function and its arguments are evaluated now
			st.Gos++
			n++
			names, call := []string{fmt.Sprintf("verifGo%d", n)}, []string{}
			vals := []ast.Expr{x.Call.Fun}
			for i, a := range x.Call.Args {
				if tv := info.Types[a]; tv.Value != nil || tv.IsNil() {
					call = append(call, text(a))
					continue
				}
				nm := fmt.Sprintf("verifGo%d_%d", n, i)
				names, call, vals = append(names, nm), append(call, nm), append(vals, a)
			}
			add(off(x.Go), off(x.Go)+len("go"), "{ "+strings.Join(names, ", ")+" :=")
			last := x.Call.Fun.End()
			for _, v := range vals[1:] {
				add(off(last), off(v.Pos()), ", ")
				last = v.End()
			}
			dots := ""
			if x.Call.Ellipsis.IsValid() {
				dots = "..."
			}
			add(off(last), off(x.Call.End()), fmt.Sprintf("; %s.Go(func() { %s(%s%s) }) }", rtName, names[0], strings.Join(call, ", "), dots))
		case *ast.SendStmt:
			if comm[x] {
				break
			}
			st.ChanOps++
			add(off(x.Pos()), off(x.Pos()), rtName+".Send(")
			add(off(x.Arrow), off(x.Arrow)+len("<-"), ",")
			add(off(x.End()), off(x.End()), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || comm[x] {
				break
			}
			st.ChanOps++
			fn := ".Recv("
			if _, ok := info.Types[x].Type.(*types.Tuple); ok {
				fn = ".Recv2("
			}
			add(off(x.OpPos), off(x.OpPos)+len("<-"), rtName+fn)
			add(off(x.X.End()), off(x.X.End()), ")")
		case *ast.SelectStmt:
			st.ChanOps++
			def := len(x.Body.List) == 0
			var hoist []ast.Expr
			for _, c := range x.Body.List {
				cc := c.(*ast.CommClause)
				switch s := cc.Comm.(type) {
				case nil:
					def = true
				case *ast.SendStmt:
					comm[s] = true
					hoist = append(hoist, s.Chan, s.Value)
				case *ast.ExprStmt:
					u := ast.Unparen(s.X).(*ast.UnaryExpr)
					comm[u] = true
					hoist = append(hoist, u.X)
				case *ast.AssignStmt:
					u := ast.Unparen(s.Rhs[0]).(*ast.UnaryExpr)
					comm[u] = true
					hoist = append(hoist, u.X)
				}
			}
			if def || labelled[x] {
				break
			}
			n++
			// operands are evaluated once, before the first look
			add(off(x.Select), off(x.Select), "{ ")
			for i, e := range hoist {
				if tv := info.Types[e]; tv.Value != nil || tv.IsNil() {
					continue
				}
				v := fmt.Sprintf("verifSel%d_%d", n, i)
				add(off(x.Select), off(x.Select), v+" := ")
				edits = append(edits, edit{off: off(x.Select), end: off(x.Select), from: off(e.Pos()), to: off(e.End())})
				add(off(x.Select), off(x.Select), "; ")
				edits = append(edits, edit{off: off(e.Pos()), end: off(e.End()), text: v, moved: true})
			}
			add(off(x.Select), off(x.Select), fmt.Sprintf("verifSel%d: ", n))
			add(off(x.Body.Rbrace), off(x.Body.Rbrace), fmt.Sprintf("; default: %s.SelWait(); goto verifSel%d; }", rtName, n))
		case *ast.LabeledStmt:
			if s, ok := x.Stmt.(*ast.SelectStmt); ok {
				labelled[s] = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && info.Types[x.Fun].IsBuiltin() {
				c, ok := x.Args[0].(*ast.ChanType)
				zero := len(x.Args) == 1
				if len(x.Args) == 2 {
					if v := info.Types[x.Args[1]].Value; v != nil && v.String() == "0" {
						zero = true
					}
				}
				if ok && zero && c.Dir == ast.SEND|ast.RECV {
					st.ChanOps++
					add(off(x.Pos()), off(c.Value.Pos()), rtName+".MakeChan[")
					add(off(c.Value.End()), off(x.End()), "]()")
				}
			}
		case *ast.SelectorExpr:
			q, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[q].(*types.PkgName)
			if !ok {
				break
			}
			path := pn.Imported().Path()
			repl, ok := shims[path][x.Sel.Name]
			if !ok {
				break
			}
			st.Shims++
			kept[path] = q.Name
			add(off(x.Pos()), off(x.End()), rtName+"."+repl)
		}
		return true
	})

	// package clause and import
	if p.Name == "main" {
		add(off(af.Name.Pos()), off(af.Name.End()), "cmd_"+filepath.Base(p.Dir))
	}
	o := off(af.Name.End())
	add(o, o, fmt.Sprintf("; import %s %q", rtName, rtPath))
	o = len(src)
	tail := fmt.Sprintf("\nvar _ = %s.Y\n", rtName)
	var paths []string
	for path := range kept {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		tail += fmt.Sprintf(keep[path], kept[path]) + "\n"
	}
	add(o, o, tail)

	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var out bytes.Buffer
	var render func(lo, hi int, top bool)
	render = func(lo, hi int, top bool) {
		pos := lo
		for _, e := range edits {
			if e.off < pos || e.end > hi || (e.off == hi && !top) {
				continue // elsewhere, or nested in a replaced segment
			}
			if e.moved && !top && e.off == lo && e.end == hi {
				continue
			}
			out.Write(src[pos:e.off])
			if e.to > 0 {
				render(e.from, e.to, false)
			} else {
				out.WriteString(e.text)
			}
			pos = e.end
		}
		out.Write(src[pos:hi])
	}
	render(0, len(src), true)
	return out.Bytes()
}
