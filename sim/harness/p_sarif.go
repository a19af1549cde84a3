//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"
)

const realSarif = "cmd/tealsarif's main function in a process of its own, with the analyser"
const stubSarif = "directory trees: real files in a scratch directory; stat, directory reads and file reads can be made to fail; standard output may be a full disk"

// Trees: Op K "f" (S path, J or B content), "d" (directory), "l" (S link, J target).

var treeNames = []string{"a.teal", "b.teal", "c.teal", "z.teal", "sp ace.teal", "é.teal", "日本.teal", "x%20y.teal", "q?x.teal", "h#y.teal", "p+q&r.teal", ".teal", ".hidden.teal", "no.TEAL", "noext", "t.teal.txt", "teal", "x.tea", "a.b.teal", "README.md", "semi;colon.teal", "qu'ote\".teal", "-dash.teal", "~t.teal", "[x].teal", "per%cent.teal"}
var treeDirs = []string{"sub", "s 1", "dir.teal", ".git", "é", "node_modules", "a", "x.y", "vendor", "_d", "deep"}

func genTree(r *Rand) []Op {
	var ops []Op
	dirs := []string{"tree"}
	ops = append(ops, Op{K: "d", S: "tree"})
	nd := r.Intn(4)
	for i := 0; i < nd; i++ {
		d := pick(r, dirs) + "/" + pick(r, treeDirs)
		dirs = append(dirs, d)
		ops = append(ops, Op{K: "d", S: d})
	}
	var texts []string
	nf := r.Intn(7)
	if nf == 0 {
		nf = r.Intn(3)
	}
	if r.Bool(1, 25) {
		nf = 20 + r.Intn(20)
	}
	for i := 0; i < nf; i++ {
		var t string
		switch k := r.Intn(10); {
		case k == 0 && len(texts) > 0:
			t = pick(r, texts) // the same text again
		case k == 1:
			t = ""
		case k < 4:
			t = "#pragma version 8\nint 1\nreturn\n" // nothing to report
		default:
			t = genText(r, 1+r.Intn(12))
		}
		texts = append(texts, t)
		ops = append(ops, Op{K: "f", S: pick(r, dirs) + "/" + pick(r, treeNames), J: t})
	}
	if r.Bool(1, 4) {
		ops = append(ops, Op{K: "l", S: pick(r, dirs) + "/" + pick(r, []string{"l.teal", "m.teal", "plain"}), J: pick(r, []string{"a.teal", "b.teal", "é.teal"})})
	}
	return ops
}

// makeTree builds the tree in the run's scratch directory.
func makeTree(ops []Op) {
	os.RemoveAll("tree")
	for _, o := range ops {
		switch o.K {
		case "d":
			os.MkdirAll(o.S, 0o755)
		case "f":
			b := []byte(o.J)
			if o.B != nil {
				b = o.B
			}
			os.WriteFile(o.S, b, 0o644) // fails where a directory is in the way: then there is no file
		case "l":
			os.Symlink(o.J, o.S)
		}
	}
	os.MkdirAll("tree", 0o755)
}

type treeFile struct {
	path string // absolute
	bad  bool   // cannot be read
	text string
}

// tealFiles lists the .teal files under path.
func tealFiles(path string) []treeFile {
	var res []treeFile
	add := func(p string) {
		a, err := filepath.Abs(p)
		if err != nil {
			panic(err)
		}
		b, err := os.ReadFile(p)
		res = append(res, treeFile{a, err != nil, string(b)})
	}
	fi, err := os.Stat(path)
	if err != nil {
		return nil
	}
	if !fi.IsDir() {
		add(path)
		return res
	}
	var walk func(d string)
	walk = func(d string) {
		es, err := os.ReadDir(d)
		if err != nil {
			panic(err)
		}
		for _, e := range es {
			p := d + "/" + e.Name()
			if e.IsDir() {
				walk(p)
			} else if strings.HasSuffix(e.Name(), ".teal") {
				add(p)
			}
		}
	}
	walk(path)
	return res
}

// snapshotTree describes every entry of the tree.
func snapshotTree() string {
	var b strings.Builder
	filepath.Walk("tree", func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%s %v %d %v\n", p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		if fi.Mode().IsRegular() {
			c, _ := os.ReadFile(p)
			fmt.Fprintf(&b, "%x\n", hash64(c))
		}
		return nil
	})
	return b.String()
}

type sarifDoc struct {
	Version string `json:"version"`
	Schema  string `json:"$schema"`
	Runs    []struct {
		Tool struct {
			Driver struct {
				Name  string `json:"name"`
				Rules []struct {
					Id string `json:"id"`
				} `json:"rules"`
			} `json:"driver"`
		} `json:"tool"`
		Artifacts []struct {
			Location struct {
				Uri string `json:"uri"`
			} `json:"location"`
		} `json:"artifacts"`
		Results []struct {
			Level     string                 `json:"level"`
			RuleId    string                 `json:"ruleId"`
			RuleIndex *int                   `json:"ruleIndex"`
			Message   struct{ Text *string } `json:"message"`
			Locations []struct {
				PhysicalLocation struct {
					ArtifactLocation struct {
						Uri   string `json:"uri"`
						Index *int   `json:"index"`
					} `json:"artifactLocation"`
					Region struct {
						StartLine   int `json:"startLine"`
						StartColumn int `json:"startColumn"`
					} `json:"region"`
				} `json:"physicalLocation"`
			} `json:"locations"`
		} `json:"results"`
	} `json:"runs"`
}

func parseSarif(x *X, out []byte) *sarifDoc {
	d := &sarifDoc{}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	if err := dec.Decode(d); err != nil {
		x.fail("report", "status 0, but the report is not JSON: %v: %s", err, short(string(out), 300))
	}
	if dec.More() {
		x.fail("report", "more than one document")
	}
	if d.Version != "2.1.0" || len(d.Runs) != 1 || d.Runs[0].Tool.Driver.Name == "" || d.Runs[0].Artifacts == nil || d.Runs[0].Results == nil {
		x.fail("report", "not a SARIF 2.1.0 document with one run: %s", short(string(out), 300))
	}
	return d
}

func uriPath(x *X, uri string) string {
	u, err := url.Parse(uri)
	if err != nil || u.Scheme != "file" || u.Host != "" || u.RawQuery != "" || u.Fragment != "" || !strings.HasPrefix(u.Path, "/") {
		x.fail("uri", "not the URI of a local file: %q", uri)
	}
	if rest, ok := strings.CutPrefix(u.Path, scanLink[0]+"/"); ok && scanLink[0] != "" {
		return scanLink[1] + "/" + rest
	}
	return u.Path
}

// covers checks that the artifacts are exactly the files.
func (d *sarifDoc) covers(x *X, want []treeFile) map[string]int {
	idx := map[string]int{}
	for i, a := range d.Runs[0].Artifacts {
		p := uriPath(x, a.Location.Uri)
		if _, dup := idx[p]; dup {
			x.fail("artifacts", "%q is listed twice", p)
		}
		idx[p] = i
	}
	for _, f := range want {
		if _, ok := idx[f.path]; !ok {
			x.fail("artifacts", "%q is not listed (artifacts: %d, files: %d)", f.path, len(idx), len(want))
		}
	}
	if len(idx) != len(want) {
		x.fail("artifacts", "%d artifacts for %d files", len(idx), len(want))
	}
	return idx
}

// scanLink: a link to the scanned directory, if the scan goes through one, and
// its target. The report may name the files either way.
var scanLink [2]string

// scanArgs: how the path argument is written.
func scanArgs(p *Plan) (dir, path string, args []string) {
	paths := []string{"tree"}
	for _, o := range p.Ops {
		paths = append(paths, o.S)
	}
	path = "tree"
	if k := p.cfg("path"); k > 0 {
		path = paths[k%len(paths)]
	}
	dir = "."
	arg := path
	os.Remove("lnk")
	scanLink = [2]string{}
	switch p.cfg("form") {
	case 1:
		arg = "./" + path
	case 2:
		arg, _ = filepath.Abs(path)
	case 3:
		if path == "tree" {
			dir, arg = "tree", "."
		}
	case 4:
		if fi, err := os.Stat(path); err == nil && fi.IsDir() {
			arg = path + "/"
		}
	case 5:
		arg = "tree/../" + path
	case 6:
		if fi, err := os.Stat(path); err == nil && fi.IsDir() {
			if err := os.Symlink(path, "lnk"); err != nil {
				panic(err)
			}
			scanLink[0], _ = filepath.Abs("lnk")
			scanLink[1], _ = filepath.Abs(path)
			arg = "lnk"
		}
	}
	if p.cfg("eq") == 1 {
		return dir, path, []string{"-path=" + arg}
	}
	return dir, path, []string{"-path", arg}
}

func genScan(r *Rand) *Plan {
	p := &Plan{Ops: genTree(r)}
	if r.Bool(1, 4) {
		p.set("path", 1+r.Intn(len(p.Ops)))
	}
	p.set("form", r.Intn(7))
	p.set("eq", r.Intn(2))
	return p
}

func p21Gen(r *Rand) *Plan {
	p := genScan(r)
	switch k := r.Intn(12); {
	case k < 6:
		// a fault at the nth operation of a kind, or always
		n := 1
		if r.Bool(1, 5) {
			n = 2
		}
		for i := 0; i < n; i++ {
			f := Fault{K: pick(r, []string{"read", "read", "readdir", "readdir", "stat", "open"}), At: r.Intn(8), E: r.Intn(len(faultErrnos))}
			if r.Bool(1, 6) {
				f.At = -1
			}
			if r.Bool(1, 2) {
				f.N = 1 + r.Intn(len(p.Ops)) // a particular path
				f.At = -1
			}
			p.Faults = append(p.Faults, f)
		}
	case k == 6:
		p.Faults = append(p.Faults, Fault{K: "full"})
	case k == 7 || k == 8:
		p.Faults = append(p.Faults, Fault{K: "fsize", At: r.Intn(1 << 16)})
	case k == 9:
		d := "tree"
		p.Ops = append(p.Ops, Op{K: "l", S: d + "/" + pick(r, []string{"dangling.teal", "loop.teal", "dirlink.teal"}), J: pick(r, []string{"nowhere", "loop.teal", "."})})
	case k == 10 && r.Bool(1, 2):
		p.set("missing", 1)
	}
	return p
}

func p21Run(p *Plan, x *X) {
	makeTree(p.Ops)
	defer os.RemoveAll("tree")
	dir, path, args := scanArgs(p)
	if p.cfg("missing") == 1 {
		path = "tree/no/such/path"
		args = []string{"-path", path}
		x.fault("missing_path")
	}
	before := snapshotTree()
	ref := runTool(x, "tealsarif", dir, args, nil, nil)
	files := tealFiles(path)
	_, serr := os.Stat(path)
	cannot := serr != nil
	for _, f := range files {
		if f.bad {
			cannot = true
			x.fault("unreadable_file")
		}
	}
	judge := func(r *MainRes, what string) {
		if after := snapshotTree(); after != before {
			x.fail("modified", "%s modified the scanned tree: %s", what, diffAt(before, after))
		}
	}
	judge(ref, "the scan")
	if cannot {
		if ref.Code == 0 {
			x.fail("silent", "status 0 although something could not be read (%v): %s", args, short(string(ref.Stdout), 300))
		}
	} else {
		if ref.Code != 0 {
			x.fail("failed", "status %d without any fault: %s", ref.Code, short(ref.Stderr, 600))
		}
		parseSarif(x, ref.Stdout).covers(x, files)
	}
	x.state(len(files), cannot, p.cfg("form"), path == "tree")
	x.Trivial = len(files) == 0 && !cannot
	if cannot || len(p.Faults) == 0 {
		return
	}
	var fs []FsFault
	var env []string
	var out *os.File
	must := ""
	for _, f := range p.Faults {
		switch f.K {
		case "full":
			var err error
			out, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			defer out.Close()
			x.fault("stdout_full")
			must = "standard output is full"
		case "fsize":
			n := f.At % (len(ref.Stdout) + 1)
			var err error
			out, err = os.Create("out")
			if err != nil {
				panic(err)
			}
			defer os.Remove("out")
			defer out.Close()
			env = append(env, fmt.Sprintf("VERIF_SIM_FSIZE=%d", n))
			if n < len(ref.Stdout) {
				must = fmt.Sprintf("the disk was full after %d of %d bytes of the report", n, len(ref.Stdout))
				x.fault("stdout_disk_full_at_byte")
			}
		default:
			g := FsFault{Op: f.K, Nth: f.At, Err: f.E}
			x.fault("errno_" + faultErrnos[f.E%len(faultErrnos)].Error())
			if f.N > 0 {
				g.Path = p.Ops[(f.N-1)%len(p.Ops)].S
				if dir != "." || p.cfg("form") != 0 {
					g.Path = "" // the path is written in another way
				}
			}
			fs = append(fs, g)
		}
	}
	if fs != nil {
		env = append(env, "VERIF_SIM_FS="+jstr(fs))
	}
	r := runTool(x, "tealsarif", dir, args, nil, out, env...)
	judge(r, "the scan with faults")
	for _, l := range r.Log {
		if strings.HasPrefix(l, "FAULT ") && !strings.HasPrefix(l, "FAULT stat ") {
			must = l
		}
	}
	if r.Code == 0 && must != "" {
		x.fail("silent", "status 0 although %s", must)
	}
	if r.Code == 0 && out == nil && string(r.Stdout) != string(ref.Stdout) {
		x.fail("partial", "status 0 with a different report after a fault (%v): %s", r.Log, diffAt(string(ref.Stdout), string(r.Stdout)))
	}
	if must == "" && !r.faulted() && r.Code != 0 {
		x.fail("failed", "status %d without any fault: %s", r.Code, short(r.Stderr, 600))
	}
	x.state(must != "", r.Code != 0, len(p.Faults), p.Faults[0].K, p.Faults[0].At)
}

// lspDiags asks the language server for the diagnostics of texts.
func lspDiags(x *X, texts []string) map[string][]string {
	res := map[string][]string{}
	var ops []Op
	var order []string
	for _, t := range texts {
		if _, done := res[t]; done || !utf8.ValidString(t) {
			continue
		}
		res[t] = nil
		order = append(order, t)
		u := fmt.Sprintf("file:///d%d.teal", len(order))
		ops = append(ops,
			Op{K: "ntf", J: jstr(obj{"jsonrpc": "2.0", "method": "textDocument/didOpen", "params": obj{"textDocument": obj{"uri": u, "languageId": "teal", "version": 1, "text": t}}})},
			Op{K: "req", J: jstr(obj{"jsonrpc": "2.0", "id": len(order), "method": "textDocument/diagnostic", "params": obj{"textDocument": obj{"uri": u}}})})
	}
	if len(order) == 0 {
		return res
	}
	r := session(x, "lsp", ops).alive(x, "language server")
	n := 0
	for _, b := range r.frames(x, "language server") {
		m, err := parseMsg(b)
		if err != nil || m.Method != "" {
			continue
		}
		var rep struct {
			Items []struct {
				Range struct {
					Start struct{ Line, Character int }
				}
				Severity int
				Message  string
			}
		}
		if json.Unmarshal(m.Result, &rep) != nil {
			x.fail("report", "language server: %s", short(b, 300))
		}
		l := []string{}
		for _, d := range rep.Items {
			lv := map[int]string{1: "error", 2: "warning", 3: "note", 4: "note"}[d.Severity]
			l = append(l, fmt.Sprintf("%d:%d %s %q", d.Range.Start.Line+1, d.Range.Start.Character+1, lv, d.Message))
		}
		sort.Strings(l)
		res[order[n]] = l
		n++
	}
	if n != len(order) {
		x.fail("report", "language server answered %d of %d requests", n, len(order))
	}
	return res
}

func p22Run(p *Plan, x *X) {
	makeTree(p.Ops)
	defer os.RemoveAll("tree")
	dir, path, args := scanArgs(p)
	x.Trivial = true
	files := tealFiles(path)
	for _, f := range files {
		if f.bad {
			return
		}
	}
	if _, err := os.Stat(path); err != nil {
		return
	}
	r := runTool(x, "tealsarif", dir, args, nil, nil)
	if r.Code != 0 {
		x.fail("failed", "status %d: %s", r.Code, short(r.Stderr, 600))
	}
	d := parseSarif(x, r.Stdout)
	byPath := d.results(x, files)
	var texts []string
	for _, f := range files {
		texts = append(texts, f.text)
	}
	want := lspDiags(x, texts)
	rules := map[string]string{}
	total := 0
	for _, f := range files {
		rs := byPath[f.path]
		total += len(rs)
		var got, full []string
		for _, q := range rs {
			got = append(got, q.diag)
			full = append(full, q.rule+" "+q.diag)
		}
		sort.Strings(got)
		sort.Strings(full)
		k := strings.Join(full, "\n")
		if prev, ok := rules[f.text]; ok && prev != k {
			x.fail("rules", "%q: other results than another file with the same text:\n%s\n%s", f.path, prev, k)
		}
		rules[f.text] = k
		if w, ok := want[f.text]; ok && strings.Join(w, "\n") != strings.Join(got, "\n") {
			x.fail("results", "%q: the language server reports\n%s\nthe scanner\n%s", f.path, short(strings.Join(w, "\n"), 1500), short(strings.Join(got, "\n"), 1500))
		}
	}
	x.Trivial = total == 0
	x.Probes["results_compared"] += total
	x.state(len(files), total)
	// a file alone
	if len(files) > 1 {
		f := files[p.cfg("alone")%len(files)]
		// relative to the scanner's directory: the path as an absolute one
		r := runTool(x, "tealsarif", ".", []string{"-path", f.path}, nil, nil)
		if r.Code != 0 {
			x.fail("failed", "status %d: %s", r.Code, short(r.Stderr, 600))
		}
		one := parseSarif(x, r.Stdout).results(x, []treeFile{f})
		a, b := byPath[f.path], one[f.path]
		if jstr(strs(a)) != jstr(strs(b)) {
			x.fail("context", "%q: results depend on the other files: %v alone, %v together", f.path, strs(b), strs(a))
		}
		x.probe("files_scanned_alone")
	}
}

type sarifRes struct{ rule, diag string }

func strs(l []sarifRes) []string {
	var s []string
	for _, q := range l {
		s = append(s, q.rule+" "+q.diag)
	}
	sort.Strings(s)
	return s
}

// results groups the results by file, checking their references.
func (d *sarifDoc) results(x *X, files []treeFile) map[string][]sarifRes {
	idx := d.covers(x, files)
	declared := map[string]bool{}
	for _, q := range d.Runs[0].Tool.Driver.Rules {
		if declared[q.Id] {
			x.fail("rules", "rule %q is declared twice", q.Id)
		}
		declared[q.Id] = true
	}
	res := map[string][]sarifRes{}
	for _, q := range d.Runs[0].Results {
		if !declared[q.RuleId] {
			x.fail("rules", "undeclared rule %q", q.RuleId)
		}
		if len(q.Locations) != 1 || q.Message.Text == nil {
			x.fail("results", "a result without one location and a message: %s", jstr(q))
		}
		l := q.Locations[0].PhysicalLocation
		p := uriPath(x, l.ArtifactLocation.Uri)
		i, ok := idx[p]
		if !ok {
			x.fail("results", "a result for %q, which is no artifact", p)
		}
		if l.ArtifactLocation.Index == nil || *l.ArtifactLocation.Index != i {
			x.fail("results", "a result for %q (artifact %d) carries index %s", p, i, jstr(l.ArtifactLocation.Index))
		}
		res[p] = append(res[p], sarifRes{q.RuleId, fmt.Sprintf("%d:%d %s %q", l.Region.StartLine, l.Region.StartColumn, q.Level, *q.Message.Text)})
	}
	return res
}

func p11Sarif(p *Plan, x *X) {
	makeTree(p.Ops)
	defer os.RemoveAll("tree")
	a := runTool(x, "tealsarif", ".", []string{"-path", "tree"}, nil, nil, fmt.Sprintf("VERIF_SIM_MAPSEED=%d", hash64("a", p.Seed)))
	b := runTool(x, "tealsarif", ".", []string{"-path", "tree"}, nil, nil, fmt.Sprintf("VERIF_SIM_MAPSEED=%d", hash64("b", p.Seed)))
	x.fault("fresh_process")
	x.fault("map_order_reseeded")
	if a.Code != b.Code || string(a.Stdout) != string(b.Stdout) {
		x.fail("differs", "two scans of the same tree differ (status %d, %d): %s", a.Code, b.Code, diffAt(string(a.Stdout), string(b.Stdout)))
	}
	x.state(string(a.Stdout))
	x.Trivial = len(a.Stdout) == 0
}

func init() {
	register(&Prop{
		ID: "P21", Level: "fault_enumeration",
		Rule:      "a seeded directory tree (nested directories, odd names, links, other extensions) scanned by the real main function, once without faults and once with a seeded fault (stat, open, read or directory read failing at the nth call or for one path, full disk at a seeded byte, dangling link, missing path); status, report coverage and the tree afterwards are checked; non-trivial: at least one file or a fault",
		StateRule: "hash of (number of files, readable, argument form) and (fault, position, status)",
		Quick:     24000, Thorough: 700000, Chunk: 100,
		Real: realSarif, Stub: stubSarif,
		Gen: p21Gen, Run: p21Run,
	})
	register(&Prop{
		ID: "P22", Level: "exploration",
		Rule:      "a seeded directory tree of generated programs scanned by the real main function; the results of each file are compared with the diagnostics the simulated language server gives for its text, and with those of scanning the file alone; non-trivial: at least one result",
		StateRule: "hash of (number of files, number of results)",
		Quick:     24000, Thorough: 700000, Chunk: 100,
		Real: realSarif + "; " + realLsp, Stub: stubSarif,
		Gen: func(r *Rand) *Plan {
			p := genScan(r)
			p.set("alone", r.Intn(1<<16))
			return p
		},
		Run: p22Run,
	})
}
