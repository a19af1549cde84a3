//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
)

// P32: a client that follows the adapter's references and pages through what it
// announces sees every variable and frame exactly once.

func genP32(r *Rand) *Plan {
	p := &Plan{}
	p.Text = genProgLines(r, r.Intn(3), "P32")
	if r.Bool(1, 2) {
		// deep stacks and many scratch slots
		at := 1 + r.Intn(2)
		var ls []string
		for i := 0; i < 1+r.Intn(3); i++ {
			switch r.Intn(3) {
			case 0:
				ls = append(ls, "int 2001", fmt.Sprintf("dupn %d", r.Intn(256)))
			case 1:
				for j := 0; j < 1+r.Intn(6); j++ {
					ls = append(ls, fmt.Sprintf("int %d", 3000+j), fmt.Sprintf("store %d", pick(r, []int{0, 1, 9, 10, 99, 100, 127, 128, 254, 255, r.Intn(256)})))
				}
			case 2:
				for j := 0; j < r.Intn(30); j++ {
					ls = append(ls, fmt.Sprintf("int %d", 4000+j))
				}
			}
		}
		if at > len(p.Text) {
			at = len(p.Text)
		}
		p.Text = append(p.Text[:at:at], append(ls, p.Text[at:]...)...)
		p.Text[0] = "#pragma version 8"
	}
	if r.Bool(1, 4) {
		// calls within calls
		ls := []string{"#pragma version 8", "callsub rec1", "rec1:", "int 1", "callsub rec2", "retsub", "rec2:", "callsub rec1", "retsub"}
		p.Text = append(ls, p.Text[min(1, len(p.Text)):]...)
	}
	for i := 0; i < 3+r.Intn(10); i++ {
		switch k := r.Intn(10); {
		case k < 5:
			p.Ops = append(p.Ops, Op{K: "next", A: []int{r.Intn(1 << 16), 1 + r.Intn(12)}})
		case k == 5:
			p.Ops = append(p.Ops, Op{K: "cont", A: []int{r.Intn(1 << 16)}})
		case k == 6:
			p.Ops = append(p.Ops, Op{K: "frames", A: []int{r.Intn(1 << 16), 1 + r.Intn(5), r.Intn(1 << 16)}})
		default:
			size := 1 + r.Intn(12)
			if r.Bool(1, 4) {
				size = pick(r, []int{50, 100, 128, 255, 256, 257, 1000})
			}
			p.Ops = append(p.Ops, Op{K: "page", A: []int{r.Intn(1 << 16), r.Intn(1 << 16), size, r.Intn(1 << 16)}})
		}
	}
	p.Ops = append(p.Ops, Op{K: "page", A: []int{r.Intn(1 << 16), r.Intn(1 << 16), 1 + r.Intn(20), r.Intn(1 << 16)}})
	return p
}

type variable struct {
	Name  string `json:"name"`
	Value string `json:"value"`
}

type pager struct {
	x *X
	d *dbgClient
}

func (g *pager) threads() []int {
	var ts struct {
		Threads []struct {
			Id int `json:"id"`
		} `json:"threads"`
	}
	g.d.one("threads", nil, &ts)
	var out []int
	for _, t := range ts.Threads {
		out = append(out, t.Id)
	}
	return out
}

func (g *pager) variables(a obj) []variable {
	var b struct {
		Variables []variable `json:"variables"`
	}
	g.d.one("variables", a, &b)
	return b.Variables
}

func (g *pager) page(a []int) {
	x := g.x
	ts := g.threads()
	if len(ts) == 0 {
		return
	}
	t := ts[a[0]%len(ts)]
	var st struct {
		StackFrames []struct {
			Id int `json:"id"`
		} `json:"stackFrames"`
	}
	g.d.one("stackTrace", obj{"threadId": t}, &st)
	if len(st.StackFrames) == 0 {
		x.fail("frames", "thread %d has no frames", t)
	}
	var sc struct {
		Scopes []struct {
			Name    string `json:"name"`
			Ref     int    `json:"variablesReference"`
			Indexed *int   `json:"indexedVariables"`
		} `json:"scopes"`
	}
	g.d.one("scopes", obj{"frameId": st.StackFrames[a[0]/7%len(st.StackFrames)].Id}, &sc)
	if len(sc.Scopes) == 0 {
		x.fail("scopes", "thread %d has no scopes", t)
	}
	refs := map[int]bool{}
	for _, s := range sc.Scopes {
		if refs[s.Ref] || s.Ref <= 0 {
			x.fail("scopes", "reference %d of scope %s is not its own: %v", s.Ref, s.Name, sc)
		}
		refs[s.Ref] = true
	}
	s := sc.Scopes[a[1]%len(sc.Scopes)]
	all := g.variables(obj{"variablesReference": s.Ref})
	seen := map[string]bool{}
	for _, v := range all {
		if seen[v.Name] {
			x.fail("page", "%s of thread %d shows %q twice", s.Name, t, v.Name)
		}
		seen[v.Name] = true
	}
	if s.Indexed == nil {
		return
	}
	n := *s.Indexed
	if len(all) > n || (s.Name == "Stack" || s.Name == "Trace") && len(all) != n {
		x.fail("page", "%s of thread %d is announced with %d variables and has %d", s.Name, t, n, len(all))
	}
	size := a[2]
	k := (n + size - 1) / size
	pages := make([][]variable, k)
	from := 0
	if k > 0 {
		from = a[3] % k
	}
	for i := 0; i < k; i++ { // starting anywhere
		j := (from + i) % k
		pages[j] = g.variables(obj{"variablesReference": s.Ref, "start": j * size, "count": size})
		if len(pages[j]) > size {
			x.fail("page", "%d variables of %s of thread %d asked for from %d on, %d shown", size, s.Name, t, j*size, len(pages[j]))
		}
	}
	var got []variable
	for _, p := range pages {
		got = append(got, p...)
	}
	if len(got) != len(all) || len(all) > 0 && !reflect.DeepEqual(got, all) {
		x.fail("page", "%s of thread %d in pages of %d: %v, at once: %v", s.Name, t, size, short(jstr(got), 600), short(jstr(all), 600))
	}
	if more := g.variables(obj{"variablesReference": s.Ref, "start": n, "count": size}); len(more) > 0 {
		x.fail("page", "%s of thread %d shows %v behind its %d variables", s.Name, t, more, n)
	}
	x.Trivial = x.Trivial && len(all) == 0
	x.probe("scopes_paged")
	x.state(s.Name, len(all) == 0, min(k, 20), size > n, len(ts))
}

type stackFrame struct {
	Id   int    `json:"id"`
	Name string `json:"name"`
	Line int    `json:"line"`
}

// frames asks for a thread's stack at once and in pages.
func (g *pager) frames(a []int) {
	x := g.x
	ts := g.threads()
	if len(ts) == 0 {
		return
	}
	t := ts[a[0]%len(ts)]
	get := func(o obj) ([]stackFrame, int) {
		var st struct {
			StackFrames []stackFrame `json:"stackFrames"`
			Total       *int         `json:"totalFrames"`
		}
		o["threadId"] = t
		g.d.one("stackTrace", o, &st)
		if st.Total == nil {
			return st.StackFrames, -1
		}
		return st.StackFrames, *st.Total
	}
	all, total := get(obj{})
	if len(all) == 0 || total >= 0 && total != len(all) {
		x.fail("frames", "thread %d is announced with %d frames and has %d", t, total, len(all))
	}
	if zero, _ := get(obj{"startFrame": 0, "levels": 0}); !reflect.DeepEqual(zero, all) {
		x.fail("frames", "thread %d with all levels asked for: %s, at once: %s", t, jstr(zero), jstr(all))
	}
	size := a[1]
	k := (len(all) + size - 1) / size
	from := a[2] % k
	pages := make([][]stackFrame, k)
	for i := 0; i < k; i++ {
		j := (from + i) % k
		var n int
		pages[j], n = get(obj{"startFrame": j * size, "levels": size})
		if len(pages[j]) > size {
			x.fail("frames", "%d frames of thread %d asked for from %d on, %d shown", size, t, j*size, len(pages[j]))
		}
		if n >= 0 && n < total {
			x.fail("frames", "thread %d has %d frames, and a page of them says %d", t, total, n)
		}
	}
	var got []stackFrame
	for _, p := range pages {
		got = append(got, p...)
	}
	if !reflect.DeepEqual(got, all) {
		x.fail("frames", "frames of thread %d in pages of %d: %s, at once: %s", t, size, short(jstr(got), 600), short(jstr(all), 600))
	}
	if more, _ := get(obj{"startFrame": len(all), "levels": size}); len(more) > 0 {
		x.fail("frames", "thread %d shows %s behind its %d frames", t, jstr(more), len(all))
	}
	if rest, _ := get(obj{"startFrame": from}); !reflect.DeepEqual(rest, all[from:]) {
		x.fail("frames", "frames of thread %d from %d on: %s, at once: %s", t, from, short(jstr(rest), 600), short(jstr(all), 600))
	}
	x.probe("stacks_paged")
	x.state("frames", min(len(all), 20), min(k, 10))
}

func runP32(p *Plan, x *X) {
	resetFiles()
	x.Trivial = true
	if err := os.WriteFile("p0.teal", []byte(progText(p)), 0o644); err != nil {
		panic(err)
	}
	dialog(x, "dbg", func(call func([]byte) []string) {
		d := &dbgClient{x: x, call: call, lz: 1}
		g := &pager{x, d}
		d.do(d.msg("initialize", obj{}))
		d.do(d.msg("launch", obj{"program": "p0.teal"}))
		for _, o := range p.Ops {
			ts := g.threads()
			if len(ts) == 0 || len(ts) > 30 {
				return
			}
			t := ts[o.A[0]%len(ts)]
			switch o.K {
			case "next", "cont":
				cmd := "next"
				n := 1
				if o.K == "cont" {
					cmd = "continue"
				} else {
					n = o.A[1]
				}
				for i := 0; i < n; i++ {
					for _, m := range d.do(d.msg(cmd, obj{"threadId": t})) {
						var b stoppedBody
						json.Unmarshal(m.Body, &b)
						if m.Event == "stopped" && b.Reason == "exception" {
							i = n
						}
					}
				}
			case "page":
				g.page(o.A)
			case "frames":
				g.frames(o.A)
			}
		}
	})
}

func init() {
	register(&Prop{
		ID: "P32", Level: "exploration",
		Rule:      "a generated program with deep stacks and many scratch slots, debugged by a client that steps seeded threads and then follows threads, frames, scopes and references, paging through a seeded scope with a seeded page size from a seeded page on; put together, the pages must be what the scope shows at once, and the same for a thread's frames; non-trivial: at least one scope with variables paged",
		StateRule: "hash of (scope, empty, number of pages, one page, number of threads)",
		Quick:     40000, Thorough: 1200000, Chunk: 100,
		Real: realDbg, Stub: stubDbg,
		Gen: genP32, Run: runP32,
	})
}
