//go:build go1.22

package main

import (
	"fmt"
	"strings"
)

// Ins is one line of a structured program.
type Ins struct {
	Op   string // "" for blank or comment lines, "label" for labels
	Text string // source text
	Arg  string
	Args []string
	Imm  []string // immediates of the other instructions
	N    int
	M    int
}

// Prog is a program with its lines in decoded form.
type Prog struct {
	text  string
	lines []Ins
	ver   int
}

type progGen struct {
	r      *Rand
	ls     []Ins
	nlabel int
	cnt    int
	pend   []string // labels to be placed later
	subs   []string
	eol    string
	depth  int // values on the stack that may be consumed in the current body
	slots  map[int]bool
}

func (g *progGen) ins(op, text string) *Ins {
	g.ls = append(g.ls, Ins{Op: op, Text: text})
	return &g.ls[len(g.ls)-1]
}

func (g *progGen) pushInt() {
	g.cnt++
	i := g.ins("int", fmt.Sprintf("int %d", 1000+g.cnt))
	i.N = 1000 + g.cnt
	g.depth++
}

func (g *progGen) newLabel() string {
	g.nlabel++
	return fmt.Sprintf("l%d", g.nlabel)
}

func (g *progGen) label(n string) {
	i := g.ins("label", n+":")
	i.Arg = n
}

func (g *progGen) noise() {
	switch g.r.Intn(4) {
	case 0:
		g.ins("", "")
	case 1:
		g.ins("", "// comment")
	case 2:
		g.label(g.newLabel())
	}
}

func (g *progGen) plain() {
	r := g.r
	switch r.Intn(12) {
	case 0, 1, 2:
		g.pushInt()
	case 3:
		if g.depth > 0 {
			g.ins("pop", "pop")
			g.depth--
		} else {
			g.pushInt()
		}
	case 4:
		if g.depth == 0 {
			g.pushInt()
		}
		g.ins("dup", "dup")
		g.depth++
	case 5, 6:
		if g.depth == 0 {
			g.pushInt()
		}
		s := r.Intn(4)
		i := g.ins("store", fmt.Sprintf("store %d", s))
		i.N = s
		g.depth--
		g.slots[s] = true
	case 7:
		s := r.Intn(4)
		if !g.slots[s] {
			g.pushInt()
			i := g.ins("store", fmt.Sprintf("store %d", s))
			i.N = s
			g.depth--
			g.slots[s] = true
		}
		i := g.ins("load", fmt.Sprintf("load %d", s))
		i.N = s
		g.depth++
	case 8:
		for g.depth < 2 {
			g.pushInt()
		}
		g.ins("+", "+")
		g.depth--
	case 9:
		for g.depth < 2 {
			g.pushInt()
		}
		g.ins("swap", "swap")
	case 10:
		g.ins("byte", "byte 0x6162")
		h := pick(r, []string{"sha256", "keccak256", "sha512_256", "sha3_256"})
		g.ins(h, h)
		g.ins("pop", "pop")
	case 11:
		g.noise()
	}
}

func (g *progGen) cond(op string, n int, targets ...string) {
	if op == "match" {
		n = len(targets) + 1
	}
	for i := 0; i < n; i++ {
		g.pushInt()
	}
	g.depth -= n
	i := g.ins(op, op+" "+strings.Join(targets, " "))
	i.Args = targets
}

// body emits a block that leaves the number of consumable values at zero.
func (g *progGen) body(size int, nest int, callable []string, sub bool) {
	r := g.r
	base := g.depth
	g.depth = 0
	for i := 0; i < size; i++ {
		switch r.Intn(14) {
		case 0, 1:
			if nest <= 0 {
				g.plain()
				continue
			}
			// if
			l := g.newLabel()
			d := g.depth
			g.cond(pick(r, []string{"bz", "bnz"}), 1, l)
			g.body(1+r.Intn(3), nest-1, callable, sub)
			g.noise()
			g.label(l)
			g.depth = d
		case 2:
			if nest <= 0 {
				g.plain()
				continue
			}
			// switch or match over 1..3 targets
			n := 1 + r.Intn(3)
			var ts []string
			for k := 0; k < n; k++ {
				ts = append(ts, g.newLabel())
			}
			if r.Bool(1, 6) {
				ts = append(ts, ts[0])
			}
			end := g.newLabel()
			d := g.depth
			if r.Bool(1, 2) {
				g.cond("switch", 1, ts...)
			} else {
				g.cond("match", 0, ts...)
			}
			seen := map[string]bool{}
			for _, t := range ts {
				if seen[t] {
					continue
				}
				seen[t] = true
				g.body(r.Intn(3), nest-1, callable, sub)
				if r.Bool(2, 3) {
					i := g.ins("b", "b "+end)
					i.Arg = end
				}
				g.label(t)
				g.depth = d
			}
			g.body(r.Intn(3), nest-1, callable, sub)
			g.label(end)
			g.depth = d
		case 3:
			if nest <= 0 {
				g.plain()
				continue
			}
			// loop, bounded by the budget only
			l := g.newLabel()
			d := g.depth
			g.label(l)
			g.body(1+r.Intn(3), nest-1, callable, sub)
			// expensive body so that the number of paths stays small
			for k := 0; k < 1+r.Intn(2); k++ {
				g.ins("byte", "byte 0x6162")
				h := pick(r, []string{"keccak256", "sha3_256"})
				g.ins(h, h)
				g.ins("pop", "pop")
			}
			g.cond(pick(r, []string{"bz", "bnz"}), 1, l)
			g.depth = d
		case 4, 5, 6:
			if len(callable) == 0 {
				g.plain()
				continue
			}
			s := pick(r, callable)
			i := g.ins("callsub", "callsub "+s)
			i.Arg = s
			if r.Bool(1, 3) {
				g.noise()
			}
		case 7:
			// a jump forward over dead code
			l := g.newLabel()
			i := g.ins("b", "b "+l)
			i.Arg = l
			d := g.depth
			if r.Bool(1, 2) {
				g.pushInt()
			}
			g.label(l)
			g.depth = d
		case 8:
			if r.Bool(1, 6) && sub {
				g.ins("retsub", "retsub")
				g.depth = 0
				return
			}
			g.plain()
		default:
			g.plain()
		}
	}
	if r.Bool(1, 2) {
		for g.depth > 0 {
			g.ins("pop", "pop")
			g.depth--
		}
	}
	g.depth = base
}

// genStructured makes a program without stack errors (up to those of values
// left behind), for which the reference model below is complete.
// subs: number of subroutines.
func genStructured(r *Rand, nsubs int) *Prog {
	g := &progGen{r: r, eol: "\n", slots: map[int]bool{}}
	if r.Bool(1, 6) {
		g.eol = "\r\n"
	}
	ver := 8 + r.Intn(3)
	if r.Bool(1, 10) {
		g.ins("", "// header")
	} else {
		g.ins("pragma", fmt.Sprintf("#pragma version %d", ver))
	}
	var subs []string
	protos := map[string][2]int{}
	for i := 0; i < nsubs; i++ {
		n := fmt.Sprintf("sub%d", i)
		subs = append(subs, n)
		if r.Bool(1, 2) {
			protos[n] = [2]int{r.Intn(3), r.Intn(3)}
		}
	}
	nest := 1 + r.Intn(2)
	toEnd := false
	g.bodyCalls(3+r.Intn(8), nest, subs, protos)
	switch r.Intn(5) {
	case 0:
		g.pushInt()
		g.ins("return", "return")
	case 1:
		g.ins("err", "err")
	case 2:
		if nsubs > 0 {
			i := g.ins("b", "b end")
			i.Arg = "end"
			toEnd = true
		}
	default:
		if nsubs > 0 && r.Bool(14, 15) {
			g.pushInt()
			g.ins("return", "return")
		}
	}
	for i, s := range subs {
		g.label(s)
		g.depth = 0
		var callable []string
		if r.Bool(1, 8) {
			callable = subs[i:] // recursion, ended by the budget
		} else {
			callable = subs[i+1:]
		}
		nestSub := r.Intn(2)
		if pr, ok := protos[s]; ok {
			if r.Bool(1, 3) {
				g.noise()
			}
			in := g.ins("proto", fmt.Sprintf("proto %d %d", pr[0], pr[1]))
			in.N, in.M = pr[0], pr[1]
			if pr[0] > 0 && r.Bool(1, 2) {
				k := -(1 + r.Intn(pr[0]))
				in := g.ins("frame_dig", fmt.Sprintf("frame_dig %d", k))
				in.N = k
			}
			g.bodyCallsIn(1+r.Intn(3), nestSub, callable, protos, true)
			if pr[0] > 0 && r.Bool(1, 3) {
				k := -(1 + r.Intn(pr[0]))
				g.pushInt()
				in := g.ins("frame_bury", fmt.Sprintf("frame_bury %d", k))
				in.N = k
			}
			for k := 0; k < pr[1]; k++ {
				g.pushInt()
			}
		} else {
			g.bodyCallsIn(1+r.Intn(3), nestSub, callable, protos, true)
		}
		g.ins("retsub", "retsub")
		if r.Bool(1, 3) {
			g.noise()
		}
	}
	if toEnd {
		g.label("end")
		if r.Bool(1, 2) {
			g.pushInt()
		}
	}
	p := &Prog{lines: g.ls, ver: ver}
	var b strings.Builder
	for i, l := range g.ls {
		b.WriteString(l.Text)
		if i < len(g.ls)-1 || r.Bool(1, 2) {
			b.WriteString(g.eol)
		}
	}
	p.text = b.String()
	return p
}

func (g *progGen) bodyCalls(size, nest int, subs []string, protos map[string][2]int) {
	g.bodyCallsIn(size, nest, subs, protos, false)
}

// bodyCallsIn mixes plain blocks with calls that pass their arguments.
func (g *progGen) bodyCallsIn(size, nest int, subs []string, protos map[string][2]int, sub bool) {
	var free, withArgs []string
	for _, s := range subs {
		if _, ok := protos[s]; ok {
			withArgs = append(withArgs, s)
		} else {
			free = append(free, s)
		}
	}
	n := 1 + g.r.Intn(2)
	for i := 0; i < n; i++ {
		g.body(1+size/n, nest, free, sub && len(protos) == 0)
		if len(withArgs) > 0 && g.r.Bool(2, 3) {
			s := pick(g.r, withArgs)
			for k := 0; k < protos[s][0]; k++ {
				g.pushInt()
			}
			in := g.ins("callsub", "callsub "+s)
			in.Arg = s
			if g.r.Bool(1, 2) {
				for k := 0; k < protos[s][1]; k++ {
					g.ins("pop", "pop")
				}
			}
			g.depth = 0
		}
	}
}

// parseProg decodes a program text made by genStructured, possibly shortened
// by the minimiser. ok is false if a line is outside the modelled subset.
func parseProg(text string) (p *Prog, ok bool) {
	p = &Prog{text: text}
	for _, ln := range splitLines(text) {
		t := strings.TrimSpace(ln)
		f := strings.Fields(t)
		in := Ins{Text: t}
		switch {
		case t == "" || strings.HasPrefix(t, "//"):
		case len(f) == 1 && strings.HasSuffix(t, ":"):
			in.Op, in.Arg = "label", strings.TrimSuffix(t, ":")
		case f[0] == "#pragma":
			if len(f) != 3 {
				return p, false
			}
			in.Op = "pragma"
			fmt.Sscan(f[2], &p.ver)
		default:
			in.Op = f[0]
			switch f[0] {
			case "int", "store", "load", "frame_dig", "frame_bury":
				if len(f) != 2 {
					return p, false
				}
				fmt.Sscan(f[1], &in.N)
			case "proto":
				if len(f) != 3 {
					return p, false
				}
				fmt.Sscan(f[1], &in.N)
				fmt.Sscan(f[2], &in.M)
			case "b", "callsub":
				if len(f) != 2 {
					return p, false
				}
				in.Arg = f[1]
			case "bz", "bnz", "switch", "match":
				in.Args = f[1:]
			case "byte":
				if len(f) != 2 || !strings.HasPrefix(f[1], "0x") || len(f[1])%2 != 0 || len(f[1]) < 6 {
					return p, false
				}
				in.Imm = f[1:]
			case "ed25519verify", "divmodw", "pop", "dup", "+", "swap", "sha256", "keccak256", "sha512_256", "sha3_256", "retsub", "return", "err":
			default:
				if _, ok := avmOps[f[0]]; !ok {
					return p, false
				}
				in.Imm = f[1:]
			}
		}
		p.lines = append(p.lines, in)
	}
	return p, true
}
