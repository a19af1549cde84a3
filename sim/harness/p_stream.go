//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"strings"
	"time"

	"github.com/dragmz/teal/verifsim/simrt"
)

const realServers = "lsp/ and dbg/ servers with the analyser, linter and VM (instrumented copies of the repository's code)"
const stubIO = "client, transport, debug-log sink, clock, map order: simulated; program files: real files in a scratch directory"

// genSession makes a session for one of the two servers.
func genSession(r *Rand, kind string, n int) []Op {
	if kind == "dbg" {
		return genDap(r, n).ops
	}
	return genLsp(r, n).ops
}

func pickKind(r *Rand) string {
	if r.Bool(1, 3) {
		return "dbg"
	}
	return "lsp"
}

// resize pads some bodies to sizes around buffer sizes, or makes documents big.
func resize(r *Rand, ops []Op) {
	for k := r.Intn(3); k > 0 && len(ops) > 0; k-- {
		i := r.Intn(len(ops))
		if isFileOp(ops[i]) || ops[i].B != nil {
			continue
		}
		n := pick(r, bufferSizes) + r.Intn(5) - 2
		if r.Bool(1, 2) {
			n -= len("Content-Length: 4096\r\n\r\n")
		}
		if r.Bool(1, 3) {
			n = r.Intn(70000)
		}
		if r.Bool(1, 800) {
			n = pick(r, []int{1 << 20, 4 << 20, 10 << 20, 16 << 20}) + r.Intn(100)
		}
		ops[i].P = n
	}
}

// genCuts makes read sizes for a stream of the given frames.
func genCuts(r *Rand, ops []Op) []int {
	var bounds []int
	total := 0
	for _, o := range ops {
		w := o.wire()
		if len(w) == 0 {
			continue
		}
		// interesting places: around header end and frame end
		if i := bytes.Index(w, []byte("\r\n\r\n")); i >= 0 {
			bounds = append(bounds, total+i, total+i+1, total+i+2, total+i+3, total+i+4, total+i+5)
		}
		for d := -2; d <= 2; d++ {
			bounds = append(bounds, total+len(w)+d)
		}
		total += len(w)
	}
	for _, b := range bufferSizes {
		for m := b; m < total && m < 20*b; m += b {
			bounds = append(bounds, m-1, m, m+1)
		}
	}
	at := map[int]bool{}
	n := r.Intn(40)
	for i := 0; i < n; i++ {
		if len(bounds) > 0 && r.Bool(2, 3) {
			at[pick(r, bounds)] = true
		} else {
			at[r.Intn(total+1)] = true
		}
	}
	var cuts []int
	last := 0
	for p := 1; p < total; p++ {
		if at[p] {
			cuts = append(cuts, p-last)
			last = p
			for r.Bool(1, 10) {
				cuts = append(cuts, 0) // empty read
			}
		}
	}
	return cuts
}

func cutter(cuts []int) func(int) int {
	i := 0
	left := 0
	return func(n int) int {
		if i >= len(cuts) && left == 0 {
			return n
		}
		if left == 0 {
			left = cuts[i]
			i++
			if left == 0 {
				return 0
			}
		}
		k := left
		if k > n {
			k = n
		}
		left -= k
		return k
	}
}

func init() {
	register(&Prop{
		ID: "P01", Level: "exploration",
		Rule:      "a session of generated messages for one server (bodies padded to sizes around buffer sizes), delivered as one stream cut into seeded reads with seeded header styles, compared with the same messages, without padding, delivered one frame per read; non-trivial: at least one split or coalesced read and some output",
		StateRule: "hash of (server, frame index, offset class within the frame) of a read boundary",
		Quick:     60000, Thorough: 1800000, Chunk: 150,
		Real: realServers, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			p := &Plan{Mode: pickKind(r)}
			p.Ops = genSession(r, p.Mode, 1+r.Intn(12))
			resize(r, p.Ops)
			switch r.Intn(4) {
			case 0: // header styles
				for i := range p.Ops {
					if r.Bool(1, 2) {
						p.Ops[i].H = pick(r, headerStyles)
					}
				}
			}
			switch r.Intn(6) {
			case 0:
				p.set("onebyte", 1)
			case 1: // everything in one read
			default:
				p.Cuts = genCuts(r, p.Ops)
			}
			p.set("dataeof", r.Intn(2))
			return p
		},
		Run: func(p *Plan, x *X) {
			ms := prepare(x, p.Ops)
			plain := make([]Op, len(ms))
			for i, o := range ms {
				o.H = ""
				o.P = 0 // white space around a message does not count
				plain[i] = o
			}
			base := runServer(x, p.Mode, feed(x, plain), nil).alive(x, "one frame per read")
			c := newConn(x, wire(ms))
			c.cuts = cutter(p.Cuts)
			if p.cfg("onebyte") == 1 && len(c.buf) < 1<<20 {
				c.cuts = func(int) int { return 1 }
			}
			c.dataEOF = p.cfg("dataeof") == 1
			for _, o := range ms {
				if o.H != "" {
					x.fault("header_" + o.H)
				}
			}
			res := runServer(x, p.Mode, c, nil).alive(x, "cut stream")
			if base.Out != res.Out {
				x.fail("differs", "the output depends on how the input is delivered: %s", diffAt(base.Out, res.Out))
			}
			if base.Status != res.Status {
				x.fail("status", "status %d when cut, %d otherwise", res.Status, base.Status)
			}
			off := 0
			for _, n := range p.Cuts {
				off += n
				pos := off
				for i, o := range ms {
					l := len(o.wire())
					if pos < l {
						x.state(p.Mode, i, pos < 20, pos, l-pos < 5)
						break
					}
					pos -= l
				}
			}
			x.Trivial = base.Out == "" || len(ms) == 0
		},
	})

	register(&Prop{
		ID: "P05", Level: "fault_enumeration",
		Rule:      "a session for one server, run in lock-step (a client that waits for every reply), pipelined, and with a write failure at a seeded output byte (error, short write, one-off error, one-off short write); non-trivial: the session produces output",
		StateRule: "hash of (server, failure kind, frame index, position class within the frame) of the failing write",
		Quick:     60000, Thorough: 1800000, Chunk: 150,
		Real: realServers, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			p := &Plan{Mode: pickKind(r)}
			p.Ops = genSession(r, p.Mode, 1+r.Intn(10))
			if p.Mode == "lsp" {
				g := newLspGen(r)
				for i := 0; i < r.Intn(3); i++ {
					g.bad()
				}
				p.Ops = append(p.Ops, g.ops...)
				if r.Bool(1, 4) {
					p.Ops = append(p.Ops, Op{K: "req", J: `{"jsonrpc":"2.0","id":"sd","method":"shutdown"}`})
				}
				if r.Bool(1, 4) {
					p.Ops = append(p.Ops, Op{K: "ntf", J: `{"jsonrpc":"2.0","method":"exit"}`})
				}
			}
			resize(r, p.Ops)
			p.Faults = append(p.Faults, Fault{K: pick(r, []string{"error", "short", "once", "shortonce"}), At: r.Intn(1 << 30)})
			p.set("trunc", r.Intn(1<<20))
			return p
		},
		Run: runP05,
	})
}

func runP05(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	c := feed(x, ms)
	// complete frames at every wait
	base := runServer(x, p.Mode, c, nil).alive(x, "lock-step")
	base.frames(x, "lock-step")
	for i, n := range c.outs {
		_, rest, err := parseFrames(base.Out[:n])
		if err != nil || rest != "" {
			x.fail("partial", "waiting for message %d with an incomplete frame written: %q", i, short(rest, 200))
		}
	}
	// replies are there before the next message is awaited
	for i, o := range ms {
		if i+1 >= len(c.outs) {
			break
		}
		upto := base.Out[:c.outs[i+1]]
		if o.K != "req" {
			continue
		}
		before := base.Out[:c.outs[i]]
		var id struct {
			ID     json.RawMessage `json:"id"`
			Seq    *int            `json:"seq"`
			Method string          `json:"method"`
		}
		json.Unmarshal([]byte(o.J), &id)
		if id.Method == "exit" {
			continue
		}
		if !answered(p.Mode, upto[len(before):]) {
			x.fail("late", "no reply to message %d before the next message is awaited: %s", i, short(o.J, 300))
		}
	}
	// all events caused by a message are out before the next wait
	if p.Mode == "dbg" {
		for i := 1; i < len(c.outs); i++ {
			fs, _, _ := parseFrames(base.Out[c.outs[i-1]:c.outs[i]])
			for k, f := range fs {
				m, err := parseMsg(f)
				if err != nil {
					continue
				}
				if k == 0 && string(m.keys["type"]) == `"event"` {
					x.fail("late", "an event comes before the response to message %d: %s", i, short(f, 200))
				}
			}
		}
	}
	// a session that ends after message k gives the same output up to there
	if len(ms) > 0 {
		k := 1 + p.cfg("trunc")%len(ms)
		if k < len(c.outs) {
			part := runServer(x, p.Mode, feed(x, ms[:k]), nil).alive(x, "truncated")
			if part.Out != base.Out[:c.outs[k]] {
				x.fail("late", "output after %d messages differs from the output of a session of only these: %s", k, diffAt(part.Out, base.Out[:c.outs[k]]))
			}
		}
	}
	// pipelined
	pipe := runServer(x, p.Mode, newConn(x, wire(ms)), nil).alive(x, "pipelined")
	if pipe.Out != base.Out {
		x.fail("differs", "pipelined output differs: %s", diffAt(base.Out, pipe.Out))
	}
	x.Trivial = base.Out == ""
	for _, f := range p.Faults {
		if base.Out == "" {
			break
		}
		fc := feed(x, ms)
		fc.failAt = f.At % len(base.Out)
		fc.failKind = f.K
		res := runServer(x, p.Mode, fc, nil).alive(x, "write failure")
		want := base.Out[:fc.failAt]
		ok := res.Out == want
		if f.K == "short" || f.K == "shortonce" {
			// a short write without an error may be continued, but nothing may be lost in between
			ok = strings.HasPrefix(res.Out, want) && strings.HasPrefix(base.Out, res.Out)
		}
		if !ok {
			x.fail("torn", "after a write failure (%s) at byte %d of %d the client received: %s", f.K, fc.failAt, len(base.Out), diffAt(want, res.Out))
		}
		if fc.sent != c.sent || len(fc.outs) != len(c.outs) {
			x.fail("stopped", "after a write failure the server read %d messages instead of %d", fc.sent+1, c.sent+1)
		}
		if res.Status != base.Status {
			x.fail("status", "status %d after a write failure, %d otherwise", res.Status, base.Status)
		}
		fs, rest, _ := parseFrames(want)
		x.state(p.Mode, f.K, len(fs), len(rest) == 0, len(rest) < 22, len(rest) < 30)
	}
}

// answered: the output contains a response.
func answered(kind, out string) bool {
	fs, _, _ := parseFrames(out)
	for _, f := range fs {
		m, err := parseMsg(f)
		if err != nil {
			continue
		}
		if kind == "dbg" {
			if string(m.keys["type"]) == `"response"` {
				return true
			}
		} else if m.Method == "" {
			return true
		}
	}
	return false
}

var endErrs = map[string]error{
	"eof": nil, "error": errInjected, "unexpected": io.ErrUnexpectedEOF, "closed": io.ErrClosedPipe,
	"wrapped": errors.Join(errors.New("read tcp: use of closed network connection"), errInjected),
}

func init() {
	register(&Prop{
		ID: "P04", Level: "fault_enumeration",
		Rule:      "a session with seeded placements of shutdown and exit, cut off at a seeded byte by end-of-stream or a persistent read error (with or without data in the failing read), compared with the session of only the completely received messages; non-trivial: the cut falls inside the stream or an exit is sent",
		StateRule: "hash of (server, end kind, frame index, position class) of the cut, and of (shutdown seen, exit seen)",
		Quick:     120000, Thorough: 3600000, Chunk: 150,
		Real: realServers, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			p := &Plan{Mode: pickKind(r)}
			p.Ops = genSession(r, p.Mode, 1+r.Intn(10))
			if p.Mode == "lsp" {
				ins := func(o Op) {
					i := r.Intn(len(p.Ops) + 1)
					p.Ops = append(p.Ops[:i:i], append([]Op{o}, p.Ops[i:]...)...)
				}
				if r.Bool(2, 3) {
					ins(Op{K: "req", J: `{"jsonrpc":"2.0","id":"sd","method":"shutdown"}`})
				}
				if r.Bool(1, 8) {
					ins(Op{K: "req", J: `{"jsonrpc":"2.0","id":"sd2","method":"shutdown","params":null}`})
				}
				if r.Bool(1, 2) {
					ins(Op{K: "ntf", J: `{"jsonrpc":"2.0","method":"exit"}`})
				}
				if r.Bool(1, 6) {
					ins(Op{K: "bad", J: `{"jsonrpc":"2.0","id":"badx","method":"textDocument/nothing"}`})
				}
			}
			resize(r, p.Ops)
			if r.Bool(1, 12) {
				lastMsg := `{"jsonrpc":"2.0","id":"inner","method":"initialize","params":{}}`
				if p.Mode == "dbg" {
					lastMsg = `{"seq":77,"type":"request","command":"initialize","arguments":{}}`
				}
				p.Ops = append(p.Ops, Op{K: "torn", B: []byte("Content-Length: " + pick(r, []string{"100000", "1000000000", "4611686018427387904", "9223372036854775807"}) + "\r\n\r\n" + pick(r, []string{"{\"jsonrpc\":\"2.0\"", "", string(frame(lastMsg, "")) + string(frame(lastMsg, ""))}))})
			}
			if r.Bool(1, 12) {
				p.Ops = append(p.Ops, Op{K: "torn", B: []byte(pick(r, []string{"Content-Length: 1\r", "C", "Content-Length: 1\r\n", "\r", "Content-Length: 5\r\nX: y"}))})
			}
			p.Faults = []Fault{{K: pick(r, []string{"eof", "eof", "error", "unexpected", "closed", "wrapped"}), At: r.Intn(1 << 30)}}
			if r.Bool(1, 3) {
				// near a frame boundary
				p.Faults[0].N = 1 + r.Intn(len(p.Ops))
				p.set("delta", r.Intn(9)-4)
			}
			p.set("dataeof", r.Intn(2))
			p.set("lock", r.Intn(2))
			if r.Bool(1, 3) {
				p.Faults = append(p.Faults, Fault{K: pick(r, []string{"w-error", "w-short", "w-once"}), At: r.Intn(1 << 30)})
			}
			return p
		},
		Run: runP04,
	})
}

func runP04(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	if len(ms) == 0 {
		x.Trivial = true
		return
	}
	w := wire(ms)
	f := Fault{K: "eof", At: len(w)}
	if len(p.Faults) > 0 {
		f = p.Faults[0]
	}
	k := f.At % (len(w) + 1)
	if f.N > 0 {
		k = 0
		for i := 0; i < f.N && i < len(ms); i++ {
			k += len(ms[i].wire())
		}
		k += p.cfg("delta")
		if k < 0 {
			k = 0
		}
		if k > len(w) {
			k = len(w)
		}
	}
	// the completely received messages
	var full []Op
	off := 0
	for _, o := range ms {
		l := len(o.wire())
		if off+l > k || o.K == "torn" {
			break
		}
		off += l
		full = append(full, o)
	}
	ref := runServer(x, p.Mode, feed(x, full), nil).alive(x, "complete messages")
	ref.frames(x, "complete messages")

	var c *Conn
	if p.cfg("lock") == 1 {
		c = feed(x, ms)
	} else {
		c = newConn(x, w)
	}
	c.endAt = k
	c.endErr = endErrs[f.K]
	c.dataEOF = p.cfg("dataeof") == 1
	x.fault("input_" + f.K)
	res := runServer(x, p.Mode, c, nil).alive(x, "cut session")
	if res.Out != ref.Out {
		x.fail("cut", "input ended (%s) at byte %d of %d after %d complete messages; output: %s", f.K, k, len(w), len(full), diffAt(ref.Out, res.Out))
	}
	if res.Status != ref.Status {
		x.fail("status", "status %d when cut, %d with the complete messages only", res.Status, ref.Status)
	}
	if c.endReads > 1000 {
		x.fail("spin", "%d reads after the end of the input", c.endReads)
	}
	if len(p.Faults) > 1 {
		// the client is gone on the output side too: the server still stops, with the same status
		wf := p.Faults[1]
		wc := newConn(x, w)
		wc.endAt, wc.endErr, wc.dataEOF = k, endErrs[f.K], c.dataEOF
		wc.failAt, wc.failKind = wf.At%(len(ref.Out)+1), strings.TrimPrefix(wf.K, "w-")
		wr := runServer(x, p.Mode, wc, nil).alive(x, "cut session with failing output")
		if wr.Status != ref.Status {
			x.fail("status", "status %d when writing fails (%s) at byte %d, %d otherwise", wr.Status, wf.K, wc.failAt, ref.Status)
		}
		if wc.endReads > 1000 {
			x.fail("spin", "%d reads after the end of the input with failing output", wc.endReads)
		}
	}
	x.state(p.Mode, f.K, len(full), k-off < 3, k-off, c.dataEOF)
	if p.Mode != "lsp" {
		return
	}
	// life cycle
	shut, exit := false, -1
	for i, o := range full {
		var m struct{ Method string }
		json.Unmarshal([]byte(o.J), &m)
		if m.Method == "shutdown" {
			shut = true
		}
		if m.Method == "exit" {
			exit = i
			break
		}
	}
	x.state("life", shut, exit >= 0)
	if exit >= 0 {
		want := 1
		if shut {
			want = 0
		}
		if ref.Status != want {
			x.fail("status", "exit with shutdown received: %v gave status %d", shut, ref.Status)
		}
		if ref.Conn.sent != exit {
			x.fail("exit", "the server read on after exit (message %d of %d)", ref.Conn.sent, exit)
		}
		before := runServer(x, p.Mode, feed(x, full[:exit]), nil).alive(x, "before exit")
		if before.Out != ref.Out {
			x.fail("exit", "messages after exit were processed: %s", diffAt(before.Out, ref.Out))
		}
	}
	// refusal after shutdown
	resp := map[string]*Msg{}
	for _, b := range ref.frames(x, "") {
		if m, err := parseMsg(b); err == nil && m.Method == "" {
			resp[jstr(m.ID)] = m
		}
	}
	shut = false
	for i, o := range full {
		if exit >= 0 && i > exit {
			break
		}
		var m struct {
			ID     any
			Method string
		}
		if json.Unmarshal([]byte(o.J), &m) != nil || m.ID == nil || o.K != "req" {
			continue
		}
		if shut {
			rm := resp[jstr(m.ID)]
			if rm == nil || !rm.has("error") || rm.has("result") {
				x.fail("refuse", "request %s after shutdown was not refused", short(o.J, 200))
			}
			x.probe("refused_after_shutdown")
		}
		if m.Method == "shutdown" {
			if rm := resp[jstr(m.ID)]; !shut && (rm == nil || rm.has("error")) {
				x.fail("refuse", "shutdown was refused")
			}
			shut = true
		}
	}
}

// logSink is the simulated debug-log file.
type logSink struct {
	x      *X
	buf    bytes.Buffer
	failAt int
	kind   string
	failed bool
}

func (l *logSink) Write(p []byte) (int, error) {
	simrt.Charge(1)
	if l.failed && l.kind != "once" && l.kind != "shortonce" {
		return 0, errInjected
	}
	if !l.failed && l.failAt >= 0 && l.buf.Len()+len(p) > l.failAt {
		n := l.failAt - l.buf.Len()
		if n < 0 {
			n = 0
		}
		l.buf.Write(p[:n])
		l.failed = true
		l.x.fault("log_" + l.kind)
		switch l.kind {
		case "short", "shortonce":
			return n, nil
		case "panic":
			return n, errInjected
		}
		return n, errInjected
	}
	return l.buf.Write(p)
}

func init() {
	register(&Prop{
		ID: "P12", Level: "fault_enumeration",
		Rule:      "a session with good and bad messages, run without a log, with a working log, and with a log whose writer fails at a seeded byte (error, short write, one-off); non-trivial: the session produces output",
		StateRule: "hash of (server, failure kind, position class of the failure)",
		Quick:     70000, Thorough: 2100000, Chunk: 150,
		Real: realServers, Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			p := &Plan{Mode: pickKind(r)}
			if p.Mode == "dbg" {
				g := genDap(r, 1+r.Intn(8))
				for i := r.Intn(4); i > 0; i-- {
					if r.Bool(1, 2) {
						g.bad()
					} else {
						g.step()
					}
				}
				p.Ops = g.ops
			} else {
				g := genLsp(r, 1+r.Intn(8))
				for i := r.Intn(4); i > 0; i-- {
					if r.Bool(1, 2) {
						g.bad()
					} else {
						g.step()
					}
				}
				p.Ops = g.ops
				if r.Bool(1, 4) {
					p.Ops = append(p.Ops, Op{K: "ntf", J: `{"jsonrpc":"2.0","method":"exit"}`})
				}
			}
			resize(r, p.Ops)
			p.Faults = []Fault{{K: pick(r, []string{"error", "short", "once", "shortonce"}), At: r.Intn(1 << 30)}}
			return p
		},
		Run: func(p *Plan, x *X) {
			ms := prepare(x, p.Ops)
			base := runServer(x, p.Mode, feed(x, ms), nil).alive(x, "no log")
			lg := &logSink{x: x, failAt: -1}
			c := feed(x, ms)
			var at []int
			more := c.more
			c.more = func() bool { at = append(at, lg.buf.Len()); return more() }
			res := runServer(x, p.Mode, c, lg).alive(x, "working log")
			if res.Out != base.Out || res.Status != base.Status {
				x.fail("interferes", "the output changes when the log is enabled: %s", diffAt(base.Out, res.Out))
			}
			// contents, in order
			text := lg.buf.String()
			cur := 0
			find := func(what, body string, limit int) {
				i := strings.Index(text[cur:], body)
				if i < 0 || (limit >= 0 && cur+i+len(body) > limit) {
					x.fail("log", "the log does not record in order, in time and verbatim the message %s: %s", what, short(body, 300))
				}
				cur += i + len(body)
			}
			for i, o := range ms {
				if i >= c.sent+1 {
					break
				}
				limit := -1
				if i+1 < len(at) {
					limit = at[i+1]
				}
				if o.B == nil {
					find("received", padTo(o.J, o.P), limit)
				}
				hi := len(res.Out)
				if i+1 < len(c.outs) {
					hi = c.outs[i+1]
				}
				fs, _, _ := parseFrames(res.Out[c.outs[i]:hi])
				for _, f := range fs {
					find("sent", f, limit)
				}
			}
			x.Trivial = base.Out == ""
			for _, f := range p.Faults {
				if len(text) == 0 {
					break
				}
				bad := &logSink{x: x, failAt: f.At % len(text), kind: f.K}
				res := runServer(x, p.Mode, feed(x, ms), bad).alive(x, "failing log")
				if res.Out != base.Out || res.Status != base.Status {
					x.fail("interferes", "the output changes when the log fails (%s at byte %d): %s", f.K, bad.failAt, diffAt(base.Out, res.Out))
				}
				x.state(p.Mode, f.K, bad.failAt*64/len(text))
			}
		},
	})

	register(&Prop{
		ID: "P10", Level: "exploration",
		Rule:      "two to four sessions (both servers) run as simulated tasks of one process, switched at seeded step points, each compared with the same session run alone (in the same process, or in a fresh one); non-trivial: at least ten task switches",
		StateRule: "hash of the schedule (sequence of task and step at each switch)",
		Quick:     60000, Thorough: 1800000, Chunk: 60,
		Real: realServers, Stub: stubIO + "; task scheduling: simulated (seeded, at every function entry and loop iteration)",
		Gen: func(r *Rand) *Plan {
			p := &Plan{}
			n := 2 + r.Intn(3)
			shared := genText(r, 2+r.Intn(10))
			var all []Op
			for t := 0; t < n; t++ {
				var ops []Op
				if r.Bool(1, 4) {
					ops = genSession(r, "dbg", 1+r.Intn(8))
					// program files are shared by the process: one name per session
					for i := range ops {
						for k := range progFiles[:2] {
							ops[i].S = strings.ReplaceAll(ops[i].S, progFiles[k], progFiles[(t+k)%2])
						}
						if isFileOp(ops[i]) {
							ops[i].K = "skip"
						}
					}
				} else {
					g := newLspGen(r)
					g.initialize()
					if r.Bool(1, 2) {
						g.open(g.uris[0], shared)
					}
					for i := 1 + r.Intn(8); i > 0; i-- {
						g.step()
					}
					if r.Bool(1, 5) {
						g.bad()
					}
					ops = g.ops
				}
				for _, o := range ops {
					if o.K == "skip" {
						continue
					}
					kind := "lsp"
					if strings.Contains(o.J, `"type":"request"`) {
						kind = "dbg"
					}
					o.S = kind
					o.A = []int{t}
					all = append(all, o)
				}
			}
			p.Ops = append([]Op{{K: "file", S: "p0.teal", J: genProg(r)}, {K: "file", S: "p1.teal", J: genProg(r)}}, all...)
			p.set("den", pick(r, []int{1, 2, 3, 5, 10, 50, 200, 1000}))
			p.set("sched", r.Intn(1<<30))
			p.set("fresh", b2i(r.Bool(1, 8)))
			return p
		},
		Run: runP10,
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func runP10(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	var sess [][]Op
	var kinds []string
	idx := map[int]int{}
	for _, o := range ms {
		t := 0
		if len(o.A) > 0 {
			t = o.A[0]
		}
		k, ok := idx[t]
		if !ok {
			k = len(sess)
			idx[t] = k
			sess = append(sess, nil)
			kinds = append(kinds, o.S)
		}
		sess[k] = append(sess[k], o)
	}
	if len(sess) == 0 {
		x.Trivial = true
		return
	}
	w := newWorld()
	w.MaxSteps = dbgStepBudget
	w.SwitchDen = p.cfg("den")
	res := make([]*Res, len(sess))
	var fns []func()
	for i := range sess {
		i := i
		res[i] = &Res{World: w, Conn: feed(x, sess[i])}
		fns = append(fns, func() {
			res[i].Status, res[i].Err = server(kinds[i], res[i].Conn, nil)
			res[i].Returned = true
		})
	}
	simrt.Run(w, uint64(p.cfg("sched")), fns...)
	account(x, w)
	x.mix(w.Trace)
	worldAlive(x, w, "concurrent sessions")
	x.state(w.Trace)
	x.Trivial = w.Switches < 10
	x.Faults["task_switch"] += int(w.Switches)
	for i := range sess {
		got := res[i].Conn.out.String()
		x.mix(got)
		var want string
		var st int
		if p.cfg("fresh") == 1 {
			cr := freshProcess(x, hash64("p10", p.Seed, i), ChildReq{Kind: kinds[i], Seed: 1, Wires: [][]byte{wire(sess[i])}})
			want, st = cr.Outs[0], cr.Status[0]
		} else {
			alone := runServer(x, kinds[i], feed(x, sess[i]), nil).alive(x, "alone")
			want, st = alone.Out, alone.Status
		}
		if got != want || res[i].Status != st {
			x.fail("interferes", "session %d of %d answers differently next to the others than alone: %s", i, len(sess), diffAt(want, got))
		}
	}
}

func init() {
	register(&Prop{
		ID: "P11", Level: "exploration",
		Rule:      "the same session (or SARIF scan) executed several times with different seeds for map iteration order, start-up map order (fresh processes), randomness and clock; non-trivial: some output and more than one map iteration with a choice",
		StateRule: "hash of the output of an execution",
		Quick:     30000, Thorough: 900000, Chunk: 75,
		Real: realServers + "; cmd/tealsarif", Stub: stubIO,
		Gen: func(r *Rand) *Plan {
			p := &Plan{Mode: pickKind(r)}
			if r.Bool(1, 10) {
				p.Mode = "sarif"
				p.Ops = genTree(r)
				return p
			}
			p.Ops = genSession(r, p.Mode, 2+r.Intn(12))
			if p.Mode == "lsp" && r.Bool(1, 2) {
				g := newLspGen(r)
				g.initialize()
				u := g.uris[0]
				g.open(u, genText(r, 4+r.Intn(20)))
				for i := 0; i < 4+r.Intn(6); i++ {
					g.docReqFor(u)
				}
				p.Ops = g.ops
			}
			p.set("fresh", b2i(r.Bool(1, 6)))
			return p
		},
		Run: func(p *Plan, x *X) {
			if p.Mode == "sarif" {
				p11Sarif(p, x)
				return
			}
			ms := prepare(x, p.Ops)
			_, m0 := simrt.MapRanges()
			base := runServer(x, p.Mode, feed(x, ms), nil).alive(x, "first run")
			for k := 0; k < 3; k++ {
				simrt.SetMapSeed(hash64("p11", p.Seed, k))
				simrt.SetRandSeed(hash64("p11r", p.Seed, k))
				x.fault("map_order_reseeded")
				x.fault("clock_jump")
				res := runServerAt(x, p.Mode, feed(x, ms), nil, int64(k+1)*int64(37*time.Hour/time.Microsecond)).alive(x, "repetition")
				if res.Out != base.Out || res.Status != base.Status {
					x.fail("differs", "two runs of the same session differ: %s", diffAt(base.Out, res.Out))
				}
			}
			_, m1 := simrt.MapRanges()
			if p.cfg("fresh") == 1 {
				cr := freshProcess(x, hash64("p11f", p.Seed), ChildReq{Kind: p.Mode, Seed: hash64("p11g", p.Seed), Epoch: int64(p.Seed % 1e15), Wires: [][]byte{wire(ms)}})
				x.fault("fresh_process")
				if cr.Outs[0] != base.Out {
					x.fail("differs", "the same session in another process differs: %s", diffAt(base.Out, cr.Outs[0]))
				}
			}
			x.state(base.Out)
			x.Trivial = base.Out == "" || m1 == m0
		},
	})
}
