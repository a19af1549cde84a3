//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
	"github.com/dragmz/teal/verifsim/simrt"
)

var errInjected = errors.New("injected I/O error")

// Conn is the simulated transport between a simulated client and a server
// running real code: the server's io.Reader and io.Writer.
type Conn struct {
	x *X

	// input side
	buf     []byte          // bytes sent by the client and not yet delivered
	more    func() bool     // client: called when the server waits for input; false: client closed
	cuts    func(n int) int // size of the next read given n available bytes; <=0: empty read
	endErr  error           // error at the end of the stream (default io.EOF)
	endAt   int             // input fails for good after this many bytes; -1: never
	dataEOF bool            // deliver the last bytes together with the error

	delivered int
	reads     int
	endReads  int
	closed    bool

	// output side
	out       bytes.Buffer
	writes    int
	outs      []int // output length when the server asked for more input
	failAt    int   // output byte at which writing fails; -1: never
	failKind  string
	failed    bool
	afterFail int // bytes offered after the failure

	empties int
	sent    int // index of the last op sent by feed
	marks   []mark
	badPath string // reads of this file fail
}

// mark: op was sent when the server had written at bytes.
type mark struct{ op, at int }

func newConn(x *X, in []byte) *Conn {
	return &Conn{x: x, buf: in, endAt: -1, failAt: -1}
}

func (c *Conn) end() (int, error) {
	c.closed = true
	c.endReads++
	simrt.Charge(1)
	simrt.Y()
	if c.endErr != nil {
		return 0, c.endErr
	}
	return 0, io.EOF
}

func (c *Conn) Read(p []byte) (int, error) {
	simrt.Charge(1)
	simrt.Y()
	c.reads++
	if c.closed {
		return c.end()
	}
	for len(c.buf) == 0 {
		c.outs = append(c.outs, c.out.Len())
		if c.more == nil || !c.more() {
			return c.end()
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(c.buf)
	if c.endAt >= 0 && c.delivered+n > c.endAt {
		n = c.endAt - c.delivered
	}
	if n <= 0 {
		return c.end()
	}
	if c.cuts != nil {
		k := c.cuts(n)
		if k <= 0 && c.empties < 20 {
			c.empties++
			c.x.fault("empty_read")
			return 0, nil
		}
		if k > 0 && k < n {
			n = k
			c.x.fault("split_read")
		}
	}
	c.empties = 0
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.buf[:n])
	c.buf = c.buf[n:]
	c.delivered += n
	if c.dataEOF && ((len(c.buf) == 0 && c.more == nil) || (c.endAt >= 0 && c.delivered >= c.endAt)) {
		c.x.fault("data_with_eof")
		_, err := c.end()
		return n, err
	}
	return n, nil
}

func (c *Conn) Write(p []byte) (int, error) {
	simrt.Charge(1)
	simrt.Y()
	c.writes++
	if c.failed && c.failKind != "once" && c.failKind != "shortonce" {
		c.afterFail += len(p)
		return 0, errInjected
	}
	if !c.failed && c.failAt >= 0 && c.out.Len()+len(p) > c.failAt {
		n := c.failAt - c.out.Len()
		if n < 0 {
			n = 0
		}
		c.out.Write(p[:n])
		c.failed = true
		c.x.fault("write_" + c.failKind)
		if c.failKind == "short" || c.failKind == "shortonce" {
			return n, nil
		}
		return n, errInjected
	}
	if c.failed {
		c.afterFail += len(p)
	}
	return c.out.Write(p)
}

// Res is the outcome of one server execution.
type Res struct {
	Out      string
	Status   int
	Err      error
	Returned bool
	World    *simrt.World
	Conn     *Conn
}

const stepBudget = 30_000_000

// debug sessions may have to run 10000 branches of 700 instructions each
const dbgStepBudget = 400_000_000

func newWorld() *simrt.World { return &simrt.World{MaxSteps: stepBudget} }

func account(x *X, w *simrt.World) {
	x.Steps += w.Steps
	x.ClockUs += w.Clock().Microseconds()
	x.Worlds++
	x.Switch += w.Switches
}

// server runs one server over the connection; the caller is a simulated task.
func server(kind string, c *Conn, log io.Writer) (int, error) {
	if kind == "dbg" {
		var o []dbg.DbgOption
		if log != nil {
			o = append(o, dbg.WithDebug(log))
		}
		s, err := dbg.New(c, c, o...)
		if err != nil {
			return -1, err
		}
		return s.Run()
	}
	var o []lsp.LspOption
	if log != nil {
		o = append(o, lsp.WithDebug(log))
	}
	s, err := lsp.New(c, c, o...)
	if err != nil {
		return -1, err
	}
	return s.Run()
}

// runServer executes one server session in its own world.
func runServer(x *X, kind string, c *Conn, log io.Writer) *Res {
	return runServerAt(x, kind, c, log, 0)
}

func runServerAt(x *X, kind string, c *Conn, log io.Writer, epochUs int64) *Res {
	w := newWorld()
	if kind == "dbg" {
		w.MaxSteps = dbgStepBudget
	}
	w.Epoch = time.Duration(epochUs) * time.Microsecond
	w.Fs = func(op, path string) error {
		if c.badPath != "" && path == c.badPath {
			x.fault("file_read_error")
			return syscall.EIO
		}
		return nil
	}
	res := &Res{World: w, Conn: c}
	w.SwitchDen = 20 // only if the code under test starts tasks of its own
	simrt.Run(w, hash64("sched", x.seed, x.Worlds), func() {
		res.Status, res.Err = server(kind, c, log)
		res.Returned = true
	})
	account(x, w)
	res.Out = c.out.String()
	x.mix(res.Out)
	x.mix(res.Status)
	return res
}

// alive fails the run if the server crashed or hung.
func (r *Res) alive(x *X, what string) *Res {
	x.check()
	worldAlive(x, r.World, what)
	if !r.Returned {
		x.fail("no-return", "%s: the server did not return", what)
	}
	return r
}

func worldAlive(x *X, w *simrt.World, what string) {
	switch {
	case w.Panic != nil:
		x.fail("crash", "%s: panic: %v\n%s", what, w.Panic, short(w.PanicStk, 1500))
	case w.Exited:
		x.fail("crash", "%s: the process was ended with status %d", what, w.ExitCode)
	case w.Exhausted:
		x.fail("hang", "%s: no end within %d steps", what, w.MaxSteps)
	case w.Deadlock:
		x.fail("hang", "%s: deadlock", what)
	}
}

// frames

func frame(body string, style string) []byte {
	n := strconv.Itoa(len(body))
	switch style {
	case "type":
		return []byte("Content-Length: " + n + "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n" + body)
	case "typefirst":
		return []byte("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: " + n + "\r\n\r\n" + body)
	case "lower":
		return []byte("content-length: " + n + "\r\n\r\n" + body)
	case "upper":
		return []byte("CONTENT-LENGTH: " + n + "\r\n\r\n" + body)
	case "lf":
		return []byte("Content-Length: " + n + "\n\n" + body)
	case "nospace":
		return []byte("Content-Length:" + n + "\r\n\r\n" + body)
	case "many", "manyafter", "more":
		k := 9
		if style == "more" {
			k = 70
		}
		var h strings.Builder
		for i := 0; i < k; i++ {
			h.WriteString("X-Field-" + strconv.Itoa(i) + ": " + strconv.Itoa(i) + "\r\n")
		}
		if style == "manyafter" {
			return []byte("Content-Length: " + n + "\r\n" + h.String() + "\r\n" + body)
		}
		return []byte(h.String() + "Content-Length: " + n + "\r\n\r\n" + body)
	case "colon":
		return []byte("X-Url: http://h:80/?a=b: c\r\nContent-Length: " + n + "\r\n\r\n" + body)
	case "alike":
		return []byte("X-Content-Length: 3\r\nContent-Length-Hint: 5\r\nContent-Length: " + n + "\r\n\r\n" + body)
	case "long":
		return []byte("X-Pad: " + strings.Repeat("p", 5000) + "\r\nContent-Length: " + n + "\r\n\r\n" + body)
	}
	return []byte("Content-Length: " + n + "\r\n\r\n" + body)
}

var headerStyles = []string{"type", "typefirst", "lower", "upper", "lf", "nospace", "long", "many", "manyafter", "more", "colon", "alike"}

// bytes of an op on the wire
func (o Op) wire() []byte {
	if isFileOp(o) {
		return nil
	}
	if o.B != nil {
		return o.B
	}
	return frame(padTo(o.J, o.P), o.H)
}

func wire(ops []Op) []byte {
	var b []byte
	for _, o := range ops {
		b = append(b, o.wire()...)
	}
	return b
}

// parseFrames splits server output into frame bodies; rest is what follows the
// last complete frame.
func parseFrames(s string) (bodies []string, rest string, err error) {
	for s != "" {
		n := -1
		t := s
		for {
			i := strings.Index(t, "\r\n")
			if i < 0 {
				return bodies, s, nil
			}
			ln := t[:i]
			t = t[i+2:]
			if ln == "" {
				break
			}
			k, v, ok := strings.Cut(ln, ":")
			if !ok || k == "" || strings.ContainsAny(k, " \t{}\"") {
				return bodies, s, fmt.Errorf("not a header line: %q", short(ln, 100))
			}
			if strings.EqualFold(k, "Content-Length") {
				if n >= 0 {
					return bodies, s, fmt.Errorf("two Content-Length headers")
				}
				n, err = strconv.Atoi(strings.TrimSpace(v))
				if err != nil || n < 0 {
					return bodies, s, fmt.Errorf("bad Content-Length: %q", v)
				}
			}
		}
		if n < 0 {
			return bodies, s, fmt.Errorf("frame without Content-Length")
		}
		if len(t) < n {
			return bodies, s, nil
		}
		bodies = append(bodies, t[:n])
		s = t[n:]
	}
	return bodies, "", nil
}

// frames parses complete output or fails the run.
func (r *Res) frames(x *X, what string) []string {
	bs, rest, err := parseFrames(r.Out)
	if err != nil {
		x.fail("framing", "%s: output is not a sequence of frames: %v", what, err)
	}
	if rest != "" {
		x.fail("framing", "%s: output ends in an incomplete frame: %q", what, short(rest, 300))
	}
	for _, b := range bs {
		if !json.Valid([]byte(b)) {
			x.fail("framing", "%s: frame body is not valid JSON: %q", what, short(b, 300))
		}
	}
	return bs
}

// session delivers the ops frame by frame with the default transport.
func session(x *X, kind string, ops []Op) *Res {
	if kind == "dbg" {
		resetFiles()
	}
	return runServer(x, kind, feed(x, ops), nil)
}

// feed makes a connection whose client sends one op per read; file operations
// happen when the server waits for the message after them.
func feed(x *X, ops []Op) *Conn {
	c := newConn(x, nil)
	i := 0
	c.sent = -1
	c.more = func() bool {
		for {
			if i == len(ops) {
				return false
			}
			o := ops[i]
			c.sent = i
			i++
			if isFileOp(o) {
				doFile(x, o)
				continue
			}
			c.buf = o.wire()
			c.badPath = ""
			if len(c.buf) == 0 {
				continue
			}
			c.badPath = o.S
			c.marks = append(c.marks, mark{c.sent, c.out.Len()})
			return true
		}
	}
	return c
}

// prepare performs the file operations and returns the messages.
func prepare(x *X, ops []Op) []Op {
	resetFiles()
	var ms []Op
	for _, o := range ops {
		if isFileOp(o) {
			doFile(x, o)
			continue
		}
		o.S = "" // no read faults where messages are not delivered one by one
		ms = append(ms, o)
	}
	return ms
}

// Msg is a decoded message from a server.
type Msg struct {
	Raw    string
	ID     any             `json:"id"`
	Method string          `json:"method"`
	Result json.RawMessage `json:"result"`
	Error  json.RawMessage `json:"error"`
	Params json.RawMessage `json:"params"`
	keys   map[string]json.RawMessage
}

func parseMsg(b string) (*Msg, error) {
	m := &Msg{Raw: b}
	if err := json.Unmarshal([]byte(b), m); err != nil {
		return nil, err
	}
	if err := json.Unmarshal([]byte(b), &m.keys); err != nil {
		return nil, err
	}
	return m, nil
}

func (m *Msg) has(k string) bool { _, ok := m.keys[k]; return ok }
