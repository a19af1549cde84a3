//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"
)

const realTools = "main functions of cmd/tealsp and cmd/tealdbg in processes of their own, with lsp/ and dbg/"
const stubTools = "client: simulated over real pipes, TCP and Unix sockets of the loopback; dialing and creating files can be made to fail"

// transports of P23
const (
	trStdio = iota
	trTCP
	trUnix
)

func p23Gen(r *Rand) *Plan {
	p := &Plan{}
	tool := pick(r, []string{"tealsp", "tealsp", "tealsp dbg", "tealdbg", "tealdbg"})
	p.Mode = tool
	if tool == "tealsp" {
		g := genLsp(r, 0)
		n := 1 + r.Intn(8)
		for i := 0; i < n; i++ {
			if r.Bool(1, 6) {
				g.bad()
			} else {
				g.step()
			}
		}
		if r.Bool(1, 2) {
			if r.Bool(1, 2) {
				g.req("shutdown", nil)
			}
			g.ntf("exit", nil)
			if r.Bool(1, 2) {
				g.step()
			}
		}
		p.Ops = g.ops
	} else {
		g := genDap(r, 1+r.Intn(8))
		for i := 0; i < r.Intn(3); i++ {
			g.bad()
		}
		p.Ops = g.ops
	}
	p.set("tr", 0)
	if tool != "tealsp dbg" {
		p.set("tr", r.Intn(3))
	}
	p.set("debug", b2i(r.Bool(1, 2)))
	p.set("old", b2i(r.Bool(1, 4))) // a debug file of an earlier session
	p.set("long", r.Intn(3))        // how flags are written
	p.set("order", r.Intn(2))
	switch r.Intn(5) {
	case 0:
		if p.cfg("tr") != trStdio {
			p.Faults = append(p.Faults, Fault{K: pick(r, []string{"dial", "refused", "badaddr"})})
		} else if p.cfg("debug") == 1 {
			p.Faults = append(p.Faults, Fault{K: pick(r, []string{"create", "nodir", "isdir"})})
		} else {
			p.Faults = append(p.Faults, Fault{K: "full"})
		}
	case 1:
		if p.cfg("debug") == 1 {
			p.Faults = append(p.Faults, Fault{K: pick(r, []string{"create", "nodir", "isdir"})})
		}
	}
	return p
}

func p23Run(p *Plan, x *X) {
	ms := prepare(x, p.Ops)
	kind := "lsp"
	if p.Mode != "tealsp" {
		kind = "dbg"
	}
	if p.cfg("tr") != trStdio {
		// what follows an exit would make the kernel reset the connection
		for i, o := range ms {
			if parseIn(o.J).method() == "exit" {
				ms = ms[:i+1]
				break
			}
		}
	}
	in := wire(ms)
	var wantLog bytes.Buffer
	ref := runServer(x, kind, feed(x, ms), &wantLog).alive(x, "embedded server")
	var fs []FsFault
	var env []string
	var stdout *os.File
	fail := ""
	flag := func(name, v string) []string {
		switch p.cfg("long") {
		case 1:
			return []string{"--" + name, v}
		case 2:
			return []string{"-" + name + "=" + v}
		}
		return []string{"-" + name, v}
	}
	debug := "debug.log"
	os.RemoveAll(debug)
	defer os.RemoveAll(debug)
	old := ""
	if p.cfg("old") == 1 {
		old = strings.Repeat("IN: something else\n", 1+int(p.Seed%3000))
		if err := os.WriteFile(debug, []byte(old), 0o644); err != nil {
			panic(err)
		}
	}
	refused := false
	for _, f := range p.Faults {
		x.fault("tool_" + f.K)
		switch f.K {
		case "dial", "create":
			fs = append(fs, FsFault{Op: f.K, Nth: -1})
			fail = f.K
		case "refused", "badaddr":
			fail = f.K
			refused = true
		case "nodir":
			debug = "no/such/dir/debug.log"
			fail = f.K
		case "isdir":
			debug = "."
			fail = f.K
		case "full":
			var err error
			stdout, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				panic(err)
			}
			defer stdout.Close()
		}
	}
	if fs != nil {
		env = append(env, "VERIF_SIM_FS="+jstr(fs))
	}
	var ln net.Listener
	var err error
	var conn []string
	switch p.cfg("tr") {
	case trTCP:
		var addr string
		switch {
		case fail == "badaddr":
			addr = "127.0.0.1:notaport"
		case refused:
			// a port that is taken, so that nobody else listens there, but closed
			fd, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
			if e != nil {
				trouble("%v", e)
			}
			defer syscall.Close(fd)
			if e := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); e != nil {
				trouble("%v", e)
			}
			sa, e := syscall.Getsockname(fd)
			if e != nil {
				trouble("%v", e)
			}
			addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
		default:
			ln, err = net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				trouble("%v", err)
			}
			addr = ln.Addr().String()
		}
		conn = flag("addr", addr)
		if p.cfg("long") == 0 {
			conn = append(conn, flag("net", "tcp4")...)
		}
	case trUnix:
		os.Remove("sock")
		if !refused {
			ln, err = net.Listen("unix", "sock")
			if err != nil {
				trouble("%v", err)
			}
			defer os.Remove("sock")
		}
		conn = append(flag("net", "unix"), flag("addr", "sock")...)
	}
	if ln != nil {
		defer ln.Close()
	}
	var dbg []string
	if p.cfg("debug") == 1 {
		dbg = flag("debug", debug)
	}
	args := append(append([]string{}, conn...), dbg...)
	if p.cfg("order") == 1 {
		args = append(append([]string{}, dbg...), conn...)
	}
	tool := p.Mode
	if tool == "tealsp dbg" {
		tool, args = "tealsp", append([]string{"dbg"}, args...)
	}
	what := fmt.Sprintf("%s %v", p.Mode, args)
	var stdin io.Reader = bytes.NewReader(in)
	if p.cfg("tr") != trStdio {
		stdin = bytes.NewReader(nil)
	}
	t := startTool(x, tool, ".", args, stdin, stdout, env...)
	var got []byte
	connected := false
	var srvDone chan struct{}
	if ln != nil {
		srvDone = make(chan struct{})
		go func() {
			defer close(srvDone)
			c, err := ln.Accept()
			if err != nil {
				return
			}
			connected = true
			c.SetDeadline(time.Now().Add(60 * time.Second))
			w := make(chan struct{})
			go func() {
				defer close(w)
				c.Write(in)
				if h, ok := c.(interface{ CloseWrite() error }); ok {
					h.CloseWrite()
				}
			}()
			got, _ = io.ReadAll(c)
			c.Close()
			<-w
		}()
	}
	r := t.wait()
	if ln != nil {
		ln.Close()
		<-srvDone
	} else {
		got = r.Stdout
	}
	if (fail == "dial" || fail == "create") && !r.faulted() {
		// the operation was made in a way the shim does not see, so it worked
		fail = ""
	}
	x.mix(r.Code)
	x.state(p.Mode, p.cfg("tr"), p.cfg("debug"), fail, r.Code)
	x.Trivial = ref.Out == "" && fail == ""
	if fail != "" {
		if r.Code == 0 {
			x.fail("silent", "%s: status 0 although %s", what, fail)
		}
		if len(got) > 0 {
			x.fail("served", "%s: served although %s", what, fail)
		}
		return
	}
	if stdout == nil {
		if p.cfg("tr") != trStdio && !connected {
			x.fail("transport", "%s: did not connect: %s", what, short(r.Stderr, 600))
		}
		if string(got) != ref.Out {
			x.fail("output", "%s: other output than the embedded server: %s", what, diffAt(ref.Out, string(got)))
		}
		if p.cfg("tr") != trStdio && len(r.Stdout) > 0 {
			x.fail("output", "%s: output on standard output: %s", what, short(string(r.Stdout), 300))
		}
	}
	if r.Code != ref.Status {
		x.fail("status", "%s: status %d, the server's is %d: %s", what, r.Code, ref.Status, short(r.Stderr, 600))
	}
	if p.cfg("debug") == 1 && stdout == nil {
		b, err := os.ReadFile(debug)
		if err != nil {
			x.fail("log", "%s: no debug file: %v", what, err)
		}
		if string(b) != wantLog.String() && string(b) != old+wantLog.String() {
			x.fail("log", "%s: the debug file differs from the log: %s", what, diffAt(wantLog.String(), string(b)))
		}
		x.probe("debug_files_compared")
	}
}

func init() {
	register(&Prop{
		ID: "P23", Level: "exploration",
		Rule:      "a seeded session carried by a command over pipes, TCP or a Unix socket, with and without a debug file, flags in several spellings and orders; output, status and debug file are compared with the embedded server's; seeded failures of dialing (refused, bad address, injected), of creating the debug file (injected, missing directory, directory) and of standard output; non-trivial: output or a failure",
		StateRule: "hash of (command, transport, debug file, failure, status)",
		Quick:     24000, Thorough: 700000, Chunk: 100,
		Real: realTools, Stub: stubTools,
		Gen: p23Gen, Run: p23Run,
	})
}
