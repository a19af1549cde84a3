//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
)

// dialog runs a server against a client written as a plain function: call sends
// bytes and returns the frames the server writes until it waits for input again.
// Client and server strictly alternate, so the execution is deterministic.
func dialog(x *X, kind string, client func(call func([]byte) []string)) *Res {
	req := make(chan []byte)
	rsp := make(chan []string)
	over := make(chan struct{})
	var died any
	go func() {
		defer close(over)
		defer close(req)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok {
					died = r
				}
			}
		}()
		client(func(b []byte) []string {
			req <- b
			fs, ok := <-rsp
			if !ok {
				panic(stopRun{})
			}
			return fs
		})
	}()
	first := true
	gone := false
	defer func() {
		if !gone {
			gone = true
			close(rsp)
			// the client may be about to send
			go func() {
				for range req {
				}
			}()
			<-over
		}
		if died != nil {
			panic(died)
		}
	}()
	return interact(x, kind, nil, func(fs []string) ([]byte, bool) {
		if !first {
			rsp <- fs
		}
		first = false
		m, ok := <-req
		return m, ok
	})
}

// dmsg is a decoded message of the debug adapter.
type dmsg struct {
	Raw        string
	Seq        int             `json:"seq"`
	Type       string          `json:"type"`
	Command    string          `json:"command"`
	Event      string          `json:"event"`
	RequestSeq int             `json:"request_seq"`
	Success    bool            `json:"success"`
	Message    string          `json:"message"`
	Body       json.RawMessage `json:"body"`
}

func parseDap(x *X, f string) *dmsg {
	m := &dmsg{Raw: f}
	if err := json.Unmarshal([]byte(f), m); err != nil {
		x.fail("reply", "not a DAP message: %s", short(f, 300))
	}
	return m
}

// dbgClient is a client of the debug adapter.
type dbgClient struct {
	total bool // check totalFrames
	x     *X
	call  func([]byte) []string
	seq   int
	lz    int
}

func (d *dbgClient) msg(cmd string, args any) []byte {
	d.seq++
	m := obj{"seq": d.seq, "type": "request", "command": cmd}
	if args != nil {
		m["arguments"] = args
	}
	return frame(jstr(m), "")
}

// do sends requests and returns the messages that follow, checking that each
// request succeeded.
func (d *dbgClient) do(msgs ...[]byte) []*dmsg {
	var out []*dmsg
	n := 0
	if len(msgs) == 0 {
		return nil
	}
	for _, f := range d.call(bytes.Join(msgs, nil)) {
		g := parseDap(d.x, f)
		if g.Type == "response" {
			if n < len(msgs) && !g.Success {
				d.x.fail("refused", "%s failed: %s", short(string(msgs[n]), 300), short(f, 300))
			}
			n++
		}
		out = append(out, g)
	}
	if n != len(msgs) {
		d.x.fail("reply", "%d responses to %d requests", n, len(msgs))
	}
	return out
}

// one sends a request and decodes its response body.
func (d *dbgClient) one(cmd string, args any, body any) {
	ms := d.do(d.msg(cmd, args))
	if len(ms) != 1 {
		d.x.fail("events", "%s caused %d messages", cmd, len(ms))
	}
	if body != nil {
		if err := json.Unmarshal(ms[0].Body, body); err != nil {
			d.x.fail("reply", "%s: %s", cmd, short(ms[0].Raw, 300))
		}
	}
}
