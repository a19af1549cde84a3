//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/dragmz/teal/verifsim/simrt"
)

// ChildReq asks a fresh process for reference outputs of complete sessions.
type ChildReq struct {
	Kind  string   `json:"kind"`
	Seed  uint64   `json:"seed"`
	Epoch int64    `json:"epoch"`
	Wires [][]byte `json:"wires"`
}

type ChildRes struct {
	Outs   []string `json:"outs"`
	Status []int    `json:"status"`
	Died   string   `json:"died"`
}

// childMode executes sessions in a fresh process (no state of earlier runs).
func childMode() {
	limits(60)
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		trouble("%v", err)
	}
	var q ChildReq
	if err := json.Unmarshal(b, &q); err != nil {
		trouble("%v", err)
	}
	simrt.SetMapSeed(q.Seed)
	simrt.SetRandSeed(q.Seed)
	var res ChildRes
	for _, w := range q.Wires {
		x := newX()
		x.seed = q.Seed
		c := newConn(x, w)
		r := runServerAt(x, q.Kind, c, nil, q.Epoch)
		if !r.Returned {
			res.Died = fmt.Sprintf("panic %v exited %v exhausted %v deadlock %v", r.World.Panic, r.World.Exited, r.World.Exhausted, r.World.Deadlock)
		}
		res.Outs = append(res.Outs, r.Out)
		res.Status = append(res.Status, r.Status)
	}
	json.NewEncoder(os.Stdout).Encode(res)
}

// freshProcess runs sessions in a fresh process.
func freshProcess(x *X, initSeed uint64, q ChildReq) *ChildRes {
	self, _ := os.Executable()
	c := exec.Command(self, "child")
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_SIM_MAPSEED=%d", initSeed))
	b, _ := json.Marshal(q)
	c.Stdin = bytes.NewReader(b)
	var out, eb bytes.Buffer
	c.Stdout, c.Stderr = &out, &eb
	x.probe("fresh_processes")
	if err := c.Run(); err != nil {
		x.fail("crash", "reference process died: %v\n%s", err, short(eb.String(), 2000))
	}
	var res ChildRes
	if err := json.Unmarshal(out.Bytes(), &res); err != nil {
		x.fail("crash", "reference process: %v", err)
	}
	if res.Died != "" {
		x.fail("crash", "reference process: %s", res.Died)
	}
	return &res
}

// MainRes is the outcome of a command-line tool run as a process.
type MainRes struct {
	Code   int // -1: killed
	Stdout []byte
	Stderr string
	Log    []string // file-system operations, "FAULT ..." for failed ones
	Err    error
}

func (r *MainRes) faulted() bool {
	for _, l := range r.Log {
		if strings.HasPrefix(l, "FAULT ") {
			return true
		}
	}
	return false
}

// Tool is a command-line tool run as a fresh process (its real main function).
type Tool struct {
	x      *X
	tool   string
	args   []string
	cmd    *exec.Cmd
	out    bytes.Buffer
	eb     bytes.Buffer
	logR   *os.File
	logged chan []byte
}

func startTool(x *X, tool, dir string, args []string, stdin io.Reader, stdout *os.File, env ...string) *Tool {
	self, _ := os.Executable()
	t := &Tool{x: x, tool: tool, args: args}
	c := exec.Command(self, args...)
	t.cmd = c
	c.Dir = dir
	c.Env = append(os.Environ(), "VERIF_SIM_MAIN="+tool, "VERIF_SIM_FSLOG=3")
	c.Env = append(c.Env, fmt.Sprintf("VERIF_SIM_MAPSEED=%d", hash64("tool", x.seed, x.Worlds)))
	c.Env = append(c.Env, env...)
	c.Stdin = stdin
	if stdout != nil {
		c.Stdout = stdout
	} else {
		c.Stdout = &t.out
	}
	c.Stderr = &t.eb
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	t.logR = r
	c.ExtraFiles = []*os.File{w}
	c.WaitDelay = 5 * time.Second
	x.Worlds++
	if err := c.Start(); err != nil {
		panic(err)
	}
	w.Close()
	t.logged = make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(r)
		t.logged <- b
	}()
	return t
}

func (t *Tool) wait() *MainRes {
	timer := time.AfterFunc(90*time.Second, func() { t.cmd.Process.Kill() })
	err := t.cmd.Wait()
	late := !timer.Stop()
	r := &MainRes{Stdout: t.out.Bytes(), Stderr: t.eb.String(), Err: err}
	if b := strings.TrimSpace(string(<-t.logged)); b != "" {
		r.Log = strings.Split(b, "\n")
	}
	t.logR.Close()
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		}
	}
	if r.Code == 97 {
		t.x.fail("hang", "%s %v: no end within the step budget", t.tool, t.args)
	}
	if late {
		t.x.fail("hang", "%s %v: no end within 90 s", t.tool, t.args)
	}
	for _, l := range r.Log {
		if strings.HasPrefix(l, "FAULT ") {
			t.x.fault("shim_" + strings.Fields(l)[1])
		}
	}
	return r
}

// runTool runs a command-line tool to its end.
func runTool(x *X, tool, dir string, args []string, stdin []byte, stdout *os.File, env ...string) *MainRes {
	return startTool(x, tool, dir, args, bytes.NewReader(stdin), stdout, env...).wait()
}
