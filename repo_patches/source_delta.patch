From 536532d27c1765a5620d0b6e3077749d8b04a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:18 +0000
Subject: [PATCH 01/62] fix: stop the servers when reading their input keeps
 failing

Any read error other than io.EOF (connection reset, I/O error) made the
main loops of the language server and the debug adapter spin forever.
---
 dbg/dbg.go | 5 +++++
 lsp/lsp.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 6dd62ea..06f1609 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -832,6 +832,11 @@ func (l *dbg) Run() (int, error) {
 			if errors.Is(err, io.EOF) {
 				break
 			}
+
+			// a stream that cannot deliver anything more never recovers
+			if _, err := l.tp.R.Peek(1); err != nil {
+				break
+			}
 		}
 	}
 
diff --git a/lsp/lsp.go b/lsp/lsp.go
index c0aaa99..ac4b4cb 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2208,6 +2208,11 @@ func (l *lsp) Run() (int, error) {
 			if errors.Is(err, io.EOF) {
 				break
 			}
+
+			// a stream that cannot deliver anything more never recovers
+			if _, err := l.tp.R.Peek(1); err != nil {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From 21c3f4f768736e564e56a519499818b348a9357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:20 +0000
Subject: [PATCH 02/62] fix: survive negative and absurd Content-Length headers

The servers allocated the announced length up front, which panics for
negative values and for values beyond the available memory.
---
 dbg/dbg.go | 11 +++++++++--
 lsp/lsp.go | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 06f1609..e492bc2 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -804,8 +804,15 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.Errorf("invalid content length: %d", length)
+			}
+
+			// the length is not trusted: memory grows with the received data
+			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
+			if err == nil && len(data) < length {
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
 				return errors.Wrap(err, "failed to read content body")
 			}
diff --git a/lsp/lsp.go b/lsp/lsp.go
index ac4b4cb..7d4cddf 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2180,8 +2180,15 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to parse content length")
 			}
 
-			data := make([]byte, length)
-			_, err = io.ReadFull(l.tp.R, data)
+			if length < 0 {
+				return errors.Errorf("invalid content length: %d", length)
+			}
+
+			// the length is not trusted: memory grows with the received data
+			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
+			if err == nil && len(data) < length {
+				err = io.ErrUnexpectedEOF
+			}
 			if err != nil {
 				return errors.Wrap(err, "failed to read content body")
 			}
-- 
2.43.0


From 8bbf1e726721940e625959e8494eef2bcb18f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:43 +0000
Subject: [PATCH 03/62] fix: reply to language server requests that fail

Requests that could not be served (unknown method, unknown document,
ill-typed parameters, server shut down) were dropped silently, so that
the client waited for their replies forever.
---
 lsp/lsp.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 7d4cddf..4c19678 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -23,6 +23,10 @@ const (
 	tealCompletionArg
 )
 
+const (
+	lspErrorRequestFailed = -32803
+)
+
 const (
 	semanticTokenKeyword  = 0
 	semanticTokenString   = 1
@@ -56,6 +60,8 @@ func (d *lspDoc) Results() *teal.ProcessResult {
 type lsp struct {
 	id int
 
+	replied bool // the current request has been replied to
+
 	config tealConfig
 
 	docs     map[string]*lspDoc
@@ -696,6 +702,7 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *lsp) reply(id interface{}, result interface{}, err interface{}) error {
+	l.replied = true
 	return l.write(jsonRpcResponse{
 		JsonRpc: "2.0",
 		Id:      id,
@@ -2201,8 +2208,17 @@ func (l *lsp) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
+			l.replied = false
+
 			err = l.handle(jh, data)
 			if err != nil {
+				if jh.Id != nil && jh.Method != "" && !l.replied {
+					l.fail(jh.Id, lspError{
+						Code:    lspErrorRequestFailed,
+						Message: err.Error(),
+					})
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 668d12f165ac2fe2dbe54d759a264ff8a88ac9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:44 +0000
Subject: [PATCH 04/62] fix: reply to workspace/executeCommand

The commands sent their workspace/applyEdit request but never replied to
the request that asked for it.
---
 lsp/lsp.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 4c19678..76d6dec 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -740,6 +740,15 @@ func (l *lsp) request(method string, params interface{}) error {
 	})
 }
 
+func (l *lsp) applyEdit(id interface{}, params lspWorkspaceApplyEditRequestParams) error {
+	err := l.request("workspace/applyEdit", params)
+	if err != nil {
+		return err
+	}
+
+	return l.success(id, struct{}{})
+}
+
 func (l *lsp) notify(method string, params interface{}) error {
 	return l.write(lspNotification{
 		JsonRpc: "2.0",
@@ -935,7 +944,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Update version",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -972,7 +981,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					},
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Replace with named value",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1019,7 +1028,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					NewText: "",
 				})
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: "Remove line",
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1069,7 +1078,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 					})
 				}
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Remove label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
@@ -1103,7 +1112,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
 				name := args[0].Name
 				s := fmt.Sprintf("\r\n%s:\r\n", name)
 
-				return l.request("workspace/applyEdit", lspWorkspaceApplyEditRequestParams{
+				return l.applyEdit(h.Id, lspWorkspaceApplyEditRequestParams{
 					Label: fmt.Sprintf("Create label: %s", name),
 					Edit: lspWorkspaceEdit{
 						DocumentChanges: []lspTextDocumentEdit{
-- 
2.43.0


From 84b0336b2961f32bd30b2f98cae65083b245e133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:45 +0000
Subject: [PATCH 05/62] fix: keep the language server running when a message
 makes a handler panic

Missing parameters or a negative position crashed the whole session.
---
 lsp/lsp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 76d6dec..814d93c 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -799,7 +799,13 @@ func (l *lsp) prepare(uri string) (*lspDoc, *teal.ProcessResult, error) {
 	return doc, doc.Results(), nil
 }
 
-func (l *lsp) handle(h jsonRpcHeader, b []byte) error {
+func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
+	// a message that cannot be handled must not take the session down
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("panic: %v", r)
+		}
+	}()
 
 	if h.Result != nil {
 		// TODO: handle success
-- 
2.43.0


From 32c85eb4737cd763072c122fff523d761ac0d555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 06/62] fix: reply to debug adapter requests that fail

Requests that could not be served (unreadable program, unknown command,
ill-typed arguments) were dropped silently, so that the client waited for
their responses forever.
---
 dbg/dbg.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index e492bc2..c920ba4 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -23,6 +23,8 @@ func init() {
 type dbg struct {
 	id int
 
+	replied bool // the current request has been replied to
+
 	shutdown bool
 
 	exit     bool
@@ -269,6 +271,7 @@ func readInto(b []byte, v interface{}) error {
 }
 
 func (l *dbg) reply(id int, cmd string, msg string, result interface{}, err interface{}) error {
+	l.replied = true
 	l.id++
 	return l.write(dapResponse{
 		Seq:        l.id,
@@ -734,6 +737,8 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				StackFrames: sf,
 				TotalFrames: one,
 			}, nil)
+		default:
+			return errors.Errorf("unknown command: %s", req.Command)
 		}
 	}
 	return nil
@@ -825,8 +830,15 @@ func (l *dbg) Run() (int, error) {
 				return errors.Wrap(err, "failed to unmarshal json rpc header")
 			}
 
+			l.replied = false
+
 			err = l.handle(jh, data)
 			if err != nil {
+				if jh.Type == "request" && !l.replied {
+					req, _ := read[dapRequestHeader](data)
+					l.reply(jh.Seq, req.Command, err.Error(), nil, err)
+				}
+
 				return errors.Wrap(err, "failed to handle request")
 			}
 
-- 
2.43.0


From 990f0d49284475088c1a4009126cf4b098f0337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:46 +0000
Subject: [PATCH 07/62] fix: keep the debug adapter running on requests it
 cannot handle

Pausing or stepping before a program was launched, requests without
arguments and out of range numbers crashed the whole session.
---
 dbg/dbg.go | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index c920ba4..4a25a86 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -305,7 +305,14 @@ func (l *dbg) notify(event string, params interface{}) error {
 	})
 }
 
-func (l *dbg) handle(h dapHeader, b []byte) error {
+func (l *dbg) handle(h dapHeader, b []byte) (err error) {
+	// a message that cannot be handled must not take the session down
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("panic: %v", r)
+		}
+	}()
+
 	switch h.Type {
 	case "request":
 		req, err := read[dapRequestHeader](b)
@@ -466,6 +473,10 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if l.vm == nil {
+				return nil
+			}
+
 			var tid *int
 			if l.vm.tvm.Branch != nil {
 				tid = new(int)
@@ -482,6 +493,11 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 			if err != nil {
 				return err
 			}
+
+			if creq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", dapContinueResponse{
 				AllThreadsContinued: yes,
 			}, nil)
@@ -535,22 +551,28 @@ func (l *dbg) handle(h dapHeader, b []byte) error {
 				return err
 			}
 
+			if nreq.Arguments == nil {
+				return errors.New("missing arguments")
+			}
+
 			err = l.reply(h.Seq, req.Command, "", nil, nil)
 			if err != nil {
 				return err
 			}
 
-			if l.vm != nil {
-				l.vm.tvm.Switch(nreq.Arguments.ThreadId)
-				l.vm.tvm.Step()
+			if l.vm == nil {
+				return nil
+			}
 
-				if l.vm.tvm.Error != nil {
-					return l.notify("stopped", dapStoppedEventParams{
-						Reason:            "exception",
-						AllThreadsStopped: yes,
-						Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
-					})
-				}
+			l.vm.tvm.Switch(nreq.Arguments.ThreadId)
+			l.vm.tvm.Step()
+
+			if l.vm.tvm.Error != nil {
+				return l.notify("stopped", dapStoppedEventParams{
+					Reason:            "exception",
+					AllThreadsStopped: yes,
+					Description:       fmt.Sprintf("Error: %s", l.vm.tvm.Error),
+				})
 			}
 
 			var tid *int
-- 
2.43.0


From d9dfb67ecfaec4ca2117094801dfa7c808a47a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:50 +0000
Subject: [PATCH 08/62] fix: check line numbers and variable ranges sent by the
 debug client

Breakpoints on line 0 and variable ranges beyond the end panicked.
---
 dbg/dbg.go | 42 ++++++++++++++++++++++--------------------
 vm.go      |  2 +-
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 4a25a86..a97d6ae 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -138,6 +138,26 @@ type dapVariablesRequestParams struct {
 	Count              *int `json:"count,omitempty"`
 }
 
+// slice returns the requested range of n indexed variables
+func (p *dapVariablesRequestParams) slice(n int) (int, int) {
+	s, e := 0, n
+
+	if p.Start != nil && *p.Start > 0 {
+		s = *p.Start
+	}
+
+	if s > n {
+		s = n
+	}
+
+	// a count of 0 means all
+	if p.Count != nil && *p.Count > 0 && *p.Count < n-s {
+		e = s + *p.Count
+	}
+
+	return s, e
+}
+
 type dapVariablesResponse struct {
 	Variables []dapVariable `json:"variables"`
 }
@@ -617,16 +637,7 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 									})
 								}
 							case 2:
-								s := 0
-								e := len(l.vm.tvm.Scratch.Items)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.slice(len(l.vm.tvm.Scratch.Items))
 
 								for i := s; i < e; i++ {
 									v := l.vm.tvm.Scratch.Items[i]
@@ -638,16 +649,7 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 									}
 								}
 							case 3:
-								s := 0
-								e := len(b.Trace)
-
-								if vreq.Arguments.Start != nil {
-									s = *vreq.Arguments.Start
-								}
-
-								if vreq.Arguments.Count != nil {
-									e = s + *vreq.Arguments.Count
-								}
+								s, e := vreq.Arguments.slice(len(b.Trace))
 
 								for i := s; i < e; i++ {
 									v := b.Trace[i]
diff --git a/vm.go b/vm.go
index e01389e..ae68423 100644
--- a/vm.go
+++ b/vm.go
@@ -411,7 +411,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) {
 			continue
 		}
 
-- 
2.43.0


From ce2ab49c70e59aa49d63d7378c9ec029d456c13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:32 +0000
Subject: [PATCH 09/62] fix: keep the listing aligned with the source lines

A line with too many values was listed twice, which shifted the lines of
all later diagnostics and debugger positions and crashed the analysis of
programs with a lint finding on one of the last lines.
---
 process.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..810dc96 100644
--- a/process.go
+++ b/process.go
@@ -3178,11 +3178,14 @@ func Process(source string) *ProcessResult {
 	for line, l := range lines {
 		c.line = line
 		c.args = &arguments{ts: l}
+		count := len(c.ops)
 		func() {
 			defer func() {
 				switch v := recover().(type) {
 				case recoverable:
-					c.emit(Empty) // consider replacing with Raw string expr
+					if len(c.ops) == count { // exactly one op per line
+						c.emit(Empty) // consider replacing with Raw string expr
+					}
 				case nil:
 				default:
 					fmt.Printf("unrecoverable: %v", v)
-- 
2.43.0


From 05696a803b02087a1deb847df4e41f8fc2b5fab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 10/62] fix: do not count through lines beyond the end of the
 document

Clients ask for hints and code actions up to the maximum line number,
which kept the server busy for seconds (or forever).
---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 810dc96..5c46b29 100644
--- a/process.go
+++ b/process.go
@@ -2685,7 +2685,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 
 	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
 		if li >= len(r.Lines) {
-			continue
+			break
 		}
 
 		ln := r.Lines[li]
-- 
2.43.0


From 8ea3efeb90873503c1799cb91b85443b1c29d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:36 +0000
Subject: [PATCH 11/62] fix: keep the call frames when a branch forks inside a
 subroutine

The forked branch started with no frames: its retsub ended the program
and its frame instructions failed.
---
 vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm.go b/vm.go
index ae68423..fab5612 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
@@ -468,6 +469,7 @@ func (v *Vm) Step() {
 					vm:     b.vm,
 					Line:   b.Line,
 					Stack:  b.Stack.clone(),
+					Frames: append([]VmFrame{}, b.Frames...),
 					Budget: b.Budget,
 					Name:   b.Name,
 					Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From 875198bc121cab089bf9c5cad410de03efb2d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:41 +0000
Subject: [PATCH 12/62] fix: give every debugger branch its own scratch space

All branches shared one scratch space, so that stepping one execution
path changed what the others load and show.
---
 dbg/dbg.go |  4 ++--
 expr.go    |  2 +-
 vm.go      | 40 +++++++++++++++++++++-------------------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index a97d6ae..f089018 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -637,10 +637,10 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 									})
 								}
 							case 2:
-								s, e := vreq.Arguments.slice(len(l.vm.tvm.Scratch.Items))
+								s, e := vreq.Arguments.slice(len(b.Scratch.Items))
 
 								for i := s; i < e; i++ {
-									v := l.vm.tvm.Scratch.Items[i]
+									v := b.Scratch.Items[i]
 									if v.T != teal.VmTypeNone {
 										vs = append(vs, dapVariable{
 											Name:  strconv.Itoa(i),
diff --git a/expr.go b/expr.go
index 5c90871..d70c6ad 100644
--- a/expr.go
+++ b/expr.go
@@ -1084,7 +1084,7 @@ func (e *LoadExpr) String() string {
 }
 
 func (e *LoadExpr) Execute(b *VmBranch) error {
-	v := b.vm.Scratch.Items[e.Index]
+	v := b.Scratch.Items[e.Index]
 	b.push(VmValue{T: VmTypeAny, src: v})
 
 	b.Line++
diff --git a/vm.go b/vm.go
index fab5612..a5fb970 100644
--- a/vm.go
+++ b/vm.go
@@ -206,7 +206,7 @@ func (b *VmBranch) replace(n uint8, v VmValue) {
 func (b *VmBranch) store(index VmValue, v VmValue) {
 	switch src := index.src.(type) {
 	case vmUint64Const:
-		b.vm.Scratch.Items[src.v] = v
+		b.Scratch.Items[src.v] = v
 	}
 }
 
@@ -250,6 +250,8 @@ type VmBranch struct {
 
 	Stack *vmStack
 
+	Scratch VmScratch
+
 	Frames []VmFrame
 
 	Budget int
@@ -260,14 +262,15 @@ type VmBranch struct {
 
 func (b *VmBranch) fork(target string) {
 	nb := &VmBranch{
-		Id:     b.vm.Id,
-		vm:     b.vm,
-		Line:   b.vm.find(target),
-		Stack:  b.Stack.clone(),
-		Frames: append([]VmFrame{}, b.Frames...),
-		Budget: b.Budget,
-		Name:   target,
-		Trace:  append([]Op{}, b.Trace...),
+		Id:      b.vm.Id,
+		vm:      b.vm,
+		Line:    b.vm.find(target),
+		Stack:   b.Stack.clone(),
+		Scratch: b.Scratch,
+		Frames:  append([]VmFrame{}, b.Frames...),
+		Budget:  b.Budget,
+		Name:    target,
+		Trace:   append([]Op{}, b.Trace...),
 	}
 
 	b.vm.Id++
@@ -304,8 +307,6 @@ type Vm struct {
 	Process *ProcessResult
 	syms    map[string]int
 
-	Scratch VmScratch
-
 	Branches []*VmBranch
 	Branch   *VmBranch
 	Current  int
@@ -465,14 +466,15 @@ func (v *Vm) Step() {
 		for _, cost := range costs {
 			if cb == nil {
 				cb := &VmBranch{
-					Id:     b.vm.Id,
-					vm:     b.vm,
-					Line:   b.Line,
-					Stack:  b.Stack.clone(),
-					Frames: append([]VmFrame{}, b.Frames...),
-					Budget: b.Budget,
-					Name:   b.Name,
-					Trace:  append([]Op{}, b.Trace...),
+					Id:      b.vm.Id,
+					vm:      b.vm,
+					Line:    b.Line,
+					Stack:   b.Stack.clone(),
+					Scratch: b.Scratch,
+					Frames:  append([]VmFrame{}, b.Frames...),
+					Budget:  b.Budget,
+					Name:    b.Name,
+					Trace:   append([]Op{}, b.Trace...),
 				}
 
 				b.vm.Id++
-- 
2.43.0


From 9f09601f87c0c666ed1e88ed6cc3ea1b81661e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:12 +0000
Subject: [PATCH 13/62] fix: fail a SARIF scan when a directory cannot be read

The walk ignored errors: the report silently left out everything below an
unreadable directory.
---
 cmd/tealsarif/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..6dd94e6 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -85,6 +85,10 @@ func run(a args) error {
 
 	if fi.IsDir() {
 		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+			if err != nil {
+				return err
+			}
+
 			if !d.IsDir() {
 				if filepath.Ext(path) == ".teal" {
 					paths = append(paths, path)
-- 
2.43.0


From a41b64eafc6ef4eef4ac64002669e11eed6014b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:13 +0000
Subject: [PATCH 14/62] fix: point SARIF results at the artifact of their file

The artifact index of a result was its number within the file.
---
 cmd/tealsarif/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 6dd94e6..77a4990 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -129,7 +129,7 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -141,7 +141,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: len(run.Artifacts) - 1,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0


From 66b05f9f1b1d39f4685d5d1c21e87a4adcaaf8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:15 +0000
Subject: [PATCH 15/62] fix: fail a SARIF scan when the report cannot be
 written

A full disk or a closed pipe left a truncated report and exit status 0.
---
 cmd/tealsarif/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 77a4990..119f737 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -161,7 +161,7 @@ func run(a args) error {
 		return err
 	}
 
-	fmt.Println(string(rb))
+	_, err = fmt.Println(string(rb))
 
 	return err
 }
-- 
2.43.0


From 3df7fb82970ee949e8533d243762f3ef1d2909c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:17 +0000
Subject: [PATCH 16/62] fix: report lint findings in a reproducible order

They came in hash map order, so that diagnostics, code actions and SARIF
reports differed from run to run.
---
 linter.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/linter.go b/linter.go
index cc36f06..a5caab1 100644
--- a/linter.go
+++ b/linter.go
@@ -2,6 +2,7 @@ package teal
 
 import (
 	"fmt"
+	"sort"
 )
 
 type RedundantLine interface {
@@ -247,6 +248,17 @@ func (l *Linter) getAllLabels() map[string][]int {
 	return all
 }
 
+// sortedNames makes the order of diagnostics reproducible
+func sortedNames(m map[string][]int) []string {
+	names := make([]string, 0, len(m))
+	for name := range m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+
+	return names
+}
+
 func (l *Linter) canEscape(from, to int) bool {
 	labels := l.getAllLabels()
 
@@ -291,7 +303,8 @@ func (r DuplicateLabelsRule) Desc() string {
 
 func (r DuplicateLabelsRule) Run(l *Linter) {
 	labels := l.getAllLabels()
-	for name, lines := range labels {
+	for _, name := range sortedNames(labels) {
+		lines := labels[name]
 		if len(lines) > 1 {
 			for _, line := range lines {
 				l.errs = append(l.errs, DuplicateLabelError{l: line, name: name, rule: r.Id()})
@@ -313,9 +326,10 @@ func (r UnusedLabelsRule) Desc() string {
 
 func (r UnusedLabelsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
-	for name, lines := range l.getAllLabels() {
+	labels := l.getAllLabels()
+	for _, name := range sortedNames(labels) {
 		if len(used[name]) == 0 {
-			for _, line := range lines {
+			for _, line := range labels[name] {
 				l.errs = append(l.errs, &UnusedLabelError{l: line, name: name, rule: r.Id()})
 				l.reds = append(l.reds, &RedundantLabelLine{line: line, name: name})
 			}
@@ -433,10 +447,10 @@ func (r CheckLoopsRule) Run(l *Linter) {
 	used := l.getLabelsUsers()
 	all := l.getAllLabels()
 
-	for name, users := range used {
+	for _, name := range sortedNames(used) {
 		_, ok := all[name]
 		if !ok {
-			for _, user := range users {
+			for _, user := range used[name] {
 				l.errs = append(l.errs, MissingLabelError{l: user, name: name, rule: r.Id()})
 			}
 		}
-- 
2.43.0


From 5371ef4b733c5449468c83762d03783d6f5fb060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:37 +0000
Subject: [PATCH 17/62] fix: offer completions in a reproducible order

They came in hash map order and differed from request to request.
---
 lsp/lsp.go | 10 +++++++++-
 process.go | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 814d93c..dcefc75 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"net/http"
 	"net/textproto"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -1492,7 +1493,14 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 					InsertTextFormat: snippetFormat,
 				})
 
-				for name, info := range teal.Ops.Items {
+				names := []string{}
+				for name := range teal.Ops.Items {
+					names = append(names, name)
+				}
+				sort.Strings(names)
+
+				for _, name := range names {
+					info := teal.Ops.Items[name]
 					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
diff --git a/process.go b/process.go
index 5c46b29..7caf601 100644
--- a/process.go
+++ b/process.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"sort"
 	"strconv"
 	"strings"
 	"unicode"
@@ -226,6 +227,8 @@ func init() {
 			}
 		}
 
+		sortArgVals(vals)
+
 		res[t] = vals
 		res2[t] = vals2
 	}
@@ -2773,6 +2776,17 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	return ihs
 }
 
+// sortArgVals makes the order of values that come from a map reproducible
+func sortArgVals(vals []opItemArgVal) {
+	sort.Slice(vals, func(i, j int) bool {
+		if vals[i].Value != vals[j].Value {
+			return vals[i].Value < vals[j].Value
+		}
+
+		return vals[i].Name < vals[j].Name
+	})
+}
+
 func (r ProcessResult) ArgVals(arg opItemArg) []opItemArgVal {
 	var res []opItemArgVal
 
@@ -2801,6 +2815,7 @@ func (r ProcessResult) ArgVals(arg opItemArg) []opItemArgVal {
 				Value: value,
 			})
 		}
+		sortArgVals(res)
 	default:
 		for _, v := range OpArgVals[arg.Type] {
 			if r.Version >= v.Version {
-- 
2.43.0


From 3ed817bd56ce0df04da74e0bdd27a42a79f362d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 18/62] fix: report breakpoint stops reproducibly and list each
 hit once

Which of several stopped branches was reported depended on hash map
order, and a breakpoint after a label was listed several times.
---
 dbg/dbg.go | 8 +++++---
 vm.go      | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index f089018..87b2906 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -543,9 +543,11 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 					if _, ok := ids[creq.Arguments.ThreadId]; ok {
 						tid = creq.Arguments.ThreadId
 					} else {
-						for id := range l.vm.tvm.Triggered {
-							tid = id
-							break
+						for _, b := range l.vm.tvm.Branches {
+							if _, ok := ids[b.Id]; ok {
+								tid = b.Id
+								break
+							}
 						}
 					}
 
diff --git a/vm.go b/vm.go
index a5fb970..9a65eff 100644
--- a/vm.go
+++ b/vm.go
@@ -331,7 +331,7 @@ func (v *Vm) find(target string) int {
 func (v *Vm) updateBreakpoints(br *VmBranch) {
 	for _, bp := range v.Breakpoints {
 		if br.Line == bp.Line {
-			v.Triggered[br.Id] = append(v.Triggered[br.Id], br.Line)
+			v.Triggered[br.Id] = []int{br.Line}
 		}
 	}
 }
-- 
2.43.0


From e6feb13bea7a0401324c643992d5a28522d22f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:20 +0000
Subject: [PATCH 19/62] fix: count columns in UTF-16 code units

The language server protocol (and SARIF) count characters in UTF-16 code
units; byte columns made rename and the quick fixes corrupt lines with
non-ASCII characters.
---
 lexer.go   | 46 ++++++++++++++++++++++++++++------------------
 lsp/lsp.go | 12 ++++++------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..73f670e 100644
--- a/lexer.go
+++ b/lexer.go
@@ -66,8 +66,8 @@ type Lexer struct {
 	i int // current index
 
 	l  int // current line index
-	lb int // current line begin index in source
-	li int // current index in the current line
+	lp int // previous column in the current line (in UTF-16 code units)
+	li int // current column in the current line (in UTF-16 code units)
 
 	ts  []Token // tokens
 	tsi int     // tokens index
@@ -86,29 +86,39 @@ func (z *Lexer) fail(msg string) {
 	})
 }
 
+// inc skips a character of n bytes
 func (z *Lexer) inc(n int) {
 	z.i += n
-	z.li += n
+	z.li++
+
+	if n == utf8.UTFMax {
+		z.li++ // a surrogate pair
+	}
+}
+
+// mark makes the current position the beginning of the next token
+func (z *Lexer) mark() {
+	z.p = z.i
+	z.lp = z.li
 }
 
 func (z *Lexer) emit(t TokenType) {
 	z.ts = append(z.ts, Token{
 		l: z.l,
-		b: z.p - z.lb,
-		e: z.i - z.lb,
+		b: z.lp,
+		e: z.li,
 
 		v: string(z.Source[z.p:z.i]),
 		t: t,
 	})
 
-	z.p = z.i
-
 	switch t {
 	case TokenEol:
 		z.l++
 		z.li = 0
-		z.lb = z.i
 	}
+
+	z.mark()
 }
 
 func isTerminating(c rune) bool {
@@ -174,14 +184,14 @@ func (z *Lexer) readValue() {
 
 				z.ts = append(z.ts, Token{
 					l: z.l,
-					b: z.p - z.lb,
-					e: z.i - z.lb,
+					b: z.lp,
+					e: z.li,
 
 					v: v,
 					t: TokenValue,
 				})
 
-				z.p = z.i
+				z.mark()
 				return
 			}
 
@@ -219,7 +229,7 @@ func (z *Lexer) skipWhitespace() {
 		}
 
 		z.inc(n)
-		z.p = z.i
+		z.mark()
 	}
 }
 
@@ -234,14 +244,14 @@ func (z *Lexer) readComment() {
 
 			z.ts = append(z.ts, Token{
 				l: z.l,
-				b: z.p - z.lb,
-				e: z.i - z.lb,
+				b: z.lp,
+				e: z.li,
 
 				v: string(z.Source[z.p+2 : z.i]),
 				t: TokenComment,
 			})
 
-			z.p = z.i
+			z.mark()
 			return
 		}
 
@@ -255,14 +265,14 @@ func (z *Lexer) readComment() {
 			if c == '\r' || c == '\n' {
 				z.ts = append(z.ts, Token{
 					l: z.l,
-					b: z.p - z.lb,
-					e: z.i - z.lb,
+					b: z.lp,
+					e: z.li,
 
 					v: string(z.Source[z.p+2 : z.i]),
 					t: TokenComment,
 				})
 
-				z.p = z.i
+				z.mark()
 				return
 			}
 		}
diff --git a/lsp/lsp.go b/lsp/lsp.go
index dcefc75..b0aabd4 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1174,7 +1174,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1,
 						},
 					},
 					Placeholder: sym.Name(),
@@ -1190,7 +1190,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 						},
 						End: lspPosition{
 							Line:      ref.Line(),
-							Character: ref.Begin() + len(ref.String()),
+							Character: ref.End(),
 						},
 					},
 					Placeholder: ref.String(),
@@ -1221,7 +1221,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 							},
 							End: lspPosition{
 								Line:      sym.Line(),
-								Character: sym.Begin() + len(sym.Name()),
+								Character: sym.End() - 1,
 							},
 						},
 						NewText: req.Params.NewName,
@@ -1254,7 +1254,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 							},
 							End: lspPosition{
 								Line:      sym.Line(),
-								Character: sym.Begin() + len(sym.Name()),
+								Character: sym.End() - 1,
 							},
 						},
 						NewText: req.Params.NewName,
@@ -1596,7 +1596,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1,
 						},
 					},
 				})
@@ -1874,7 +1874,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 						},
 						End: lspPosition{
 							Line:      sym.Line(),
-							Character: sym.Begin() + len(sym.Name()),
+							Character: sym.End() - 1,
 						},
 					},
 					Kind: kind,
-- 
2.43.0


From 9b335bf0b52548a812546593016a912569fb05dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:31 +0000
Subject: [PATCH 20/62] fix: end an incomplete string at the end of its line

The lexer read on to the next quote in some later line without counting
the lines in between: all later positions were wrong, and edits computed
from them corrupted the document.
---
 lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lexer.go b/lexer.go
index 73f670e..455eff3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -176,6 +176,12 @@ func (z *Lexer) readValue() {
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From b7758828de4ee01a971fcd32d0481ab371047493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:50 +0000
Subject: [PATCH 21/62] fix: do not exit when a document with a very long line
 is formatted

The formatter ends the process when it meets a line of 64 KiB.
---
 lsp/lsp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index b0aabd4..961bd27 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1615,6 +1615,13 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				return err
 			}
 
+			for _, ln := range strings.Split(doc.s, "\n") {
+				// tealfmt exits the process when a line does not fit its scanner
+				if len(ln) >= bufio.MaxScanTokenSize {
+					return l.success(h.Id, []lspTextEdit{})
+				}
+			}
+
 			formatted := tealfmt.Format(strings.NewReader(doc.s))
 
 			return l.success(h.Id, []lspTextEdit{
-- 
2.43.0


From 1f283985ed3b430f41d18da90028660eaa90fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:15 +0000
Subject: [PATCH 22/62] fix: limit the number of debugger branches

continue on a conditional loop forked a branch per iteration of every path
and never came back.
---
 vm.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vm.go b/vm.go
index 9a65eff..584c8b6 100644
--- a/vm.go
+++ b/vm.go
@@ -12,6 +12,10 @@ const (
 	MainName = "(main)"
 	ExitLine = -1
 	ExitName = "(exited)"
+
+	// MaxBranches limits the number of execution paths: conditional loops
+	// double it with every iteration
+	MaxBranches = 10000
 )
 
 type VmFrame struct {
@@ -261,6 +265,10 @@ type VmBranch struct {
 }
 
 func (b *VmBranch) fork(target string) {
+	if len(b.vm.Branches) >= MaxBranches {
+		panic(errors.Errorf("too many branches - limit: %d", MaxBranches))
+	}
+
 	nb := &VmBranch{
 		Id:      b.vm.Id,
 		vm:      b.vm,
-- 
2.43.0


From d1d50a85eb83e1e0003631694e31b52900803c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 23/62] fix: keep backslashes when a hex literal is replaced
 with a string

The quick fix did not escape them, and the lexer took the quote after an
escaped backslash for an escaped one.
---
 lexer.go   | 6 +++++-
 lsp/lsp.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 455eff3..04d78d3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -203,7 +203,11 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			if p == '\\' && c == '\\' {
+				p = 0 // an escaped backslash does not escape the next character
+			} else {
+				p = c
+			}
 		}
 	} else {
 		for {
diff --git a/lsp/lsp.go b/lsp/lsp.go
index 961bd27..eea1530 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1806,7 +1806,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 										Character: named.T.End(),
 									},
 								},
-								Value: fmt.Sprintf("\"%s\"", strings.ReplaceAll(named.Value, "\"", "\\\"")),
+								Value: fmt.Sprintf("\"%s\"", strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(named.Value)),
 							},
 						},
 					},
-- 
2.43.0


From 57f11d1f64828ae1c463db7c7e2ecd025e3d3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 24/62] fix: do not overwrite the last line when a label is
 created

The edit replaced text when the document ends in white space or in an
unterminated string.
---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index eea1530..225feda 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1136,7 +1136,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 											},
 											End: lspPosition{
 												Line:      len(res.Lines),
-												Character: len(s),
+												Character: 0,
 											},
 										},
 										NewText: s,
-- 
2.43.0


From cf9348c606a946152c2de5bd133248d9f7d2de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:15 +0000
Subject: [PATCH 25/62] fix: do not require the debug file E:/dbg.txt in
 tealdbg

Without -debug the adapter did not start where drive E: does not exist.
---
 cmd/tealdbg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tealdbg/main.go b/cmd/tealdbg/main.go
index 714dd8b..225ae7e 100644
--- a/cmd/tealdbg/main.go
+++ b/cmd/tealdbg/main.go
@@ -58,7 +58,7 @@ func main() {
 
 	flag.StringVar(&a.Net, "net", "tcp", "client network")
 	flag.StringVar(&a.Addr, "addr", "", "client address")
-	flag.StringVar(&a.Debug, "debug", "E:/dbg.txt", "debug file path")
+	flag.StringVar(&a.Debug, "debug", "", "debug file path")
 
 	flag.Parse()
 
-- 
2.43.0


From 93e5be11903faac6904b90472d04344aa379a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:44 +0000
Subject: [PATCH 26/62] fix: drop the locals and arguments of a subroutine with
 a proto on retsub

---
 expr.go | 24 +++++++++++-------------
 vm.go   |  8 +++++---
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/expr.go b/expr.go
index d70c6ad..0ff67ab 100644
--- a/expr.go
+++ b/expr.go
@@ -1647,18 +1647,16 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 	if len(b.Frames) > 0 {
 		f := b.Frames[len(b.Frames)-1]
 
-		rs := []VmValue{}
+		if f.proto {
+			// the results replace the arguments and everything above them
+			s := f.p - int(f.NumArgs)
+			r := len(b.Stack.Items) - int(f.NumReturns)
 
-		for i := uint8(0); i < f.NumReturns; i++ {
-			rs = append(rs, b.pop(VmTypeAny))
-		}
-
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
-		}
+			if s < 0 || r < f.p {
+				panic(fmt.Sprintf("retsub with stack below frame - proto: %d %d", f.NumArgs, f.NumReturns))
+			}
 
-		for i := len(rs) - 1; i >= 0; i-- {
-			b.push(rs[i])
+			b.Stack.Items = append(b.Stack.Items[:s], b.Stack.Items[r:]...)
 		}
 
 		b.Line = f.Return + 1
@@ -1848,7 +1846,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2460,7 +2458,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2477,7 +2475,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
diff --git a/vm.go b/vm.go
index 584c8b6..df2f3f1 100644
--- a/vm.go
+++ b/vm.go
@@ -22,7 +22,8 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
+	proto      bool
 	Name       string
 }
 
@@ -200,10 +201,11 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
 	f.NumArgs = a
 	f.NumReturns = r
+	f.proto = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -292,7 +294,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From b29fc8a27dea20eff7812fcf75060c4eab2beafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:48 +0000
Subject: [PATCH 27/62] fix: process a complete message whose last bytes arrive
 with a read error

---
 dbg/dbg.go | 5 ++++-
 lsp/lsp.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 87b2906..7f9b3e2 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -841,7 +841,10 @@ func (l *dbg) Run() (int, error) {
 
 			// the length is not trusted: memory grows with the received data
 			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
-			if err == nil && len(data) < length {
+			if len(data) == length {
+				// an error that comes with the last bytes shows at the next read
+				err = nil
+			} else if err == nil {
 				err = io.ErrUnexpectedEOF
 			}
 			if err != nil {
diff --git a/lsp/lsp.go b/lsp/lsp.go
index 225feda..4fd4596 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -2223,7 +2223,10 @@ func (l *lsp) Run() (int, error) {
 
 			// the length is not trusted: memory grows with the received data
 			data, err := io.ReadAll(io.LimitReader(l.tp.R, int64(length)))
-			if err == nil && len(data) < length {
+			if len(data) == length {
+				// an error that comes with the last bytes shows at the next read
+				err = nil
+			} else if err == nil {
 				err = io.ErrUnexpectedEOF
 			}
 			if err != nil {
-- 
2.43.0


From 960f885d835a4e24eba74c0abbc4c8c9dcb8c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 28/62] fix: apply a document change as a whole or not at all

---
 lsp/lsp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 4fd4596..52c1b25 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -852,6 +852,12 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 			return err
 		}
 
+		for _, ch := range req.Params.ContentChanges {
+			if ch == nil { // a change is applied as a whole or not at all
+				return errors.New("missing content change")
+			}
+		}
+
 		for _, ch := range req.Params.ContentChanges {
 			doc := l.docs[req.Params.TextDocument.Uri]
 			if doc == nil {
-- 
2.43.0


From a31f902616efb195f157c09e0832526e77c8f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:56 +0000
Subject: [PATCH 29/62] fix: hover on a negative field number failed with an
 index out of range

---
 go_algorand.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/go_algorand.go b/go_algorand.go
index 9a99996..ce1f0da 100644
--- a/go_algorand.go
+++ b/go_algorand.go
@@ -631,7 +631,7 @@ const (
 )
 
 func txnFieldSpecByField(f TxnField) (txnFieldSpec, bool) {
-	if int(f) >= len(txnFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(txnFieldSpecs) {
 		return txnFieldSpec{}, false
 	}
 	return txnFieldSpecs[f], true
@@ -1005,7 +1005,7 @@ var globalFieldSpecs = [...]globalFieldSpec{
 }
 
 func globalFieldSpecByField(f GlobalField) (globalFieldSpec, bool) {
-	if int(f) >= len(globalFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(globalFieldSpecs) {
 		return globalFieldSpec{}, false
 	}
 	return globalFieldSpecs[f], true
@@ -1068,7 +1068,7 @@ var ecdsaCurveSpecs = [...]ecdsaCurveSpec{
 }
 
 func ecdsaCurveSpecByField(c EcdsaCurve) (ecdsaCurveSpec, bool) {
-	if int(c) >= len(ecdsaCurveSpecs) {
+	if int(c) < 0 || int(c) >= len(ecdsaCurveSpecs) {
 		return ecdsaCurveSpec{}, false
 	}
 	return ecdsaCurveSpecs[c], true
@@ -1114,7 +1114,7 @@ var base64EncodingSpecs = [...]base64EncodingSpec{
 }
 
 func base64EncodingSpecByField(e Base64Encoding) (base64EncodingSpec, bool) {
-	if int(e) >= len(base64EncodingSpecs) {
+	if int(e) < 0 || int(e) >= len(base64EncodingSpecs) {
 		return base64EncodingSpec{}, false
 	}
 	return base64EncodingSpecs[e], true
@@ -1181,7 +1181,7 @@ var jsonRefSpecs = [...]jsonRefSpec{
 }
 
 func jsonRefSpecByField(r JSONRefType) (jsonRefSpec, bool) {
-	if int(r) >= len(jsonRefSpecs) {
+	if int(r) < 0 || int(r) >= len(jsonRefSpecs) {
 		return jsonRefSpec{}, false
 	}
 	return jsonRefSpecs[r], true
@@ -1241,7 +1241,7 @@ var vrfStandardSpecs = [...]vrfStandardSpec{
 }
 
 func vrfStandardSpecByField(r VrfStandard) (vrfStandardSpec, bool) {
-	if int(r) >= len(vrfStandardSpecs) {
+	if int(r) < 0 || int(r) >= len(vrfStandardSpecs) {
 		return vrfStandardSpec{}, false
 	}
 	return vrfStandardSpecs[r], true
@@ -1313,7 +1313,7 @@ var blockFieldSpecs = [...]blockFieldSpec{
 }
 
 func blockFieldSpecByField(r BlockField) (blockFieldSpec, bool) {
-	if int(r) >= len(blockFieldSpecs) {
+	if int(r) < 0 || int(r) >= len(blockFieldSpecs) {
 		return blockFieldSpec{}, false
 	}
 	return blockFieldSpecs[r], true
@@ -1401,7 +1401,7 @@ var assetHoldingFieldSpecs = [...]assetHoldingFieldSpec{
 }
 
 func assetHoldingFieldSpecByField(f AssetHoldingField) (assetHoldingFieldSpec, bool) {
-	if int(f) >= len(assetHoldingFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetHoldingFieldSpecs) {
 		return assetHoldingFieldSpec{}, false
 	}
 	return assetHoldingFieldSpecs[f], true
@@ -1497,7 +1497,7 @@ var assetParamsFieldSpecs = [...]assetParamsFieldSpec{
 }
 
 func assetParamsFieldSpecByField(f AssetParamsField) (assetParamsFieldSpec, bool) {
-	if int(f) >= len(assetParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetParamsFieldSpecs) {
 		return assetParamsFieldSpec{}, false
 	}
 	return assetParamsFieldSpecs[f], true
@@ -1585,7 +1585,7 @@ var appParamsFieldSpecs = [...]appParamsFieldSpec{
 }
 
 func appParamsFieldSpecByField(f AppParamsField) (appParamsFieldSpec, bool) {
-	if int(f) >= len(appParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(appParamsFieldSpecs) {
 		return appParamsFieldSpec{}, false
 	}
 	return appParamsFieldSpecs[f], true
@@ -1687,7 +1687,7 @@ var acctParamsFieldSpecs = [...]acctParamsFieldSpec{
 }
 
 func acctParamsFieldSpecByField(f AcctParamsField) (acctParamsFieldSpec, bool) {
-	if int(f) >= len(acctParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(acctParamsFieldSpecs) {
 		return acctParamsFieldSpec{}, false
 	}
 	return acctParamsFieldSpecs[f], true
@@ -2176,7 +2176,7 @@ var ecGroupSpecs = [...]ecGroupSpec{
 }
 
 func ecGroupSpecByField(c EcGroup) (ecGroupSpec, bool) {
-	if int(c) >= len(ecGroupSpecs) {
+	if int(c) < 0 || int(c) >= len(ecGroupSpecs) {
 		return ecGroupSpec{}, false
 	}
 	return ecGroupSpecs[c], true
-- 
2.43.0


From 3ae5a3fd8a5d9e800ccbce4c32b5f59095811a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 30/62] fix: numbers of intcblock and pushints were reported
 twice as semantic tokens

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index 7caf601..ea7447a 100644
--- a/process.go
+++ b/process.go
@@ -1134,7 +1134,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From dd656d82daee55361e3526b95b6cfac24248921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 31/62] fix: formatting left the end of a document whose last
 line is blank

---
 lsp/lsp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 52c1b25..7eace30 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1616,7 +1616,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				return err
 			}
 
-			doc, res, err := l.prepare(req.Params.TextDocument.Uri)
+			doc, _, err := l.prepare(req.Params.TextDocument.Uri)
 			if err != nil {
 				return err
 			}
@@ -1638,7 +1638,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 							Character: 0,
 						},
 						End: lspPosition{
-							Line:      len(res.Lines),
+							Line:      len(splitLines(doc.s)),
 							Character: 0,
 						},
 					},
-- 
2.43.0


From 73803e4cd4b4bc1c81a39ebc60dc5d401c6700d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:33 +0000
Subject: [PATCH 32/62] fix: the stack trace reported a total of one frame for
 any number of frames

---
 dbg/dbg.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 7f9b3e2..9c28396 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -756,12 +756,11 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 				}
 			}
 
-			one := new(int)
-			*one = 1
+			total := len(sf)
 
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
-				TotalFrames: one,
+				TotalFrames: &total,
 			}, nil)
 		default:
 			return errors.Errorf("unknown command: %s", req.Command)
-- 
2.43.0


From 476f52d357c02adc2ed2708dfaa4fb0af938c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:13 +0000
Subject: [PATCH 33/62] fix: json_ref was charged for the length of the key
 instead of the JSON text

---
 expr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 0ff67ab..24aed59 100644
--- a/expr.go
+++ b/expr.go
@@ -2005,11 +2005,11 @@ type JsonRefExpr struct {
 }
 
 func (e *JsonRefExpr) Cost(b *VmBranch) []int {
-	v := b.peek(0)
+	v := b.peek(1) // the JSON text, below the key
 
 	costs := []int{}
 	for _, l := range v.Lengths() {
-		cost := 25 + 2*l/7
+		cost := 25 + 2*(l/7)
 		if l%7 > 0 {
 			cost += 2
 		}
-- 
2.43.0


From 75c5fa552adceb3dbd0338c8db83434cdf5cde29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:39 +0000
Subject: [PATCH 34/62] fix: b-, b| and itxna did not change the debugger's
 stack

---
 expr.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/expr.go b/expr.go
index 24aed59..c202a16 100644
--- a/expr.go
+++ b/expr.go
@@ -2096,6 +2096,18 @@ type ItxnaExpr struct {
 	Index uint8
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
@@ -3209,6 +3221,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3527,6 +3547,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From 7ebbfebf07f0a0e8a9fde09c90cc8819666ed3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:58 +0000
Subject: [PATCH 35/62] fix: extract_uint64 did not change the debugger's stack

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index c202a16..b76fe91 100644
--- a/expr.go
+++ b/expr.go
@@ -1926,7 +1926,7 @@ func (e *Extract64BitsExpr) String() string {
 	return "extract_uint64"
 }
 
-func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeBytes)
 	b.push(VmValue{T: VmTypeUint64})
-- 
2.43.0


From 36263ffcf90679229f4da2a03b7d27f11f30488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:00 +0000
Subject: [PATCH 36/62] fix: the debugger refused bitlen of a number

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index b76fe91..30c4d65 100644
--- a/expr.go
+++ b/expr.go
@@ -2060,7 +2060,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
-- 
2.43.0


From 749ce37446f25300c3b19c6d1c4a5abe29385d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:18 +0000
Subject: [PATCH 37/62] fix: dup2 swapped the duplicated values on the
 debugger's stack

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 30c4d65..5fb4e1b 100644
--- a/expr.go
+++ b/expr.go
@@ -3368,10 +3368,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From 14e92b1f15faadf5a4c3a5374a7e36c358c6ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:22 +0000
Subject: [PATCH 38/62] fix: bury counted its depth from the bottom of the
 debugger's stack

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 5fb4e1b..390b451 100644
--- a/expr.go
+++ b/expr.go
@@ -1846,7 +1846,7 @@ type BuryExpr struct {
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	b.replace(int(e.Depth), v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From 4958616fab5aa1b97ca35aabd9f9164f34f6ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:26 +0000
Subject: [PATCH 39/62] fix: dig read the wrong value of a debugger's stack of
 256 or more values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 390b451..9b020a9 100644
--- a/expr.go
+++ b/expr.go
@@ -3201,7 +3201,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.Stack.Items[len(b.Stack.Items)-1-int(e.Index)]
 	b.push(v)
 	b.Line++
 	return nil
-- 
2.43.0


From ba31d04cb9ce9baf845419ca90d8fb4540898ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:30 +0000
Subject: [PATCH 40/62] fix: pushints pushed byte strings in the debugger

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 9b020a9..ceb930c 100644
--- a/expr.go
+++ b/expr.go
@@ -2217,7 +2217,7 @@ type PushIntsExpr struct {
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
 	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+		b.push(VmValue{T: VmTypeUint64})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From 0b15cb130d5c8753403421c47019d52301621de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:33 +0000
Subject: [PATCH 41/62] fix: the debugger refused getbit of a byte string

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index ceb930c..0adce1e 100644
--- a/expr.go
+++ b/expr.go
@@ -3148,7 +3148,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 5eefc34cf3ba1494c30064751c344fef4d6e2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:35 +0000
Subject: [PATCH 42/62] fix: the debugger refused setbit of a byte string

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 0adce1e..02e5fcb 100644
--- a/expr.go
+++ b/expr.go
@@ -3165,7 +3165,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
-- 
2.43.0


From 5227ce59a01548be25469914bb4244f0b1c370f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:37 +0000
Subject: [PATCH 43/62] fix: the debugger refused app_opted_in of an address

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 02e5fcb..5463c4f 100644
--- a/expr.go
+++ b/expr.go
@@ -3718,7 +3718,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From eab1e1f3f3c352621a5b419e77e38dd6321b5218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:39 +0000
Subject: [PATCH 44/62] fix: addr did not change the debugger's stack

---
 expr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr.go b/expr.go
index 5463c4f..d7b634f 100644
--- a/expr.go
+++ b/expr.go
@@ -2252,6 +2252,12 @@ type AddrExpr struct {
 	Address string
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
-- 
2.43.0


From 075666b1dd3f3658da3235d1fec616b56f80ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:53 +0000
Subject: [PATCH 45/62] fix: replace2 was shown as repace2 in the debugger's
 trace

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index d7b634f..efe433b 100644
--- a/expr.go
+++ b/expr.go
@@ -1941,7 +1941,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
-- 
2.43.0


From c301c0daee87cefd80d64ed89d5ff52e6a8b0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:41 +0000
Subject: [PATCH 46/62] fix: pushints was shown as pushbytess in the debugger's
 trace

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index efe433b..90d9dd1 100644
--- a/expr.go
+++ b/expr.go
@@ -2230,7 +2230,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
-- 
2.43.0


From 84150032a87247f86033bf0e87d6c94888b1ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:44 +0000
Subject: [PATCH 47/62] fix: gtxnas was shown with its arguments swapped

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 90d9dd1..7ac5788 100644
--- a/expr.go
+++ b/expr.go
@@ -2132,7 +2132,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From 30e4d6e90f5587618e59fb0c00e0ad4baa1d76e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:39 +0000
Subject: [PATCH 48/62] fix: dupn 255 never finished in the debugger

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 7ac5788..982a731 100644
--- a/expr.go
+++ b/expr.go
@@ -1881,7 +1881,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From b2033c83b86c8e6feb87f628150c9dbcc9881d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:11 +0000
Subject: [PATCH 49/62] fix: a scan of a link to a directory reported nothing

---
 cmd/tealsarif/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 119f737..eb1bbea 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -84,7 +84,8 @@ func run(a args) error {
 	}
 
 	if fi.IsDir() {
-		err := filepath.WalkDir(a.Path, func(path string, d fs.DirEntry, err error) error {
+		// the separator makes a link to a directory stand for the directory
+		err := filepath.WalkDir(a.Path+string(filepath.Separator), func(path string, d fs.DirEntry, err error) error {
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 62be54af12ff4b9a11cac8c0696c217f7ee2b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:35 +0000
Subject: [PATCH 50/62] fix: completion offered opcodes that the program's mode
 does not have

---
 lsp/lsp.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 7eace30..ebce0f0 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1507,7 +1507,13 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 
 				for _, name := range names {
 					info := teal.Ops.Items[name]
-					if info.AppVersion <= res.Version && strings.HasPrefix(name, prefix) {
+
+					min := info.AppVersion
+					if res.Mode == teal.ModeSig {
+						min = info.SigVersion
+					}
+
+					if min > 0 && min <= res.Version && strings.HasPrefix(name, prefix) {
 						var insert string
 						var format *int
 						if len(info.Args) > 0 {
@@ -1527,7 +1533,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 							format = nil
 						}
 
-						ld := fmt.Sprintf("v%d", info.AppVersion)
+						ld := fmt.Sprintf("v%d", min)
 						ccs = append(ccs, lspCompletionItem{
 							Label: name,
 							Documentation: lspMarkupContent{
-- 
2.43.0


From 93d4291e87b446e1fa76a82bbd86caf7745dd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:54 +0000
Subject: [PATCH 51/62] fix: array fields were accepted in versions that do not
 have them

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 3fe6681d5a03504222e285d2e0854fa9075d61ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:30 +0000
Subject: [PATCH 52/62] fix: args was offered to applications instead of logic
 signatures

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index ea7447a..b6a49e1 100644
--- a/process.go
+++ b/process.go
@@ -2461,8 +2461,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From 561582489068d4b6ef11eb61952f7ccc61e770de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 53/62] fix: gitxna accepted group indexes above 255

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index b6a49e1..a98e644 100644
--- a/process.go
+++ b/process.go
@@ -2402,11 +2402,11 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-	c.emit(&GitxnaExpr{Group: uint8(t), Field: f, Index: uint8(i)})
+	c.emit(&GitxnaExpr{Group: t, Field: f, Index: uint8(i)})
 
 }
 func opBoxCreate(c ProcessContext) {
-- 
2.43.0


From 99191eb72808df30757a60b2b2562f9f5b3fd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:49 +0000
Subject: [PATCH 54/62] fix: hints and quick fixes were missing for parts that
 end in a short line

---
 lsp/lsp.go |  4 ++--
 process.go |  2 +-
 range.go   | 12 ++++++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index ebce0f0..00f3b83 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -1746,7 +1746,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 			}
 
 			for _, ref := range res.MissRefs {
-				if !teal.Overlaps(req.Params.Range, ref) {
+				if !teal.Intersects(req.Params.Range, ref) {
 					continue
 				}
 
@@ -1828,7 +1828,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 			{
 				kind := "quickfix"
 				for _, v := range res.Versions {
-					if teal.Overlaps(req.Params.Range, v) {
+					if teal.Intersects(req.Params.Range, v) {
 						cas = append(cas, lspCodeAction{
 							Title: fmt.Sprintf("Update version to %d", v.Version),
 							Kind:  &kind,
diff --git a/process.go b/process.go
index a98e644..623d859 100644
--- a/process.go
+++ b/process.go
@@ -2700,7 +2700,7 @@ func (r ProcessResult) InlayHints(rg Range) InlayHints {
 		}
 
 		for i, tok := range ln {
-			if !Overlaps(tok, rg) {
+			if !Intersects(tok, rg) {
 				continue
 			}
 
diff --git a/range.go b/range.go
index 140e4e3..c3ed101 100644
--- a/range.go
+++ b/range.go
@@ -12,6 +12,18 @@ func Overlaps(a, b Range) bool {
 		a.StartLine() <= b.EndLine() && b.StartLine() <= a.EndLine()
 }
 
+func before(l, ch int, ol, och int) bool {
+	return l < ol || l == ol && ch < och
+}
+
+// Intersects tells whether the ranges share a position in the document; unlike
+// Overlaps, a range of several lines includes all characters of the lines
+// between its ends
+func Intersects(a, b Range) bool {
+	return !before(a.EndLine(), a.EndCharacter(), b.StartLine(), b.StartCharacter()) &&
+		!before(b.EndLine(), b.EndCharacter(), a.StartLine(), a.StartCharacter())
+}
+
 type LineRange int
 
 func (r LineRange) StartLine() int {
-- 
2.43.0


From d1fd93198ba16ead9e1fec1a7d11ac49d3c00c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:18 +0000
Subject: [PATCH 55/62] fix: the signature of an instruction with optional
 operands lacked its closing bracket

---
 process.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/process.go b/process.go
index 623d859..7b5dca7 100644
--- a/process.go
+++ b/process.go
@@ -1489,6 +1489,7 @@ var Ops = func() *opItems {
 
 				if arg.Optional {
 					if !optional {
+						optional = true
 						name = "[" + name
 					}
 				}
-- 
2.43.0


From 83d48e1e0654d3db55f82886f63e822289034aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:26 +0000
Subject: [PATCH 56/62] fix: every page of the debugger's stack showed the
 whole stack

---
 dbg/dbg.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 9c28396..1055721 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -632,7 +632,9 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 									Value: strconv.Itoa(b.Budget),
 								})
 							case 1:
-								for i := len(b.Stack.Items) - 1; i >= 0; i-- {
+								s, e := vreq.Arguments.slice(len(b.Stack.Items))
+
+								for i := len(b.Stack.Items) - 1 - s; i >= len(b.Stack.Items)-e; i-- {
 									vs = append(vs, dapVariable{
 										Name:  strconv.Itoa(i),
 										Value: b.Stack.Items[i].String(),
-- 
2.43.0


From be9828c1edc04d2b9abdc7f7ed8d0ec5c62ef373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:40 +0000
Subject: [PATCH 57/62] fix: requests without a result were answered with an
 empty object or array

The protocol prescribes null for shutdown and for hover, signatureHelp and
prepareRename where there is nothing: an empty object lacks the members clients
rely on.
---
 lsp/lsp.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 00f3b83..b5d78be 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -716,6 +716,9 @@ func (l *lsp) fail(id interface{}, err interface{}) error {
 	return l.reply(id, nil, err)
 }
 
+// null is the result of requests that have nothing to return
+var null = json.RawMessage("null")
+
 func (l *lsp) success(id interface{}, result interface{}) error {
 	return l.reply(id, result, nil)
 }
@@ -884,7 +887,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 		switch h.Method {
 		case "shutdown":
 			l.shutdown = true
-			return l.success(h.Id, []struct{}{})
+			return l.success(h.Id, null)
 
 		case "$/cancelRequest":
 
@@ -1203,7 +1206,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				})
 			}
 
-			return l.success(h.Id, struct{}{})
+			return l.success(h.Id, null)
 
 		case "textDocument/rename":
 			req, err := read[lspRenameRequest](b)
@@ -1571,7 +1574,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				return err
 			}
 
-			var c interface{} = struct{}{}
+			var c interface{} = null
 
 			s := res.DocAt(req.Params.Position.Line, req.Params.Position.Character)
 			if s != "" {
@@ -1663,7 +1666,7 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				return err
 			}
 
-			var sh interface{} = struct{}{}
+			var sh interface{} = null
 			for _, op := range res.Ops {
 				if op.Line() == req.Params.Position.Line {
 					info, ok := teal.Ops.Get(teal.OpContext{
-- 
2.43.0


From 3034d41211c02c87b8b714297488f49e1a5d1202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:42 +0000
Subject: [PATCH 58/62] fix: every hover claimed to describe the beginning of
 the document

omitempty does not apply to structs, so an unset range was sent as 0:0-0:0.
---
 lsp/lsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index b5d78be..66128c2 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -621,7 +621,7 @@ type lspMarkupContent struct {
 
 type lspHover struct {
 	Contents lspMarkupContent `json:"contents"`
-	Range    lspRange         `json:"range,omitempty"`
+	Range    *lspRange        `json:"range,omitempty"`
 }
 
 type lspHoverRequestParams struct {
-- 
2.43.0


From 797a25e114665f461e44761830d7020cf6d06537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:07 +0000
Subject: [PATCH 59/62] fix: breakpoints set before a launch were answered with
 an empty list

The protocol prescribes one breakpoint for each that was requested.
---
 dbg/dbg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 1055721..0548e97 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -458,6 +458,12 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 						Source:   &ser.Arguments.Source,
 					})
 				}
+			} else {
+				for range ser.Arguments.Breakpoints {
+					bs = append(bs, dapBreakpoint{
+						Message: "no program is being debugged",
+					})
+				}
 			}
 
 			err = l.reply(h.Seq, req.Command, "", dapSetBreakpointsResponse{
-- 
2.43.0


From 0e578103d1395f12007495ae06340f08adcb6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:10 +0000
Subject: [PATCH 60/62] fix: evaluate and two kinds of breakpoint requests were
 answered without a body

Clients read the result, and the breakpoints, of a successful response.
---
 dbg/dbg.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index 0548e97..d7bfd48 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -168,6 +168,11 @@ type dapVariable struct {
 	VariablesReference int    `json:"variablesReference"`
 }
 
+type dapEvaluateResponse struct {
+	Result             string `json:"result"`
+	VariablesReference int    `json:"variablesReference"`
+}
+
 type dapScopesResponse struct {
 	Scopes []dapScope `json:"scopes"`
 }
@@ -415,9 +420,7 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 		case "disconnect":
 			return l.reply(h.Seq, req.Command, "", nil, nil)
 		case "evaluate":
-			return l.reply(h.Seq, req.Command, "", nil, nil)
-		case "setFunctionBreakpoints":
-			return l.reply(h.Seq, req.Command, "", nil, nil)
+			return l.reply(h.Seq, req.Command, "", dapEvaluateResponse{}, nil)
 		case "setBreakpoints":
 			ser, err := read[dapSetBreakpointsRequest](b)
 			if err != nil {
@@ -475,8 +478,18 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 
 			return nil
 
-		case "setInstructionBreakpoints":
-			return l.reply(h.Seq, req.Command, "", nil, nil)
+		case "setFunctionBreakpoints", "setInstructionBreakpoints":
+			ser, err := read[dapRequest[struct {
+				Breakpoints []struct{} `json:"breakpoints"`
+			}]](b)
+			if err != nil {
+				return err
+			}
+
+			// not supported, thus never verified
+			return l.reply(h.Seq, req.Command, "", dapSetBreakpointsResponse{
+				Breakpoints: make([]dapBreakpoint, len(ser.Arguments.Breakpoints)),
+			}, nil)
 		case "setExceptionBreakpoints":
 			return l.reply(h.Seq, req.Command, "", nil, nil)
 		case "threads":
-- 
2.43.0


From 48468c0e8159c599a3e4aa4fd4875add1345f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:14 +0000
Subject: [PATCH 61/62] fix: a label could be renamed to what is not a label
 name

The edits broke the program; the protocol prescribes an error for such names.
---
 lsp/lsp.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lsp/lsp.go b/lsp/lsp.go
index 66128c2..5a6c94b 100644
--- a/lsp/lsp.go
+++ b/lsp/lsp.go
@@ -803,6 +803,14 @@ func (l *lsp) prepare(uri string) (*lspDoc, *teal.ProcessResult, error) {
 	return doc, doc.Results(), nil
 }
 
+// isLabelName tells if a label can be defined, and referred to, by the name
+func isLabelName(name string) bool {
+	res := teal.Process(fmt.Sprintf("b %s\n%s:", name, name))
+
+	return len(res.Symbols) == 1 && res.Symbols[0].Name() == name &&
+		len(res.SymbolRefs) == 1 && res.SymbolRefs[0].String() == name
+}
+
 func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 	// a message that cannot be handled must not take the session down
 	defer func() {
@@ -1219,6 +1227,10 @@ func (l *lsp) handle(h jsonRpcHeader, b []byte) (err error) {
 				return err
 			}
 
+			if !isLabelName(req.Params.NewName) {
+				return errors.Errorf("invalid label name: %q", req.Params.NewName)
+			}
+
 			chs := []lspTextEdit{}
 			for _, edited := range res.SymbolsWithin(req.Params.Position) {
 				for _, sym := range res.SymByName(edited.Name()) {
-- 
2.43.0


From e5a21aa49ad4ef8f3e9e823e1db6ba1c125e5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:10 +0000
Subject: [PATCH 62/62] fix: the debug adapter ignored startFrame and levels of
 a stackTrace request

---
 dbg/dbg.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dbg/dbg.go b/dbg/dbg.go
index d7bfd48..00c475b 100644
--- a/dbg/dbg.go
+++ b/dbg/dbg.go
@@ -779,6 +779,19 @@ func (l *dbg) handle(h dapHeader, b []byte) (err error) {
 
 			total := len(sf)
 
+			if start := sreq.Arguments.StartFrame; start != nil && *start > 0 {
+				if *start < len(sf) {
+					sf = sf[*start:]
+				} else {
+					sf = []dapStackFrame{}
+				}
+			}
+
+			// zero levels means all of them
+			if levels := sreq.Arguments.Levels; levels != nil && *levels > 0 && *levels < len(sf) {
+				sf = sf[:*levels]
+			}
+
 			return l.reply(h.Seq, req.Command, "", dapStackTraceResponse{
 				StackFrames: sf,
 				TotalFrames: &total,
-- 
2.43.0

