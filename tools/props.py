#!/usr/bin/env python3
"""Writes ../properties.jsonl (kept as a script so that the statements are easy to review)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

LSP = "lsp/lsp.go"; DBG = "dbg/dbg.go"; VM = "vm.go"; EX = "expr.go"; PR = "process.go"
NOTEST = "The 13 existing tests call the lexer, parser, linter helpers and a line splitter once each on fixed strings; "

p("P01", "Replies do not depend on how the input byte stream is cut up",
  "For any sequence of well-framed client messages, the language server and the debug adapter produce byte-for-byte the same output however the transport delivers those bytes: one byte at a time, many messages in one read, a message of any size split at any point, empty reads, or the last bytes arriving together with end-of-stream. Extra header fields, header-name case, bare-LF header line ends and white space around the JSON of a message do not change the output either.",
  ["schedules", "inputs", "fault_sequences"],
  "for every message sequence and every segmentation of its bytes into reads, including segment and message sizes around internal buffer sizes",
  NOTEST + "none starts a server, so no segmentation of any stream is exercised.",
  [LSP, DBG], [("frame reader: headers, Content-Length, body", "lsp/lsp.go Run; dbg/dbg.go Run")],
  observe=["bytes written to the client stream"])

p("P02", "Every language-server request gets exactly one matching reply, in order",
  "Every request (a message with an id whose method is not a notification of the protocol) that the language server reads before it exits is answered by exactly one response carrying the same id and exactly one of result or error; responses come in request order, and notifications and client responses get none. Requests that cannot be served (unknown method or command, missing or ill-typed parameters, an unknown document, anything after shutdown) are answered with an error (diagnostics of an unknown document: with an empty report), and a well-formed request about an open document is answered with a result whatever its text is. Server-initiated requests carry ids that are never reused within the session.",
  ["histories", "inputs"],
  "for every interleaving of requests, notifications and client responses over any documents, with integer or string ids",
  NOTEST + "no test sends a JSON-RPC message.",
  [LSP], [("per-method dispatch and reply", "lsp/lsp.go handle"), ("error reply for failed requests", "lsp/lsp.go Run")],
  state=[("request counter", "ids of server-to-client requests", "lsp.id")],
  observe=["frames written to the client stream"])

p("P03", "Bad language-server input is contained",
  "No message content, document text or position crashes or hangs the language server: malformed JSON, ill-typed or missing fields, unknown methods, positions outside the document, Content-Length headers that are missing, negative or not a number and garbage header blocks are each dropped or answered with an error. Every other message of the session is processed exactly as if the bad one had never been sent.",
  ["inputs", "fault_sequences", "histories"],
  "for every session with bad messages injected at any points, and every document text",
  NOTEST + "they feed only a few well-formed programs to the analyser and nothing to the server.",
  [LSP, PR, "lexer.go"], [("per-message error handling", "lsp/lsp.go Run"), ("per-line recovery", "process.go Process")],
  observe=["frames written to the client stream", "termination of Run"])

p("P04", "Servers stop when input ends or exit arrives, with the right status",
  "When the input stream ends or fails for good at any byte, the language server and the debug adapter stop within a bounded number of steps, having fully processed every message that was completely received and nothing of the incomplete one. An exit notification stops the language server at once with status 0 if a shutdown request was received before it and 1 otherwise, and nothing sent after it is processed; after shutdown every further request except exit is refused.",
  ["crash_points", "fault_sequences", "histories"],
  "for every session cut off by end-of-stream or a persistent read error at every byte offset, and every placement of shutdown and exit",
  NOTEST + "no test ends a session, and no test injects a read error.",
  [LSP, DBG, "cmd/tealsp/main.go"], [("main loop exit conditions", "lsp/lsp.go Run; dbg/dbg.go Run"), ("shutdown/exit state", "lsp/lsp.go handle")],
  state=[("shutdown, exit, exitCode", "life-cycle of the session", "lsp struct")],
  observe=["return of Run and its status", "frames written", "number of reads after failure"])

p("P05", "Output is whole frames, prompt, and a clean prefix if writing fails",
  "Everything the language server and the debug adapter write is a sequence of complete frames whose Content-Length equals the byte length of a valid JSON body, and all output caused by a message is delivered before the next message is awaited, so a client that waits for each reply always makes progress. If writing fails or is cut short at any byte, what the client received is a prefix of the fault-free output, nothing is written after the failure (a short write that reports no error may be continued), and the server still reads on and stops as usual.",
  ["fault_sequences", "schedules", "inputs"],
  "for every session, every lock-step or pipelined client and every write failure or short write at any byte",
  NOTEST + "none writes to a stream.",
  [LSP, DBG], [("marshal, header, body, flush", "lsp/lsp.go write; dbg/dbg.go write")],
  observe=["bytes and write calls on the client stream"])

p("P06", "Answers depend only on the document's current text and the settings",
  "After any history of opening, changing (the last full-text change wins), saving, closing and re-opening documents, of other requests and of malformed messages, the language server answers every request about a document exactly as a freshly started server with the same settings would after opening just that document with its current text. Other open documents never influence an answer, and a closed document is treated as unknown.",
  ["histories", "inputs"],
  "for every edit history over several documents, including equal-length edits, reverts and several changes in one notification",
  NOTEST + "none opens or edits a document.",
  [LSP, PR], [("document table and cached analysis, invalidated on update", "lsp/lsp.go lspDoc.Update/Results, handle")],
  state=[("docs", "URI to text and cached analysis", "lsp.docs")],
  observe=["responses to requests"])

p("P07", "Label navigation and rename agree with the text as edited",
  "For any document reached through any edit history, rename invoked on any definition or use of a label returns edits that, when applied by the client, change exactly the definitions and uses of that label and nothing else, at positions counted in UTF-16 units as the protocol requires (a name that cannot be a label, such as one with white space in it, is refused with an error); documentHighlight marks exactly those occurrences, prepareRename the occurrence under the cursor, definition the label's definitions and documentSymbol every label. Comments, strings, line-end style and other labels are left alone, and the renamed document answers the same queries under the new name.",
  ["histories", "inputs"],
  "for every program with labels, every cursor position on a label occurrence and every sequence of edits and renames",
  NOTEST + "one test looks up one symbol in one line.",
  [LSP, PR, "lexer.go", "symbols.go"], [("token positions", "lexer.go"), ("symbols and references", "process.go"), ("rename/definition/highlight handlers", "lsp/lsp.go")],
  observe=["text after applying returned edits", "returned ranges"])

p("P08", "Applying an offered quick fix resolves exactly what it was offered for",
  "Executing the command of any code action makes the language server send one applyEdit request for that document whose edits, applied by the client, do what the action's title says: the redundant line or label line is removed, the missing label becomes defined, a number is replaced by the named constant of the same value and a hex literal by a string literal of the same bytes, or the version pragma (if there is one, it is numeric and comes first) becomes the requested version. No other line of the document changes, the fixed problem is no longer reported after the client sends the new text, and repeatedly applying fixes terminates.",
  ["histories", "inputs"],
  "for every program, every offered action and every interleaving with further edits",
  NOTEST + "two tests check that one redundant line is listed.",
  [LSP, PR, "linter.go"], [("codeAction and executeCommand handlers", "lsp/lsp.go"), ("redundant lines, missing references, inlay values, required versions", "process.go; linter.go")],
  observe=["applyEdit requests", "text after applying them", "diagnostics afterwards"])

p("P09", "Client settings switch exactly the features they name",
  "The initialize options for semantic tokens, named inlay hints, decoded inlay hints and reference lenses each switch exactly their own feature and the advertised capabilities that depend on it, for the rest of the session; options that are absent keep their previous (initially: on) value. With both hint kinds on, the hints are exactly those of the two kinds taken separately.",
  ["configurations", "histories"],
  "for every combination of present, absent, true and false options, repeated initialization and documents",
  NOTEST + "none sends initialize.",
  [LSP], [("initialize handler and config checks", "lsp/lsp.go")],
  state=[("config", "feature switches", "lsp.config")],
  observe=["initialize result", "inlayHint and codeLens results"])

p("P10", "Sessions running in one process do not affect each other",
  "Any number of language-server sessions, debug sessions and plain analysis calls that run in one process, interleaved at any points, each produce exactly the output they produce when run alone.",
  ["schedules", "histories"],
  "for every interleaving of several sessions at function and loop granularity",
  NOTEST + "nothing runs two sessions, let alone interleaved.",
  [LSP, DBG, PR, VM, EX], [("all state hangs off the session, document or VM; package tables are read-only after init", "lsp/lsp.go; dbg/dbg.go; process.go; langspec.go")],
  observe=["frames of every session"])

p("P11", "The same input always produces the same output",
  "Diagnostics, code actions, completion lists, hover texts, every other language-server or debug-adapter reply and SARIF reports are a function of the input alone: repeating a session or a scan in the same or another process yields byte-identical output.",
  ["schedules", "inputs"],
  "for every session and every order in which hash maps may be iterated, including at start-up",
  NOTEST + "each compares one run against constants; none compares two runs, and map order is not under their control.",
  ["linter.go", PR, LSP, DBG, "langspec.go", "cmd/tealsarif/main.go"], [("ordered iteration over tables", "linter.go; process.go; lsp/lsp.go")],
  observe=["bytes written by servers", "SARIF output"])

p("P12", "The debug log is faithful and never interferes",
  "With a debug log enabled, both servers send exactly the output they send without it, whatever the log's writer does (fails, writes short, stays broken). A working log records every message received and sent, verbatim and in order, and is complete whenever the server waits for the next message.",
  ["fault_sequences", "configurations"],
  "for every session and every sequence of log write failures",
  NOTEST + "none enables the log.",
  [LSP, DBG], [("trace", "lsp/lsp.go trace; dbg/dbg.go trace")],
  observe=["client stream with and without the log", "log contents"])

p("P13", "Every debug-adapter request gets exactly one response, correctly numbered",
  "The debug adapter answers every request it reads with exactly one response that echoes the request's seq and command, in request order and before any event the request causes; requests that cannot be served (unknown command, unreadable program) get success=false and a message. The seq numbers of everything the adapter sends are 1, 2, 3, ... without gaps, and events appear only as caused: initialized after initialize, process then stopped(entry) after launch, one stopped after each next, pause or finished continue of a launched program.",
  ["histories", "inputs", "fault_sequences"],
  "for every order of commands before and after launch, with file-system failures on launch",
  NOTEST + "no test touches the debug adapter.",
  [DBG], [("reply/notify with the message counter", "dbg/dbg.go reply, notify, handle")],
  state=[("id", "outgoing sequence number", "dbg.id")],
  observe=["frames written to the client stream"])

p("P14", "Bad debugger input and unreadable programs are contained",
  "No sequence of debug-adapter messages crashes or hangs the adapter: any command in any order, before or after launch, with unknown thread, frame, variable, line or slice numbers, malformed JSON, broken headers, or a program that cannot be read or is not valid TEAL. A message that is malformed or refused changes nothing: all later answers are the same as if it had not been sent, and a failed launch leaves the previously launched program as it was.",
  ["inputs", "fault_sequences", "histories"],
  "for every session with bad messages and file-system failures injected at any points",
  NOTEST + "no test touches the debug adapter.",
  [DBG, VM], [("per-message error handling", "dbg/dbg.go Run"), ("range checks", "dbg/dbg.go handle; vm.go SetBreakpoints")],
  observe=["frames written to the client stream", "termination of Run"])

p("P15", "Debugger branches are independent executions",
  "Each thread the debugger shows is one execution path of the program: its line, stack, scratch space, call frames, budget and trace are exactly those that executing that path alone would give, in whatever order the user steps the threads. At a branching instruction (bz, bnz, switch, match) the stepped thread and the newly created threads together stand for exactly the fall-through and each target, all continuing from the same state (up to the limit on the number of branches).",
  ["schedules", "programs"],
  "for every program and every order of stepping its threads",
  NOTEST + "one VM test checks the cost of one instruction on one path.",
  [VM, EX, DBG], [("branch fork copies the state", "vm.go fork, Step"), ("branching instructions", "expr.go Execute")],
  state=[("Branches", "live and exited execution paths", "Vm.Branches")],
  observe=["threads, stackTrace, scopes and variables answers after every step"])

p("P16", "One next request executes exactly one instruction of the chosen thread",
  "A next request for a live thread executes exactly one instruction of that thread (labels, comments and blank lines are passed over) and leaves every other existing thread untouched, and the stopped event names the stepped thread unless it has ended; an instruction that fails is reported as an exception, and the other threads can still be stepped as if it had not been. Inspection and configuration requests (threads, stackTrace, scopes, variables, evaluate, pause, setBreakpoints and the like) never change any thread's state nor the course of later requests, and repeating them gives the same answers.",
  ["schedules", "programs", "histories"],
  "for every program, every stepping order and every placement of inspection requests",
  NOTEST + "none steps through the debug adapter.",
  [VM, DBG], [("Switch and Step", "vm.go"), ("handlers", "dbg/dbg.go")],
  observe=["threads, stackTrace, scopes and variables answers around every request"])

p("P17", "Breakpoints stop the program on arrival, every time, and only then",
  "A breakpoint is reported verified exactly when its line holds an instruction, and the latest setBreakpoints request replaces all earlier ones. While continuing, the program stops as soon as any thread arrives at a line with a verified breakpoint, before executing it: the stopped event names a thread standing there and its hit list names exactly that line's breakpoint; if no breakpoint is reached, continue runs until every thread has finished or an error stops it, and never stops otherwise (up to the limit on the number of branches).",
  ["schedules", "programs", "histories"],
  "for every program, set of breakpoint lines and sequence of continue, next and setBreakpoints requests",
  NOTEST + "none sets a breakpoint.",
  [VM, DBG], [("breakpoint check on arrival", "vm.go updateBreakpoints, skipNops, Step, Run"), ("setBreakpoints/continue handlers", "dbg/dbg.go")],
  state=[("Breakpoints, Triggered", "active breakpoints and those just hit", "Vm")],
  observe=["setBreakpoints response", "stopped events", "thread lines when stopped"])

p("P18", "Budget accounting is exact per path and bounds every run",
  "Every thread starts from the budget of its path, 700 at the program's start, and each executed instruction lowers it by that instruction's cost; the displayed budget is never negative. A thread that cannot afford its next instruction ends without executing it, so every thread ends after a bounded number of instructions.",
  ["programs", "schedules"],
  "for every program, including unbounded loops and recursion, and every stepping order",
  NOTEST + "one test checks the cost of one instruction.",
  [VM, EX], [("cost and budget check in Step", "vm.go Step"), ("fork inherits the budget", "vm.go fork")],
  observe=["Budget variable, trace and thread state after every step"])

p("P19", "Subroutine calls return to their caller on every path",
  "callsub continues at the subroutine and retsub at the instruction after the most recent unreturned callsub of the same execution path, however deeply calls nest and wherever paths split; after a subroutine with a proto, its arguments are gone and its results remain on the caller's stack. The stack trace lists exactly the unreturned calls (of an ended thread: those it never returned from), innermost first, each with its call line and named after the label its execution last passed, and totalFrames counts them.",
  ["programs", "schedules"],
  "for every call structure with branches inside and outside subroutines and every stepping order",
  NOTEST + "none executes callsub or retsub.",
  [VM, EX, DBG], [("frames", "vm.go call, prepare, fork"), ("retsub, proto, frame_dig, frame_bury", "expr.go"), ("stackTrace handler", "dbg/dbg.go")],
  observe=["stackTrace and variables answers after every step"])

p("P20", "Each launch starts afresh from the file's current content",
  "A successful launch discards everything about the previous program (threads, stacks, scratch, budgets, breakpoints, errors) and debugs the program file as it is at that moment: from then on the adapter answers as a newly started adapter would after the same initialize and launch. Later changes to the file do not affect the running session.",
  ["histories", "fault_sequences"],
  "for every history before a launch, with the file rewritten, replaced or removed at any point",
  NOTEST + "none launches a program.",
  [DBG, VM], [("launch handler builds a new VM", "dbg/dbg.go"), ("NewVm", "vm.go")],
  observe=["frames after launch"])

p("P21", "A SARIF scan reports every file or fails",
  "tealsarif either exits with status 0 having written one complete, valid SARIF document that covers every .teal file under the given path, or exits non-zero; it never reports success when any directory or file could not be read or the report could not be fully written. It never modifies the scanned files.",
  ["fault_sequences", "inputs"],
  "for every directory tree and every failure of stat, directory reads, file reads and report writes at any point",
  NOTEST + "none runs the scanner.",
  ["cmd/tealsarif/main.go"], [("walk, read and report with error checks", "cmd/tealsarif/main.go run, main")],
  observe=["exit status", "standard output", "scanned tree afterwards"])

p("P22", "SARIF results are exactly the diagnostics of each scanned file",
  "In a SARIF report each .teal file under the path appears exactly once as an artifact, and its results are exactly the diagnostics the language server reports for that text: same messages, severities, lines and columns (one-based), the same rule ids for equal texts wherever they lie, each pointing at that file's URI and artifact index. A file's results do not depend on which other files are scanned or in what order, and every rule id used is declared.",
  ["inputs", "histories"],
  "for every directory tree of programs, including names with spaces or non-ASCII characters, nested directories, links and files with other extensions",
  NOTEST + "none runs the scanner.",
  ["cmd/tealsarif/main.go", PR, "linter.go"], [("artifact and result construction", "cmd/tealsarif/main.go run"), ("declared rules", "linter.go LintRules")],
  observe=["standard output"])

p("P23", "The command-line tools carry sessions faithfully and fail loudly",
  "tealsp (with or without its dbg mode) and tealdbg carry a session over standard input/output or over the TCP address they are given exactly as the embedded servers do, and exit with the server's status. If the connection or the debug file cannot be opened they exit non-zero without serving; a usable debug file receives the log.",
  ["configurations", "fault_sequences"],
  "for every session, transport choice and failure of dialing or of creating the debug file",
  NOTEST + "none runs the commands.",
  ["cmd/tealsp/main.go", "cmd/tealdbg/main.go"], [("flag handling, dialing, wiring", "cmd/tealsp/main.go; cmd/tealdbg/main.go")],
  observe=["exit status", "standard output or connection bytes", "debug file"])

p("P24", "Every range the language server sends lies in the client's current text",
  "After any history of opens, full-text changes, closes and requests over any documents, every position and range in the answers about an open document (diagnostics, definitions, references, highlights, symbols, lenses, hints, rename and quick-fix edits, prepared renames) names existing characters of the text the client holds at that moment: line and character counted from zero in UTF-16 units, inside the line, never within a surrogate pair, end not before start. Semantic tokens are sorted, do not overlap and stay within their line, and a formatting edit replaces exactly the whole document by the formatted text.",
  ["histories", "inputs"],
  "for every edit history over any documents and every request position, with texts of any characters and line ends",
  NOTEST + "only one semantic-token encoding and one line splitter are tested, on ASCII text, and nothing that is sent to a client.",
  [LSP, "semantics.go", "lexer.go", PR], [("token positions", "lexer.go inc"), ("ranges of replies", "lsp/lsp.go handle"), ("token encoding", "semantics.go"), ("whole-document edit", "lsp/lsp.go textDocument/formatting")],
  state=[("docs", "current text per URI", "lsp.docs")],
  observe=["ranges in frames written to the client stream"])

p("P25", "The debugger's stack, scratch space and budget follow the AVM's instructions",
  "On every path, each instruction the debugger executes takes the operands the AVM takes from that thread's stack and leaves what the AVM leaves: the same number of values, with their types (uint64, bytes, or any where the debugger does not track the type, as for values loaded from scratch space), constants and values moved or copied on the stack or into scratch space (dup, dig, bury, cover, uncover, swap, store and the like) keeping their identity, unrelated values and scratch slots untouched, the cost of the instruction taken from the budget and the instruction named in the trace. An instruction whose operands are certainly missing or of the wrong type stops with an exception instead of executing.",
  ["programs", "schedules"],
  "for every program over the instruction set and every order of stepping its threads",
  NOTEST + "one instruction's cost is tested; no stack effect is.",
  [EX, VM, DBG], [("Execute and Cost of every instruction", "expr.go"), ("push, pop, replace", "vm.go")],
  state=[("Stack, Scratch, Budget, Trace", "per-path machine state", "VmBranch")],
  observe=["variables answers after every step", "stopped events"])

p("P26", "What the editor is offered fits the document as edited",
  "In every edit history, what the language server offers for the current text fits it, and the client can accept it: an instruction completion offers exactly the instructions that begin with what was typed and are available in the document's version and mode, and the accepted one is not then refused; a field completion offers the fields the instruction accepts in that version, with the number each stands for, and every offered field is accepted; a label completion offers exactly the labels the text defines; an accepted snippet expands to a program without errors. Reference lenses stand on the definitions of used labels and count their uses. An inlay hint stands right behind its token: the name a numeric field means (replacing the number by the name keeps the meaning), or the text of a hexadecimal literal whose bytes are all printable ASCII, and nothing else gets one. Asked for a part of the document, the server gives the hints and quick fixes of the tokens inside it and none of tokens it does not touch. Signature help shows the instruction of the line, with a parameter for each operand it takes, and the operand at the cursor.",
  ["histories", "inputs"],
  "for every edit history over documents of all versions and both modes, every position and every accepted suggestion",
  NOTEST + "no test asks for completions, lenses, hints or signatures.",
  [LSP, PR, "parser.go"], [("completion, codeLens, inlayHint, signatureHelp handlers", "lsp/lsp.go handle"), ("ArgVals, InlayHints, ArgAt, RefCounts", "process.go"), ("field readers", "parser.go")],
  observe=["results of completion, codeLens, inlayHint, signatureHelp and diagnostic requests"])

p("P27", "What the linter reports about control flow is true of every execution",
  "In every edit history, the control-flow diagnostics of the current text are true: every duplicate definition of a label, every label no instruction refers to, every reference to a label that is not defined and every version pragma behind an instruction or another pragma is reported, and nothing else under those headings. A line reported as unreachable is never executed, whatever path the program takes and however its threads are stepped in the debugger, and an instruction behind an unconditional branch, return or err up to the next label in use is reported. A branch reported as standing just before its target leads to the next instruction anyway, and one directly above its label is reported. A loop reported as infinite cannot be left, and a loop without a branch or end in its body is reported. Duplicate and missing labels, infinite loops and misplaced pragmas are errors, the others warnings.",
  ["histories", "programs", "schedules"],
  "for every program, edit history and order of stepping the debugger's threads",
  NOTEST + "two lint rules are tested on one program each; nothing is executed.",
  ["linter.go", PR, LSP, DBG, VM], [("lint rules", "linter.go"), ("Process", "process.go"), ("Step", "vm.go")],
  observe=["diagnostic reports", "stackTrace answers of the debug adapter"])

p("P28", "Errors are reported for exactly the lines the AVM's assembler refuses",
  "In every edit history over programs of versions 1 to 10 and both modes, a line is reported with an error exactly when the AVM's assembler refuses it: an unknown instruction; an operand that is missing, superfluous, ill-formed or out of range; an unknown field; an undefined label; an instruction or field that the version does not have, or that the mode (application or logic signature) does not have. An accepted line is never reported with an error, whatever surrounds it. Not covered: several statements on a line, ec_ instructions, array fields without an index, optional operands, numeric fields, application-only global fields in logic signatures.",
  ["histories", "inputs"],
  "for every program line by line and every edit history",
  NOTEST + "they cover a handful of instructions.",
  [PR, "parser.go", "lexer.go", LSP], [("instruction readers and versions", "process.go"), ("field readers", "parser.go")],
  observe=["diagnostic reports"])

p("P29", "Semantic tokens give every token of an accepted line its role",
  "In every edit history, the semantic tokens of the current text, decoded with the legend the server announced, are for every line without errors exactly the line's tokens, in order and at their UTF-16 positions, each with the type of its role: instructions and encoding words are keywords, numbers and named integer constants numbers, other operands strings, label definitions methods, pragma words macros and comments comments.",
  ["histories", "inputs"],
  "for every edit history over programs of all instructions, versions and layouts",
  NOTEST + "one encoding of tokens is tested.",
  ["semantics.go", LSP, PR], [("Encode", "semantics.go"), ("semanticTokens/full handler", "lsp/lsp.go handle")],
  observe=["semanticTokens/full results"])

p("P30", "Formatting changes the layout only, and only once",
  "In every edit history, applying the edits the server returns for a formatting request to the current text keeps every token and comment of every line, in order; formatting the result changes nothing.",
  ["histories", "inputs"],
  "for every edit history and text of any layout",
  NOTEST + "none formats.",
  [LSP], [("formatting handler", "lsp/lsp.go handle"), ("third-party formatter", "github.com/joe-p/tealfmt")],
  observe=["formatting results applied to the client's text"])

p("P31", "Hovering describes what stands under the cursor",
  "In every edit history, hovering over the current text describes what stands at that position: over an instruction of an accepted line its documentation, the same as for that instruction alone and including what completion offers it with; over a field operand, by name or by number, the field's name and number; the same for every character of the token; and nothing where no token is. A label offered to a call is shown with the numbers of its own proto, and with none if it has none, and with the comments right above it, never with comments from before the previous label.",
  ["histories", "inputs"],
  "for every edit history over programs of all instructions and versions and every position",
  NOTEST + "no test hovers.",
  [LSP, PR], [("hover and completion handlers", "lsp/lsp.go handle"), ("DocAt, ArgVals, label symbols", "process.go")],
  observe=["hover and completion results"])

p("P32", "Paging through the debugger's variables and frames shows each exactly once",
  "In every debugging session, a client that follows the adapter's references from thread to frame to scope, and asks for the announced number of indexed variables in pages of any size and in any order, gets exactly the variables the scope shows when asked for all at once, each once and in the same order, no page longer than asked for, and nothing behind the last one. A stack or trace is announced with exactly as many variables as it shows, and every scope of a thread has a reference of its own. The same holds for a thread's frames, asked for by first frame and number of levels (none or zero: all of them): put together they are the stack shown at once, of the announced length.",
  ["histories", "programs", "schedules"],
  "for every program, order of stepping, thread, scope, page size and order of pages",
  NOTEST + "the debug adapter has no tests.",
  [DBG], [("scopes, variables and stackTrace handlers, slice", "dbg/dbg.go")],
  observe=["scopes, variables and stackTrace answers"])

p("P33", "Everything the servers send has the form its protocol prescribes",
  "In every session, whatever the client sends, each message of the language server and the debug adapter has the form its protocol prescribes: the members it requires, of the types and within the value sets it allows, null (or an empty list) where there is nothing to return, and for each requested breakpoint one answer. What the language server sends agrees with what it announced: announced requests about open documents are not refused, actions use announced commands, and semantic tokens stay within the legend. A range that comes with an answer about a position covers that position's line, ids of the server's own requests are unique, and a symbol's name lies within its range.",
  ["histories", "programs"],
  "for every history of messages, document text and position",
  NOTEST + "no test looks at messages.",
  [LSP, DBG], [("result types and handlers", "lsp/lsp.go"), ("response types and handlers", "dbg/dbg.go")],
  observe=["every message the servers send"])

# not applicable: pure functions of one input, no concurrency, time, I/O or faults to simulate
p("P54", "Compiled listings preserve program meaning",
  "Compiling expression trees and optimizing the listing preserves the behaviour of the program.",
  ["programs"], "for every expression tree", NOTEST + "no optimizer test runs the result.",
  ["compiler.go"], [("Compile and optimization passes", "compiler.go")])
p("P55", "Opcode documentation and tables agree with the language specification",
  "Every opcode's arguments, versions, documentation and completion entries agree with the bundled language specification.",
  ["inputs"], "for every opcode", NOTEST + "one test checks that docs exist.",
  ["langspec.go", "langspec.json", "go_algorand.go"], [("tables", "langspec.go")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
