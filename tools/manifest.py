#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = {}
for l in open(os.path.join(here, "..", "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
FAULT = {"P04", "P05", "P12", "P21"}
NOTE = {
 "P01": "seeded search over sessions and segmentations; oracle: the same session delivered message by message",
 "P02": "seeded search over request histories; oracle: a reply model of the protocol",
 "P03": "seeded search over sessions with bad messages injected; oracle: the same session without them, plus step budgets",
 "P04": "seeded sessions cut at every kind of byte offset with EOF, persistent errors or exit; oracle: the uncut session's prefix",
 "P05": "seeded sessions with write failures and short writes placed by the seed; oracle: the fault-free output",
 "P06": "seeded edit histories; oracle: a fresh server with only the current text",
 "P07": "seeded programs, edits and renames by a simulated client; oracle: occurrences tracked by the generator",
 "P08": "seeded programs and chains of quick fixes applied by a simulated client; oracle: per-action expected text",
 "P09": "seeded settings histories; oracle: model of the switches and single-feature sessions",
 "P10": "seeded interleavings of several sessions at function and loop granularity; oracle: each session alone",
 "P11": "seeded map orders within and across processes; oracle: byte equality",
 "P12": "seeded sessions with log write failures; oracle: the session without the log and the exact log",
 "P13": "seeded debug sessions with file faults; oracle: response and event model",
 "P14": "seeded debug sessions with bad messages and file faults; oracle: the session without them, plus step budgets",
 "P15": "lock-step execution against an executable reference model of the branches",
 "P16": "lock-step execution against the reference model; all threads inspected around every request",
 "P17": "lock-step execution against the reference model; stops must be a frontier of the execution tree",
 "P18": "lock-step execution against the reference model with budget accounting",
 "P19": "lock-step execution against the reference model with call frames",
 "P20": "seeded histories before a launch; oracle: a fresh adapter",
 "P21": "seeded trees and file-system faults against the real main function; oracle: scan model",
 "P22": "seeded trees; oracle: the language server's diagnostics for each file",
 "P24": "seeded edit histories with non-ASCII texts; oracle: the client's copy of the text, against which every range is checked and every formatting edit applied",
 "P25": "lock-step execution of programs over the whole instruction set against a reference model of stack effects and costs",
 "P26": "seeded edit histories with a client that accepts suggestions; oracle: the server's own verdict on the accepted text and an independent reading of it",
 "P27": "seeded programs, edit histories and thread schedules of the debugger; oracle: reference control-flow graph and the lines the debugger really reaches",
 "P28": "seeded edit histories over programs with spoilt lines; oracle: reference table of the assembler's instructions, fields, versions and modes",
 "P29": "seeded edit histories; oracle: independent reading of every accepted line",
 "P30": "seeded edit histories with a client that applies formatting; oracle: independent reading before and after, and a second formatting",
 "P31": "seeded edit histories with a client whose cursor rests on seeded places; oracle: tables of the AVM's fields, the same instruction alone, and an independent reading of protos and comments",
 "P32": "seeded debugging sessions with a paging client; oracle: the same scope asked for at once",
 "P33": "seeded sessions with both servers; oracle: the message forms of the two protocols",
 "P23": "seeded sessions over real pipes and loopback sockets with injected failures; oracle: embedded servers",
}
done = sys.argv[1].split(",") if len(sys.argv) > 1 else sorted(NOTE)
NA = {
 "P54": "compiler and optimizer are pure library functions with no concurrency, I/O, time or faults",
 "P55": "static tables compared with a bundled file: no execution to simulate",
}
for i in NOTE:
    if i not in done:
        NA[i] = "check under construction"
m = dict(version=1, setup_cmd="true",
  checks=[dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
    technique="deterministic simulation with fault injection",
    level="fault_enumeration" if i in FAULT else "exploration",
    level_note=NOTE[i] + "; bounded by the number of seeded runs") for i in done],
  not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())])
for i in done: assert i in props
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "..", "MANIFEST.json"), "a").write("\n")
