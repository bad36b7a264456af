#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "deterministic simulation: seeded search over simulated runs with fault injection, judged against an executable reference model"
P = []


def prop(id, title, statement, over, text, why, files, mech, level, note, technique=SIM, na=None, **kw):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)), level, note, technique, na))


MON = ["monitors/c/src/engines/mltl.c", "monitors/c/src/engines/engines.c", "monitors/c/src/engines/booleanizer.c", "monitors/c/src/memory/shared_connection_queue.c",
       "monitors/c/src/lib.c", "monitors/c/src/internals/process_binary.c", "compiler/c2po/assemble.py", "compiler/c2po/scq.py"]
OBS = [{"name": "verdict", "meaning": "(formula, time, truth) reported during a step", "where": "verdict callback / output line"}]
EXPL = "seeded exploration of simulated runs; a pass means no violation was found among the runs counted in the evidence. Trusts the reference model (dst/ref.py) and the run script of the driver (dst/driver.c)."

prop("R01", "Reported verdicts are correct",
     "For every compiled specification and every sequence of sensor updates, each verdict the (C) monitor reports for a formula at a time equals the truth of that formula at that time over the values it was given (an aggregated verdict covers every time since the previous one of that formula). A sensor keeps its last delivered value until it is updated, whatever order, repetition or loss of updates within a step.",
     ["inputs", "histories", "programs", "fault_sequences"],
     "all specifications of the C2PO language (Boolean, future and past temporal, arithmetic comparisons), all input histories, all deliveries of sensor updates (dropped, duplicated, superseded, reordered within a step), all optimisation settings",
     "Tests replay fixed specs on short fixed traces; the verdict of a nested future/past formula depends on the whole history, on queue sizes computed by the compiler and on which verdicts were aggregated or predicted earlier.",
     MON, [("temporal operators over shared connection queues", "monitors/c/src/engines/mltl.c"), ("arithmetic front end", "monitors/c/src/engines/booleanizer.c"),
           ("instruction encoding", "compiler/c2po/assemble.py")], "exploration", EXPL, observe_at=["verdict callback", "output line"])
prop("R02", "Verdicts come in time order, without gaps, within the worst-case delay",
     "Each formula's verdict times strictly increase, every time is covered, and after the step at time t every verdict up to t minus the formula's worst-case propagation delay has been reported. This holds however long the monitor runs and however the input is arranged, and never produces a failed step.",
     ["histories", "programs", "inputs", "fault_sequences"],
     "all specifications and all (including long and adversarially sticky) input histories, with dropped/duplicated/reordered sensor updates",
     "A lost or stuck verdict needs a particular queue wrap-around or a particular interplay of siblings with different delays, long after the handful of steps a test runs.",
     MON, [("queue sizing from propagation delays", "compiler/c2po/scq.py, compiler/c2po/cpt.py"), ("queue read/write with wrap-around", "monitors/c/src/memory/shared_connection_queue.c"),
           ("repeat-until-no-progress loop", "monitors/c/src/engines/engines.c")], "exploration", EXPL)
prop("R03", "Sparse (time-stamped) histories mean the same as the dense ones",
     "A trace whose rows are stamped with the last step they cover yields verdicts that are correct for the dense history it stands for and complete up to the worst-case delay before the last step. Arbitrary gaps, repeated values and mixtures with unstamped rows are allowed.",
     ["histories", "schedules", "programs"], "all specifications without previous-value and clock access, all stamped histories (clock jumps of any size)",
     "Tests have no stamped trace with nested formulas; a clock jump makes many verdicts due at once, at a point only the history decides.",
     ["monitors/c/src/cli/csv_trace.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/engines/engines.c"],
     [("row stamp sets the clock", "monitors/c/src/cli/csv_trace.c"), ("aggregated verdicts", "monitors/c/src/engines/mltl.c")], "exploration", EXPL)
prop("R04", "Monitoring depends on the trace's content, not on how it arrives",
     "The command line monitor produces byte-identical, correct and complete output for the same trace contents whether it is read from a file or a stream, in pieces of any size, with any output buffering. A missing final newline, CRLF line ends, blanks around values, a header of any length and surplus columns change nothing.",
     ["schedules", "inputs", "fault_sequences"], "all byte arrival schedules (split points, pipe or file), output buffer sizes, textual variants of a trace",
     "Tests always read a small complete file; splits inside a number, at a buffer boundary or before the last line never happen in them.",
     ["monitors/c/src/cli/csv_trace.c", "monitors/c/src/cli/main.c", "monitors/c/src/lib.c"],
     [("row reader", "monitors/c/src/cli/csv_trace.c"), ("text to signal value", "monitors/c/src/lib.c")], "exploration", EXPL)
prop("R05", "Loading a specification starts afresh at any point of a monitor's life",
     "After loading a specification (the same or another) into a (C) monitor that has already run for any time, stopped at any step, with or without a preceding reset, the monitor behaves exactly like a fresh one. Nothing of the earlier life (verdicts, clock, previous values, leftover sensor storage) shows.",
     ["crash_points", "histories", "programs"], "all sequences of lives: any specifications, any cut-off step, any combination of clock/soft/hard reset, any stale sensor contents",
     "Tests start a new process per run; no test reloads or resets a used monitor.",
     ["monitors/c/src/lib.c", "monitors/c/src/memory/monitor.c", "monitors/c/src/engines/mltl.c", "monitors/c/src/internals/process_binary.c"],
     [("reset family", "monitors/c/src/memory/monitor.c"), ("queue configuration at load", "monitors/c/src/engines/mltl.c")], "exploration", EXPL)
prop("R06", "Monitors in one process do not influence each other",
     "Several (C) monitors in one process, loaded, fed, stepped and reset in any interleaving, each report exactly what they would report alone.",
     ["schedules", "histories", "programs"], "all interleavings of load, sensor update, step and reset across up to four monitors",
     "No test runs two monitors at once.",
     ["monitors/c/src/memory/monitor.h", "monitors/c/src/engines/mltl.c", "monitors/c/src/engines/booleanizer.c", "monitors/c/src/lib.c"],
     [("all state hangs off the monitor object", "monitors/c/src/memory/monitor.h")], "exploration", EXPL)
prop("R07", "An input or output failure is never mistaken for success",
     "If the command line monitor cannot open or read all of its inputs or cannot write all of its verdicts, it exits non-zero with a message, and the output written before the failure is a prefix of the undisturbed output. Without a failure it exits zero with the complete output.",
     ["fault_sequences", "inputs"], "all single and double faults: read error at any byte (any errno), specification or trace not accessible/openable/mappable/empty, write failing once or for good at any byte, close failing",
     "Tests never inject an I/O error; the shipped loop treats end of file and read error alike unless told otherwise.",
     ["monitors/c/src/cli/main.c", "monitors/c/src/cli/csv_trace.c"], [("main loop and clean-up", "monitors/c/src/cli/main.c")], "fault_enumeration",
     "fault positions, errnos and combinations are drawn at random over every byte of trace and output; " + EXPL)
prop("R08", "The compiler's storage bounds are enough, and no input reaches outside them",
     "A monitor given exactly the storage that the compiler's bounds file for a specification asks for never reads or writes outside it or crashes, whatever signal values (zero divisors and extremes included) or trace rows (well-formed or not) it is fed and however often it is reloaded or reset, and still reports the right verdicts. The bounds header compiles.",
     ["programs", "inputs", "configurations", "fault_sequences"], "all specifications, signal indices with gaps and duplicates, name records on or off, queue padding; malformed rows of any kind at any point",
     "Tests use the generous default bounds and no sanitizer; no test looks at the generated bounds.",
     ["compiler/c2po/assemble.py", "monitors/c/src/internals/process_binary.c", "monitors/c/src/memory/monitor.h", "monitors/c/src/cli/csv_trace.c", "monitors/c/src/lib.c"],
     [("bounds computation", "compiler/c2po/assemble.py"), ("array extents", "monitors/c/src/memory/monitor.h")], "exploration", "real library under AddressSanitizer/UBSan with exact-size arrays; " + EXPL)
prop("R09", "Named formulas and contracts are reported under the right name and status",
     "With naming enabled, each verdict carries the formula's own name, and each assume-guarantee contract is reported inactive, invalid or verified for a time exactly when its assumption is false, its guarantee fails under a true assumption, or both hold at that time. Each time gets one status, no later than the worst-case delay.",
     ["programs", "histories"], "all mixes of named formulas and contracts over future and past logic, all histories, reloads",
     "Tests check the text of one or two contract specs; status depends on three related formulas finishing in any order.",
     ["monitors/c/src/engines/aux_info.c", "monitors/c/src/internals/process_binary.c", "compiler/c2po/desugar.py", "compiler/c2po/assemble.py"],
     [("contract status report", "monitors/c/src/engines/aux_info.c"), ("contract expansion", "compiler/c2po/desugar.py"), ("name records", "compiler/c2po/assemble.py")], "exploration", EXPL)
NOTES = []
exec(open(os.path.join(V, "tools", "docs_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "docs_more.py")) else None
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p[0]) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier=quick" % p["id"], "thorough_cmd": "./check %s --tier=thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": lv, "level_note": note} for p, lv, note, t, na in P if na is None],
     "not_applicable": [{"property": p["id"], "reason": na} for p, lv, note, t, na in P if na is not None],
     "notes": "No hooks in /repo: every seam already exists (link-time and in-process substitution). See DESIGN.md. known-findings.json lists open findings and fixed defects."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
for p in P: assert len(p[0]["title"]) <= 80, p[0]["id"]
print(len(P), "properties,", len(m["checks"]), "claimed")
