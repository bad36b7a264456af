#!/usr/bin/env python3
"""Writes known-findings.json: the fix commits of /repo (by subject) with the property and what failed, plus the open findings (tools/open_findings.json)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = [
 ("pack integer constants as signed", ["R01"], "a specification comparing with a negative integer constant cannot be assembled (struct.error)"),
 ("report constant past-time formulas", ["R01"], "a past-time formula that simplifies to a constant ends the compiler with KeyError"),
 ("compute worst-case delay of Once", ["R02"], "O/H over a future-time operand: queues too small, verdicts lost"),
 ("size queues for results predicted", ["R02", "R01"], "S/T with a constant left operand overflow their parent's queue; verdicts lost or wrong"),
 ("do not skip unread verdicts", ["R01", "R02"], "a reader whose last read slot was overwritten skips unread verdicts"),
 ("rerun parents before children", ["R02"], "a child rerun before its parent overwrites an unread verdict; verdicts lost"),
 ("Since and Trigger lose, repeat or miscompute", ["R01", "R02"], "S/T with lower bound > 0, aggregated operands or constants: wrong, repeated or missing verdicts"),
 ("do not sign-extend the low half", ["R01"], "float constants whose low 32 bits have the top bit set are loaded wrong"),
 ("loading a specification starts from the initial state", ["R05"], "loading into a used monitor keeps state of the earlier run"),
 ("report failed reads of the trace", ["R07"], "a read error ends the run like end of file, a failed write goes unnoticed; exit status 0"),
 ("do not monitor with a specification that failed to load", ["R07"], "an unreadable specification is reported, but monitoring starts with it"),
 ("do not split trace lines longer", ["R04"], "a trace line longer than the buffer is read as several rows"),
 ("accept blanks around trace values", ["R04"], "blanks and CRLF change values in traces read without a booleanizer"),
 ("a trace row with a malformed time stamp", ["R08", "R07"], "'@' rows without a number or separator crash the monitor or end the trace silently"),
 ("do not store trace columns past the end", ["R08"], "a row with more columns than signals overruns the signal buffer"),
 ("load the last contract that fits", ["R09", "R08"], "the last contract that fits is dropped; records of formulas past the storage overrun it"),
 ("bounds files leave room for signal indices", ["R08"], "the generated bounds count signals, not the highest index: overrun"),
 ("names too long for the auxiliary data", ["R09"], "one long name makes all names and contracts disappear from the binary"),
 ("a contract that has been resolved", ["R09"], "a contract keeps its operands' queues as a user: verdicts wrong or KeyError after CSE"),
 ("integer division and modulo by a zero", ["R08"], "an integer division whose divisor (a sensor value) is 0 kills the monitor with SIGFPE"),
]
more = os.path.join(V, "tools", "findings_more.py")
if os.path.exists(more): exec(open(more).read())
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "bab4683..HEAD"], capture_output=True, text=True).stdout.splitlines()]
fixed = []
for sub, props, what in FIX:
    h = [c for c, s in log if s.startswith("fix: " + sub)]
    assert len(h) == 1, (sub, h)
    for p in props: fixed.append("fixed: property=%s %s %s" % (p, h[0], what))
assert len(FIX) == sum(s.startswith("fix:") for c, s in log), "fix commits not listed"
of = os.path.join(V, "tools", "open_findings.json")
findings = json.load(open(of)) if os.path.exists(of) else []
json.dump({"findings": findings, "fixed": fixed}, open(os.path.join(V, "known-findings.json"), "w"), indent=1)
print(len(findings), "open,", len(fixed), "fixed entries")
