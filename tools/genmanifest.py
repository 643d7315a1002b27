#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json (run by hand; both are committed)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "deterministic simulation with fault injection: seeded search over schedules and faults, "
CHECKS = {
 "C01": "reference model of the chunk stream as oracle",
 "C02": "reference model of header compression as oracle",
 "C03": "reference encoder and decoder as oracle",
 "C04": "reference model of the chunk size in force as oracle",
 "C05": "reference model of partial messages as oracle",
 "C06": "reference decoder over everything written as oracle",
 "C07": "wire decomposition into whole messages as oracle",
 "C08": "write outcomes checked against the recorded wire",
 "C09": "faults at drawn byte positions, reference model as oracle",
 "C10": "hostile byte streams, progress and length invariants",
 "C11": "per-stream delivery history against what arrived",
 "C12": "linearizability check against a sequential registry",
 "C13": "close at drawn instants, bounded progress and leak checks",
 "C14": "delivery history and close conditions",
 "C15": "outcome history against an independent decoder",
 "C16": "written messages matched one to one with values sent",
 "C17": "close at drawn instants, bounded progress and leak checks",
 "C18": "scripted compliant clients, byte-exact oracle",
 "C19": "defective clients and transport faults at drawn bytes",
 "C20": "concurrent handshakes, challenge provenance check",
 "C21": "simulated listener with accept failures, delivery history",
 "C22": "dispatch history against the routing rules",
 "C23": "close at drawn instants, bounded progress and leak checks",
 "C24": "outcome history against an independent AMF0 codec",
 "C25": "whole server with several clients, per-client history",
 "C26": "vector-clock race detection during simulated runs",
}
NOTE = "Seeded sampling of schedules, inputs and faults, not exhaustive. Trusted: the simulator's model of Go's scheduler, channels, locks and timers, the instrumenter, and the reference model in harness/. The code that runs is an instrumented copy of /repo's working tree, rebuilt by the check."
EXTRA = {
 "C01": " Chunk stream ids use this library's 3-byte form; that the specification's own form is not understood is a known finding.",
 "C06": " Chunk stream 63 is excluded: it cannot be represented (known finding).",
 "C21": " The AMF0 library is missing from the sandbox; a stand-in (stubs/amf0) takes its place.",
 "C22": " The AMF0 library is missing from the sandbox; a stand-in (stubs/amf0) takes its place.",
 "C23": " The AMF0 library is missing from the sandbox; a stand-in (stubs/amf0) takes its place.",
 "C24": " The AMF0 library is missing from the sandbox; a stand-in (stubs/amf0) takes its place.",
 "C25": " The AMF0 library is missing from the sandbox; a stand-in (stubs/amf0) takes its place.",
 "C26": " Only accesses by the library's own code are tracked.",
}
READY = os.environ.get("READY", "").split() or list(CHECKS)
NA = [
 ("C90", "A pure function of one byte: no schedule, time, I/O, fault or history for a simulation to vary. The package's own tests pin its current values."),
 ("C91", "A pure boolean function of its inputs: nothing for a simulation to vary. C22 exercises the gates in use as part of dispatching."),
]
for c in CHECKS:
    if c not in READY:
        NA.append((c, "Not built yet."))
m = {
 "version": 1,
 "setup_cmd": "bash tools/setup.sh",
 "checks": [{
   "property": c,
   "quick_cmd": f"bash tools/check.sh {c} quick",
   "thorough_cmd": f"bash tools/check.sh {c} thorough",
   "evidence_file": f"evidence/{c}.json",
   "technique": TECH + CHECKS[c],
   "level": "exploration",
   "level_note": NOTE + EXTRA.get(c, ""),
 } for c in CHECKS if c in READY],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA],
 "notes": "No hooks in /repo: every seam is made by source instrumentation of a scratch copy (instr/). Commits in /repo are all fixes; see known_findings.json and DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
def commit(subject):
    for l in log.splitlines():
        if subject in l:
            return l.split()[0]
    raise SystemExit("no commit: " + subject)
FIXED = [
 ("C01", "do not take an empty read for a zero byte", "a read that returns no byte and no error was taken for a zero byte in chunk headers, garbling the stream (also C09, C10)"),
 ("C18", "do not take an empty read for an unsupported version", "a read that returns no byte and no error was taken for version 0"),
 ("C06", "continue messages on chunk streams 64 and up correctly", "continuation chunks of messages on chunk streams 64 and up carried a wrong chunk stream id"),
 ("C06", "cut each message with a single write size", "a message written while the write size changed was cut with several sizes"),
 ("C03", "repeat extended timestamps in type 3 chunks", "extended timestamps were neither written after continuation headers nor expected there"),
 ("C02", "restore compressed headers from the same chunk stream", "compressed headers were completed from the last header of any chunk stream, and type 2 headers lost the type id"),
 ("C04", "reject invalid Set Chunk Size messages", "a short Set Chunk Size crashed the reader, zero made it loop forever, a set top bit was accepted (also C10)"),
 ("C05", "honour Abort Messages", "Abort Messages discarded nothing"),
 ("C13", "let Close interrupt a reader nobody is receiving from", "closing hung while the reader had a message or error nobody was collecting"),
 ("C09", "resume at the chunk that a failed read interrupted", "after a failed read in the middle of a chunk the rest of it was read as a new header"),
 ("C13", "let Close interrupt a parser nobody is receiving from", "closing hung while the parser had a message or error nobody was collecting"),
 ("C13", "close streams that are asked for while the parser closes", "streams asked for during or after closing were never closed"),
 ("C17", "do not close the channel that callers send control sequences on", "closing a control stream made concurrent senders panic"),
 ("C17", "survive the end of the chunk stream below a control stream", "the end of the chunk stream below a control stream crashed it"),
 ("C17", "let Close interrupt a control stream nobody is receiving from", "closing hung while the control stream had a value or error nobody was collecting"),
 ("C26", "guard the number of bytes left in a builder by its own mutex", "Builder.Append accessed the number of bytes left without its mutex"),
]
FIXED += json.load(open(os.path.join(here, "tools", "fixed_b.json"))) if os.path.exists(os.path.join(here, "tools", "fixed_b.json")) else []
KNOWN = [
 ("C01", "csid-3byte", "chunk stream ids of 320 and up are only understood in this library's own 3-byte form (marker 63, big-endian), not in the specification's (marker 1, little-endian), and 63 itself cannot be received; TestBasicHeaderReadWrite pins this"),
 ("C06", "csid63", "a message written on chunk stream 63 is sent with the marker of a 3-byte chunk stream id; the reader's form (pinned by TestBasicHeaderReadWrite) leaves no way to represent 63"),
]
KNOWN += json.load(open(os.path.join(here, "tools", "known_b.json"))) if os.path.exists(os.path.join(here, "tools", "known_b.json")) else []
doc = {"findings": [
  {"property": p, "id": i, "status": "known", "what": w} for p, i, w in KNOWN if p in READY] + [
  {"property": p, "id": commit(s), "status": "fixed", "what": f"fixed: property={p} {commit(s)} {w}"} for p, s, w in FIXED]}
json.dump(doc, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(doc["findings"]), "findings")
