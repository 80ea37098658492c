#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of pending properties."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
PENDING = {}
TECH = {
 "C22": "runtime monitoring: panic/abort/hang monitors over hostile workloads run in child processes",
 "C23": "Miri and AddressSanitizer over the real library under generated workloads",
 "C24": "differential runtime monitors (repeat, shuffle, concurrent, fresh process) and ThreadSanitizer",
 "C30": "runtime monitoring of pairs of executions: non-interference between secrets and visible answers",
 "C31": "runtime monitoring: allocation counters around every call, leak and growth monitors over long runs",
 "C32": "differential runtime monitoring: one JSON value in many spellings and through every reader",
 "C33": "runtime monitoring: interposed libc records every effect while the library runs",
 "C34": "runtime monitoring: processor-time monitor and watchdog over arguments grown in every direction",
 "C35": "runtime monitoring: readings of documents with members removed, retyped, repeated and added, judged by tables of required types",
 "C36": "runtime monitoring of pairs of executions: metamorphic non-interference between undecisive parts and answers",
 "C37": "runtime monitoring: laws of equality, hashing and copying over pairs of values, against their wire form",
 "C38": "differential runtime monitoring: composed operations against the stand-alone steps for the same values",
 "C27": "online trace monitor over generated multi-session issuance histories with an adversary",
}
DEFAULT = "runtime monitoring: generated workloads on the real code, judged by an independent oracle"
NOTE = ("Held on every execution observed (counts in the evidence file); not a proof beyond them. Trusts the "
        "oracle in harness/src, which shares no code with openid4vci, and the virtual clock (self-tested at start).")
props = [json.loads(l) for l in (root/"properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PENDING:
        na.append({"property": i, "reason": PENDING[i]}); continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                   "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": NOTE})
(root/"MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "bash check.sh --build", "checks": checks,
    "not_applicable": na, "notes": "No hooks are needed in /repo; every observation is made at the public API."}, indent=1)+"\n")
