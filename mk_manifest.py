#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TOOLNOTE = ("Seeded sampling: the real tools, compiled from /repo, run whole inside a simulated process whose files, pipes, heap, "
            "clock, entropy and threads are decided by the case; clean runs are evidence, not proof. Trusted: the simulated "
            "environment and, where one is used, the reference model.")
LIBNOTE = ("Seeded sampling of histories, schedules and injected failures of the real library, compiled from /repo, in a simulated "
           "process; clean runs are evidence, not proof. Trusted: the simulated environment and the small models.")
NA = {
    "C20": "Pure functions of their arguments on value types: no schedule, clock, fault, I/O or history can influence them, so "
           "simulation would only be input generation under another name.",
    "C21": "Pure comparison operators of immutable values, nothing the simulator controls can change their results.",
}
NOTES = {"C08": "One known finding is listed in known_findings.txt (--sort is ignored for scores that have an interval)."}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in NA:
        continue
    lib = p in ("C12", "C13", "C14", "C15", "C16", "C23", "C27", "C28", "C29")
    kind = {"C05": "failing allocations", "C12": "histories against a reference set", "C13": "histories with exceptions against a fresh process",
            "C14": "histories against a reference map", "C15": "seeded scheduling of threads", "C16": "failures at arbitrary operations",
            "C19": "crashes at arbitrary operations", "C07": "torn and flipped stored bytes", "C17": "faults with a step budget",
            "C02": "delivery faults against a reference model", "C06": "reordered delivery", "C09": "accounting of dumps under delivery faults",
            "C08": "seeded search against a reference bootstrap", "C04": "varied heap, clock, entropy and threads",
            "C22": "command lines with failing diagnostics and allocations, against the record of every call", "C24": "injected I/O faults and kills",
            "C23": "histories with exceptions and failing allocations against the definitions",
            "C27": "histories of reads with failing streams and allocations",
            "C28": "histories of calls with failing allocations, writes and callbacks against the definitions",
            "C29": "histories of parsers with failing allocations and diagnostics against a grammar", "C30": "two processes on one disk under a seeded scheduler, with faults and kills", "C26": "memory accounting of varied deliveries"}.get(p, "injected I/O faults")
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": "deterministic simulation with fault injection: " + kind, "level": "exploration",
                   "level_note": ((LIBNOTE if lib else TOOLNOTE) + " " + NOTES.get(p, "")).strip()})
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "none", "enable": "No hooks: the simulator takes the place of libc, the heap and the threads when it is linked "
               "with /repo's unchanged sources.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
