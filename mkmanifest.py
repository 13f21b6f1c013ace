#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of bins present (a property is claimed
as soon as its monitor exists)."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = {
 "C01": "ownership-ledger monitor with injected panics, plus Miri and (thorough) AddressSanitizer on the same workload",
 "C02": "aliasing/bounds monitor (write through one view, read all others) plus Miri and (thorough) AddressSanitizer",
 "C19": "trace monitor over a scripted hostile random source (draw counting and budget) and postcondition oracle",
 "C20": "online statistical monitor (moments, correlations, Haar characters) over recorded samples",
 "C24": "differential monitor over histories and concurrent threads (one operation, the same operands, one result), equality and clone monitors, plus Miri for data races",
 "C23": "differential monitor: event digests of one workload in all eight feature builds",
}
NOTE = ("Runtime monitoring: seeded hostile and stress workloads over the real crate, every observed result compared "
        "with an independent oracle; nothing is enumerated or proved, so it holds for the executed inputs only. Trusts "
        "the harness's oracles, rustc/LLVM and num-traits/num-complex.")
EXTRA = {
 "C01": " Undefined behaviour is decided by Miri (tree borrows) on a reduced workload and by the ledger on all of it.",
 "C02": " Out-of-bounds and aliasing errors are decided by Miri on a reduced workload and by the view monitor on all of it.",
 "C14": " The known finding moebius-normalize-det (see known_findings.json) is reported, not failed on.",
 "C20": " Statistical: thresholds of at least six standard deviations keep false alarms below 1e-8 per run; small biases stay undetected.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    have = os.path.exists(os.path.join(R, "c23.py")) if i == "C23" else os.path.exists(
        os.path.join(R, "harness/src/bin/%s.rs" % i.lower()))
    if have:
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick ./check " + i,
                           thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           evidence_file="evidence/%s.json" % i,
                           technique=TECH.get(i, "runtime monitor: independent exact/reference oracle over recorded results of hostile workloads"),
                           level="exploration", level_note=NOTE + EXTRA.get(i, "")))
    else:
        na.append(dict(property=i, reason="monitor not built yet"))
json.dump(dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
               notes="No hooks are needed: every check builds the unmodified crate from /repo through a path dependency."),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
