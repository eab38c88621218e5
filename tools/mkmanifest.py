#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and the not-applicable list below; checks it against the schema."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from config import CHECKS
NA = {
    "P20": "calendar arithmetic of one frequency value: a pure function of its arguments with no schedule, time source, I/O, memory history or second party that a simulator could vary",
    "P21": "matrix algebra is a pure function of its operands; its dependence on buffers, failures and concurrency is covered by P02, P10, P11 and P12, and the formulas themselves depend on nothing a simulator controls",
    "P22": "densities, distribution functions and quantiles are pure functions of their arguments; nothing nondeterministic or failing takes part (sampling from them is covered by P09)",
    "P23": "textbook formulas of estimators on complete data are pure functions of the data; schedules, faults and histories around them are covered by P06 to P12",
    "P24": "clustering, principal components and scoring rules are pure functions of their inputs; buffers, failures and concurrency around them are covered by P02, P10, P11 and P12",
}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA_EXTRA = {p: "no check yet" for p in props if p not in CHECKS and p not in NA}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 check.py %s quick" % p,
        "thorough_cmd": "python3 check.py %s thorough" % p,
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    } for p, c in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted({**NA, **NA_EXTRA}.items())],
    "notes": "No hooks in /repo: every seam is taken at link time (allocator, threads, OpenMP, clocks, entropy, LAPACK) or by compiling the working tree with access instrumentation whose callbacks are the simulator's. See DESIGN.md.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid")
except ImportError:
    print("written (jsonschema not available)")
