#!/usr/bin/env python3
"""triage.py PROP RUNS [SEED]: run the worlds of one property and group what they report (development aid)."""
import os, re, shutil, subprocess, sys, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
from config import CHECKS
prop, runs, seed = sys.argv[1], int(sys.argv[2]), (sys.argv[3] if len(sys.argv) > 3 else "1")
exe = check.build(CHECKS[prop]["group"])
d = "/tmp/tri-" + prop
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
W = check.JOBS
ps = [subprocess.Popen([exe, "run", "--prop", prop, "--seed", seed, "--from", str(k), "--stride", str(W), "--max", str(max(1, runs // W)),
                        "--time", "600", "--out", d + "/%d.json" % k, "--replays", d, "--maxviol", "100000", "--wall", "120", "--tier", "quick"],
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True) for k in range(W)]
for p in ps:
    e = p.communicate()[1]
    if p.returncode or e.strip(): print("worker:", p.returncode, e[-300:])
g = collections.defaultdict(list)
for f in os.listdir(d):
    if f.endswith(".replay"):
        t = open(d + "/" + f, errors="replace").read()
        k = re.search(r"^kind (.*)$", t, re.M).group(1)
        m = re.search(r"^message (.*)$", t, re.M); m = m.group(1) if m else ""
        key = k + " | " + re.sub(r"[-+]?[0-9.]+(e[-+]?\d+)?|nan|inf", "#", m)[:150]
        g[key].append((f, m))
for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
    print("%4d %s\n       e.g. %s %s" % (len(v), k, v[0][0], v[0][1][:420]))
