#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs the simulated worlds of one property.

  check.py PROP quick|thorough     run the check of a property
  check.py build [PROP...]         build only
  check.py replay FILE             run a replay file again
"""
import atexit, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LDT_REPO", "/repo")
BUILD = os.environ.get("LDT_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
JOBS = int(os.environ.get("LDT_JOBS", "0")) or os.cpu_count() or 8
SUT = ("-std=c++17 -O1 -g1 -fsanitize=thread -fopenmp -ftrivial-auto-var-init=pattern "
       "-fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -DUSE_BOOST -w").split()
CSUT = "-O1 -g1 -fPIE -fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -w".split()
RT = "-std=c++17 -O2 -g1 -w".split()
WRAP = ("__cxa_allocate_exception memcpy memmove memset dcopy_ ddot_ dgemm_ dgemv_ dgeqrf_ dgesvd_ dgetrf_ dgetri_ dlange_ "
        "dposv_ dpotrf2_ dsymm_ dsyrk_ dtrtrs_").split()
RWRAP = "R_CheckUserInterrupt".split()
NOT_COMPILED = ("expsmoothing", "tsfilter", "mnormal")  # empty or not part of the shipped library

from config import CHECKS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(d, pats):
    fs = sorted(f for f in glob.glob(d + "/**/*", recursive=True) if f.endswith(pats) and os.path.isfile(f))
    return sha(*[x for f in fs for x in (os.path.relpath(f, d), rd(f))])


class BuildError(Exception):
    pass


def run_cc(cmd, out):
    tmp = out + ".%d.tmp" % os.getpid()
    if "-c" in cmd or "-x" in cmd:
        cmd = [tmp if a == out else a for a in cmd]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    os.replace(tmp, out)


def r_parts():
    """the R layer of the package: its own C++ sources, copied to a folder without the library headers that builds leave beside them"""
    fs = sorted(glob.glob(REPO + "/Rpackage/src/r_*.cpp") + glob.glob(REPO + "/Rpackage/src/r_*.h"))
    d = os.path.join(BUILD, "rsrc-" + sha(*[x for f in fs for x in (os.path.basename(f), rd(f))]))
    if not os.path.isdir(d):
        t = d + ".%d.tmp" % os.getpid()
        os.makedirs(t, exist_ok=True)
        for f in fs:
            shutil.copyfile(f, os.path.join(t, os.path.basename(f)))
        try:
            os.replace(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d, sorted(glob.glob(d + "/*.cpp"))


def r_pkg():
    """the package as R sees it: its R code, and the bindings that Rcpp generates from the current sources"""
    fs = [REPO + "/Rpackage/DESCRIPTION"] + sorted(glob.glob(REPO + "/Rpackage/R/*.R") + glob.glob(REPO + "/Rpackage/src/r_*.cpp") + glob.glob(REPO + "/Rpackage/src/r_*.h"))
    d = os.path.join(BUILD, "rpkg-" + sha(*[x for f in fs for x in (f, rd(f))]))
    if not os.path.isdir(d):
        t = d + ".%d.tmp" % os.getpid()
        for s in ("R", "src"):
            os.makedirs(t + "/" + s, exist_ok=True)
        for f in fs:
            shutil.copyfile(f, os.path.join(t, os.path.relpath(f, REPO + "/Rpackage")))
        with open(t + "/NAMESPACE", "w") as f:
            f.write("useDynLib(ldt)\n")
        p = subprocess.run(["Rscript", "--vanilla", "-e", "Rcpp::compileAttributes('%s')" % t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or not os.path.exists(t + "/src/RcppExports.cpp"):
            raise BuildError("the R bindings cannot be generated\n" + p.stdout[-4000:])
        try:
            os.replace(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def build(group):
    """group: name of a binary -> path of the executable"""
    from config import GROUPS
    g = GROUPS[group]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    incdirs = [REPO + "/include"] + sorted(d for d in glob.glob(REPO + "/include/**/", recursive=True) if d.rstrip("/") != REPO + "/include")
    inc = ["-I" + d.rstrip("/") for d in incdirs]
    hdr = tree_hash(REPO + "/include", (".h", ".hpp"))
    simh = tree_hash(SIM, (".h",))
    gxx = subprocess.run(["g++", "--version"], stdout=subprocess.PIPE, text=True).stdout.split("\n")[0]
    jobs = []  # (priority size, cmd, out)
    objs = []
    pchd = os.path.join(BUILD, "obj", "pch-" + sha(gxx, SUT, rd(SIM + "/pch.h")))
    pch = pchd + "/pch.h.gch"

    def add(src, flags, extra, hashes, use_pch=False, weight=None):
        o = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + sha(gxx, src, rd(src), flags, extra, *hashes) + ".o")
        if not os.path.exists(o):
            cc = "gcc" if src.endswith(".c") else "g++"
            pf = ["-I" + pchd, "-include", "pch.h"] if use_pch else []
            jobs.append((weight or os.path.getsize(src), [cc] + flags + pf + extra + ["-c", src, "-o", o], o, use_pch))
        return o

    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/src/**/*.c", recursive=True))
    srcs = [s for s in srcs if not any(n in os.path.basename(s) for n in NOT_COMPILED)]
    for s in srcs:
        if s.endswith(".c"):
            objs.append(add(s, CSUT, inc, [hdr]))
        else:
            objs.append(add(s, SUT, inc, [hdr], True))
    libs = []
    if g.get("r"):
        rinc, rlibs = r_setup()
        rdir, rsrc = r_parts()
        rpkg = r_pkg()
        rinc = rinc + ["-I" + rdir, '-DR_PKG_DIR="%s"' % rpkg]
        rsrc.append(rpkg + "/src/RcppExports.cpp")
        for s in rsrc:
            objs.append(add(s, SUT, rinc + inc, [hdr], True, 10**7))
        libs += rlibs
    else:
        rinc = []
    for s in g["files"]:
        objs.append(add(SIM + "/" + s, SUT, ["-I" + SIM] + (rinc if g.get("r") else []) + inc, [hdr, simh], True, 10**6))
    rtobjs = []
    for s in ["rt.cpp", "lap.cpp", "main.cpp"] + g.get("rt", []):
        rtobjs.append(add(SIM + "/" + s, RT, ["-I" + SIM] + (rinc if g.get("r") else []), [simh]))
    exe = os.path.join(BUILD, "bin", "ldtsim-%s-%s" % (group, sha(gxx, sorted(os.path.basename(o) for o in objs + rtobjs), WRAP, libs)))
    if os.path.exists(exe):
        return exe
    jobs.sort(key=lambda j: -j[0])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        pf = None
        if any(j[3] for j in jobs) and not os.path.exists(pch):
            os.makedirs(pchd, exist_ok=True)
            shutil.copyfile(SIM + "/pch.h", pchd + "/pch.h")
            pf = ex.submit(run_cc, ["g++"] + SUT + ["-x", "c++-header", pchd + "/pch.h", "-o", pch], pch)
        fs = [ex.submit(run_cc, j[1], j[2]) for j in jobs if not j[3]]
        if pf:
            pf.result()
        fs += [ex.submit(run_cc, j[1], j[2]) for j in jobs if j[3]]
        for f in fs:
            f.result()
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["g++", "-rdynamic", "-o", tmp] + objs + rtobjs + ["-Wl,--wrap=" + w for w in WRAP + (RWRAP if g.get("r") else [])] + libs + ["-llapack", "-lblas", "-lpthread", "-ldl"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("link failed\n" + p.stdout[-4000:])
    os.replace(tmp, exe)
    return exe


def r_setup():
    """flags for embedding R with Rcpp"""
    home = subprocess.run(["R", "RHOME"], stdout=subprocess.PIPE, text=True).stdout.strip()
    inc = subprocess.run(["R", "CMD", "config", "--cppflags"], stdout=subprocess.PIPE, text=True).stdout.split()
    rcpp = [d for d in (home + "/site-library/Rcpp/include", "/usr/lib/R/site-library/Rcpp/include", "/usr/local/lib/R/site-library/Rcpp/include",
                        home + "/library/Rcpp/include") if os.path.isdir(d)]
    if not home or not rcpp:
        raise BuildError("R or Rcpp is missing")
    return inc + ["-I" + rcpp[0], '-DR_HOME_DIR="%s"' % home], ["-L" + home + "/lib", "-lR", "-Wl,-rpath," + home + "/lib"]


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def replay(exe, f, wall):
    p = subprocess.run([exe, "replay", f, "--wall", str(wall)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = {}
    for line in p.stdout.split("\n"):
        k, _, v = line.partition(" ")
        if k in ("status", "kind", "hash", "message") and k not in d:
            d[k] = v
    d["rc"] = p.returncode
    return d


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[prop]
    exe = build(c["group"])
    tb = time.time() - t0
    outd = os.path.join(BUILD, "out", prop + "-" + str(os.getpid()))
    os.makedirs(outd, exist_ok=True)
    tmp = os.environ["LDTSIM_TMP"] = tempfile.mkdtemp(prefix="ldtsim-") # the scratch disk of the runs
    atexit.register(shutil.rmtree, tmp, True)
    rdir = os.path.join(BUILD, "replays")
    os.makedirs(rdir, exist_ok=True)
    runs, secs = c[tier]
    wall = c.get("wall", 120)
    W = JOBS
    procs = []
    for k in range(W):
        procs.append(subprocess.Popen([exe, "run", "--prop", prop, "--seed", str(seed), "--from", str(k), "--stride", str(W),
                                       "--max", str(max(1, (runs + W - 1) // W)), "--time", str(secs), "--out", "%s/%d.json" % (outd, k),
                                       "--replays", rdir, "--maxviol", "2", "--wall", str(wall), "--tier", tier],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = []
    for p in procs:
        _, e = p.communicate()
        if p.returncode:
            errs.append("worker failed with status %d: %s" % (p.returncode, e[-500:]))
        elif e.strip():
            errs.append(e.strip()[-1500:])
    tot = {}
    sets = {"sched_hashes": set(), "keys": set()}
    maps = {}
    samples, reps = [], []
    for k in range(W):
        p = "%s/%d.json" % (outd, k)
        if not os.path.exists(p):
            continue
        j = json.load(open(p))
        for a, b in j.items():
            if a in sets:
                sets[a].update(b)
            elif isinstance(b, dict):
                m = maps.setdefault(a, {})
                for x, y in b.items():
                    m[x] = m.get(x, 0) + y
            elif a == "samples":
                samples += b[:1]
            elif a == "replays":
                reps += b
            elif a != "wall":
                tot[a] = tot.get(a, 0) + b
    shutil.rmtree(outd)
    trun = time.time() - t0 - tb
    # gate every violation: the replay file must give the same violation twice, in fresh processes
    known = known_findings(prop)
    viol, gate_fail, seen = [], [], set()
    reps.sort(key=lambda r: int(re.search(r"-(\d+)\.replay$", r).group(1)))
    for r in reps:
        a = replay(exe, r, wall)
        b = replay(exe, r, wall)
        txt = rd(r).decode()
        kind = re.search(r"^kind (.*)$", txt, re.M).group(1)
        if not (a["rc"] == 1 and b["rc"] == 1 and a.get("hash") == b.get("hash") and a.get("kind") == kind == b.get("kind")):
            gate_fail.append("%s: recorded %s, replayed %s / %s" % (r, kind, a, b))
            continue
        if any(re.search(k, kind + " | " + a["message"]) for k, _ in known):
            continue
        if kind in seen and len(viol) >= 1:
            continue
        seen.add(kind)
        if len(viol) < 3:
            m = r[:-7] + ".min.replay"
            subprocess.run([exe, "shrink", r, m, "--time", "25", "--wall", str(wall)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(m) and replay(exe, m, wall).get("kind") == kind and replay(exe, m, wall)["rc"] == 1:
                viol.append((m, kind, replay(exe, m, wall)["message"]))
            else:
                viol.append((r, kind, a["message"]))
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    wall_s = time.time() - t0
    rate = tot.get("runs", 0) / max(trun, 1e-9) * 3600
    cov = {
        "evaluations": tot.get("runs", 0),
        "distinct_nontrivial": tot.get("nontrivial", 0),
        "rule": c["rule"],
        "samples": samples[:6] or ["no non-trivial run finished"],
        "runs_per_hour": round(rate),
        "seeds": "VERIF_SEED=%d, run indices 0..%d" % (seed, max(0, tot.get("runs", 0) - 1)),
        "simulated_seconds": round(tot.get("vtime_s", 0), 6),
        "memory_access_events": tot.get("events", 0),
        "context_switches": tot.get("switches", 0),
        "distinct_schedules": len(sets["sched_hashes"]),
        "distinct_states": len(sets["keys"]),
        "state_measure": c.get("state_measure", "distinct keys reported by the scenarios (configuration and outcome classes)"),
        "faults_injected": maps.get("faults", {}),
        "runs_with_fault": maps.get("faults_runs", {}),
        "probes": maps.get("probes", {}),
        "runs_per_scenario": maps.get("scenarios", {}),
        "discarded": maps.get("discards", {}),
        "determinism_rechecks": tot.get("rechecks", 0),
        "nondeterministic": tot.get("nondet", 0),
        "races_seen": tot.get("races", 0),
        "real_code": c["real"],
        "stubs": c["stubs"],
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": c["assume"], "wall_s": round(wall_s, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d distinct non-trivial), %d schedules, %d states, build %.0f s, runs %.0f s, discarded %s" % (
        prop, tier, tot.get("runs", 0), tot.get("nontrivial", 0), len(sets["sched_hashes"]), len(sets["keys"]), tb, trun, maps.get("discards", {})))
    for e in errs:
        print("NOTE:", e)
    for m, kind, msg in viol:
        print("%s: %s" % (kind, msg))
        print("VIOLATION property=%s replay=%s" % (prop, m))
    if viol:
        return 1
    if gate_fail:
        for x in gate_fail:
            print("ERROR: not reproducible:", x)
        return 2
    if tot.get("errors", 0) or tot.get("nondet", 0) or any("worker failed" in e for e in errs):
        print("ERROR: %d harness errors, %d nondeterministic runs" % (tot.get("errors", 0), tot.get("nondet", 0)))
        return 2
    if tot.get("nontrivial", 0) < c.get("min_nontrivial", 1):
        print("ERROR: only %d non-trivial runs" % tot.get("nontrivial", 0))
        return 2
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "build":
            from config import GROUPS
            for g in (sorted({CHECKS[p]["group"] for p in a[1:]}) if a[1:] else sorted(GROUPS)):
                t = time.time()
                print(g, build(g), "%.1f s" % (time.time() - t))
            return 0
        if len(a) == 2 and a[0] == "replay":
            txt = rd(a[1]).decode()
            prop = re.search(r"^property (\S+)", txt, re.M).group(1)
            return subprocess.run([build(CHECKS[prop]["group"]), "replay", a[1], "--verbose", "x"]).returncode
        if len(a) == 2 and a[0] in CHECKS:
            return check(a[0], a[1])
    except BuildError as e:
        print("BUILD ERROR:", e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    sys.exit(main())
