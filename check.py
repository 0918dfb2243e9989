#!/usr/bin/env python3
"""check.py <property> [quick|thorough] [--case ID]: build the harness with the race
detector from /repo's working tree, run one property's monitors in a child process,
judge what the child, the race detector and the runtime reported, write the evidence."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
LEVEL = {"C05": "fault_enumeration", "P03": "fault_enumeration"}
# fewest distinct non-trivial cases a quick run must have observed for a verdict
FLOOR = {"C01": 5000, "C02": 3000, "C03": 1500, "C04": 100, "C05": 1500, "C06": 50, "C07": 300, "C08": 500,
         "C09": 200, "C10": 2000, "R01": 200, "R02": 100, "R03": 200, "P01": 300, "P02": 60, "P03": 250,
         "S01": 2000, "S02": 400, "S03": 2000, "S04": 60, "X01": 250, "X02": 60, "X03": 200, "X04": 8, "X05": 8}


# what the peer sends must not make the process grow without bound: the run is stopped, and is a violation, beyond this
MEMORY_MB = 8000
MEMORY_BOUND = ("S03", "C10")


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    e.pop("GORACE", None)
    return e


def build(out, race=True):
    cmd = ["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", out, "."]
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env(), capture_output=True, text=True)
    if p.returncode:
        print("build of the harness against /repo failed:\n" + p.stdout + p.stderr)
    return p.returncode == 0


def build_router(out):
    p = subprocess.run(["go", "build", "-buildvcs=false", "-race", "-o", out, "./cmd/router"], cwd="/repo",
                       env=env(), capture_output=True, text=True)
    if p.returncode:
        print("build of cmd/router failed:\n" + p.stdout + p.stderr)
    return p.returncode == 0


def race_reports(pattern):
    reps = []
    for f in glob.glob(pattern):
        t = open(f, errors="replace").read()
        for b in t.split("=================="):
            if "WARNING: DATA RACE" in b:
                reps.append(b.strip())
    return reps


def blamed(rep):
    """One of the two accesses is made by the code under test (or by the library on its behalf)."""
    for part in re.split(r"\n\s*\n", rep):
        lines = [l.strip() for l in part.strip().splitlines()]
        if lines and lines[0].startswith("WARNING"):
            lines = lines[1:]
        if not lines or not re.match(r"(Previous )?(atomic )?(read|write) ", lines[0], re.I):
            continue
        for l in lines[1:]:
            if l.startswith("/repo/"):
                return True
            if l.startswith(HERE + "/"):
                break
    return False


def resident(pid):
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * 4 // 1024
    except (OSError, IndexError, ValueError):
        return 0


def unfinished(trace):
    """The cases that had begun and not ended."""
    started = []
    if os.path.exists(trace):
        for l in open(trace):
            k, _, c = l.strip().partition(" ")
            if k == "start":
                started.append(c)
            elif c in started:
                started.remove(c)
    return started


def known():
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)$", l.strip())
            if m:
                ks.append((m.group(1), m.group(2)))
    return ks


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[2:]
    case = ""
    if "--case" in args:
        i = args.index("--case")
        case = args[i + 1]
        del args[i:i + 2]
    if args:
        tier = args[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        return run(prop, tier, seed, case, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, case, tmp):
    t0 = time.time()
    exe = os.path.join(tmp, "harness")
    if not build(exe):
        return 2
    e = env()
    if prop in ("X04", "X05"):
        r = os.path.join(tmp, "router")
        if not build_router(r):
            return 2
        e["VERIF_ROUTER"] = r
    built = time.time() - t0
    res, trace, log = (os.path.join(tmp, x) for x in ("result.json", "trace", "stderr"))
    e["GORACE"] = "log_path=%s/race halt_on_error=0 exitcode=0 history_size=2" % tmp
    e["VERIF_TMP"] = tmp
    e["TMPDIR"] = tmp
    cmd = [exe, "-prop", prop, "-tier", tier, "-seed", str(seed), "-out", res, "-trace", trace]
    if case:
        cmd += ["-case", case]
    limit = 780 if tier == "quick" else 4 * 3600
    timed_out = False
    with open(log, "wb") as lf, open(os.path.join(tmp, "stdout"), "wb") as of:
        p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=of, stderr=lf, start_new_session=True)
        rc, full = None, 0
        while rc is None and not timed_out and not full:
            try:
                rc = p.wait(0.05)
            except subprocess.TimeoutExpired:
                timed_out = time.time() - t0 - built > limit
                mb = resident(p.pid)
                full = mb if mb > MEMORY_MB else 0
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    out = json.load(open(res)) if os.path.exists(res) else None
    violations = list((out or {}).get("violations") or [])
    errors = list((out or {}).get("harness") or [])
    races = race_reports(os.path.join(tmp, "race*"))
    for r in races:
        if blamed(r):
            violations.append({"case": "race detector", "what": "data race: " + r[:6000]})
        elif os.environ.get("VERIF_STRICT"):
            errors.append("data race within the harness:\n" + r[:3000])
        else:
            print("note: data race within the harness: " + " ".join(r.split())[:400])
    if timed_out:
        errors.append("the harness did not finish within %d s" % limit)
    elif full or rc == -9:
        what = "the process was stopped holding %d MB" % full if full else "the process was killed, as happens when memory runs out"
        v = {"case": (unfinished(trace) or [""])[0], "what": what + "; a usual run holds less than 500 MB", "running": unfinished(trace)[:20]}
        (violations if prop in MEMORY_BOUND else errors).append(v if prop in MEMORY_BOUND else what)
    elif out is None or rc != 0:
        tail = open(log, errors="replace").read()
        m = re.search(r"(^panic: |^fatal error: |^runtime: |^SIG[A-Z]+|unexpected fault address)", tail, re.M)
        dump = tail[m.start():][:12000] if m else tail[-3000:]
        started = unfinished(trace)
        # the goroutine that crashed comes first
        first = re.split(r"\n\s*\n(?=goroutine )", dump)
        culprit = "\n\n".join(first[:2])
        if m and "/repo/" in culprit:
            violations.append({"case": started[0] if started else "", "what": "the process crashed in the code under test: " + dump[:300],
                               "detail": culprit.splitlines()[:80], "running": started[:20]})
        else:
            errors.append("the harness ended with status %s: %s" % (rc, dump[:3000]))
    fresh = []
    ks = known()
    for v in violations:
        text = v.get("case", "") + " " + v["what"]
        hit = next((k for k in ks if k[0] == prop and re.search(k[1], text, re.S)), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, v["what"].splitlines()[0][:300]))
        else:
            fresh.append(v)
    cov = dict((out or {}).get("coverage") or {"evaluations": 0, "distinct_nontrivial": 0})
    if not cov.get("samples"):
        cov["samples"] = [v["what"][:300] for v in violations[:2]]
    cov["data_races_reported"] = len(races)
    cov["inconclusive_cases"] = len((out or {}).get("inconclusive") or [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": (out or {}).get("assumptions") or [], "wall_s": round(time.time() - t0, 2),
          "build_s": round(built, 2), "violations": len(fresh)}
    if not case:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d executions, %d distinct, %d races, %.1f s" % (
        prop, tier, seed, cov.get("evaluations", 0), cov.get("distinct_nontrivial", 0), len(races), time.time() - t0))
    if fresh:
        path = os.path.join(HERE, "evidence", prop + ".replay.json")
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "rerun": ["VERIF_SEED=%d python3 %s/check.py %s %s --case '%s'" % (seed, HERE, prop, tier, v.get("case", "")) for v in fresh[:3]],
                   "violations": fresh}, open(path, "w"), indent=1)
        print("\n".join("  %s: %s" % (v.get("case", ""), v["what"][:600]) for v in fresh[:3]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("no verdict:\n" + "\n".join(x[:3000] for x in errors[:3]))
        return 2
    if not case:
        if tier == "quick" and cov.get("distinct_nontrivial", 0) < FLOOR.get(prop, 1):
            print("no verdict: only %d distinct cases were observed; inconclusive: %s" % (
                cov.get("distinct_nontrivial", 0), (out.get("inconclusive") or [])[:3]))
            return 2
    return 0


sys.exit(main())
