#!/usr/bin/env python3
"""Runs the check of one property: check.py <id> [--keep]

Builds the harness from /repo's working tree, runs the phases of the property,
merges what the monitors observed into evidence/<id>.json.
exit 0: held on everything explored; 1: violation; 2: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

PKG = "gitee.com/coco/go808"


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e["GOTOOLCHAIN"] = "local"
    e["GOPROXY"] = "off"
    e["GOFLAGS"] = "-mod=readonly"
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["GONOSUMDB"] = "*"
    return e


def instrument(scratch):
    """Copies of the library's files with a yield point before every statement."""
    d = os.path.join(scratch, "instr")
    os.makedirs(d, exist_ok=True)
    tool = os.path.join(scratch, "instr.bin")
    p = subprocess.run(["go", "build", "-o", tool, "."], cwd=os.path.join(VERIF, "tools/instr"), env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        p = subprocess.run([tool, REPO, d, "0"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode == 0:
            open(os.path.join(scratch, "points.txt"), "w").write(p.stdout)
            return os.path.join(d, "overlay.json")
        p.stdout = p.stderr
    print("note: no statement points: " + p.stdout[-500:])
    return None


def build(race, scratch, overlay=None):
    out = os.path.join(scratch, "h.race.test" if race else "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    if REPO != "/repo":  # development aid: check another copy of the repository
        mf = os.path.join(scratch, "go.mod")
        s = open(os.path.join(VERIF, "harness/go.mod")).read()
        s = s.replace("=> /repo", "=> " + REPO)
        open(mf, "w").write(s)
        shutil.copy(os.path.join(VERIF, "harness/go.sum"), os.path.join(scratch, "go.sum"))
        cmd.append("-modfile=" + mf)
    if overlay:
        cmd.append("-overlay=" + overlay)
    cmd.append(".")
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 and overlay:
        print("note: built without statement points: " + p.stdout[-500:])
        os.remove(os.path.join(scratch, "points.txt"))
        return build(race, scratch)
    if p.returncode != 0:
        print("build failed:\n" + p.stdout, file=sys.stderr)
        sys.exit(2)
    return out


def crash_violation(err):
    """A crash counts as a violation when code of the library is on the crashing stack."""
    m = re.search(r"^(panic: .*|fatal error: .*|SIG\w+: .*)$", err, re.M)
    if not m:
        return None
    tail = err[m.start():]
    if "deliberate-panic" in m.group(1):
        return "crash", tail[:6000]
    if tail.startswith("fatal error: all goroutines are asleep") or "deadlock" in m.group(1):
        return ("crash", tail[:6000]) if PKG in tail else None
    g = re.search(r"^goroutine \d+.*?:\n(.*?)(?:\n\n|\Z)", tail, re.M | re.S)
    stack = g.group(1) if g else tail
    for line in stack.split("\n"):
        if line.startswith("verif/harness."):
            break
        if PKG in line or "funny/link" in line:
            return "crash", tail[:6000]
    return None


RACE_RE = re.compile(r"==================\nWARNING: DATA RACE\n.*?==================", re.S)


def race_key(rep):
    """The pair of racing accesses, as functions of the library (not line numbers)."""
    funcs = []
    for part in re.split(r"\n\n", rep)[:2]:
        for line in part.split("\n")[1:]:
            s = line.strip()
            if s.startswith(PKG):
                funcs.append(re.sub(r"\(\)$", "", s.split("/")[-1]))
                break
    return "race:" + "|".join(sorted(set(funcs)))


def run_phase(exe, ph, prop, shard, nshards, scratch, race_counts):
    name = ph["test"]
    tag = "%s.%d" % (name, shard)
    out = os.path.join(scratch, tag + ".json")
    tmp = os.path.join(scratch, "tmp." + tag)
    os.makedirs(tmp, exist_ok=True)
    env = goenv()
    env.update(VERIF_OUT=out, VERIF_SHARD=str(shard), VERIF_SHARDS=str(nshards), TMPDIR=tmp,
               GOTRACEBACK="all", VERIF_EXE=exe, VERIF_POINTS=os.path.join(scratch, "points.txt"), TZ=ph.get("tz", "Asia/Shanghai"))
    env.setdefault("VERIF_SEED", "1")
    env["VERIF_TIER"] = TIER
    env["GODEBUG"] = ph.get("godebug", "rsa1024min=0")
    env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3 log_path=" + os.path.join(scratch, tag + ".race")
    env["VERIF_STUCK_MS"] = str(ph.get("stuck_ms", 120000))
    # few processors make other interleavings likely than many
    procs = {5: 1, 6: 2, 7: 3}.get(shard % 8)
    if procs and not ph.get("real"):
        env["GOMAXPROCS"] = str(procs)
    limit = ph.get("limit_s", 780 if TIER == "quick" else 7200)
    t0 = time.time()
    errf = os.path.join(scratch, tag + ".err")
    with open(errf, "wb") as ef:
        p = subprocess.Popen([exe, "-test.run", "^%s$" % name, "-test.timeout", "0", "-test.count", "1"],
                             cwd=tmp, env=env, stdout=ef, stderr=ef, start_new_session=True)
        timed_out = False
        try:
            p.wait(limit)
        except subprocess.TimeoutExpired:
            timed_out = True
            os.killpg(p.pid, signal.SIGQUIT)
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    wall = time.time() - t0
    err = open(errf, "rb").read().decode("utf8", "replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    if res is None:
        res = {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "violations": [], "done": False}
    res["violations"] = res.get("violations") or []
    res["samples"] = res.get("samples") or []
    res["phase"], res["shard"], res["wall"] = name, shard, wall
    res["error"] = None
    if not res["done"]:
        cv = crash_violation(err) if not timed_out else None
        if cv:
            res["violations"].append({"key": cv[0], "what": "the process crashed:\n" + cv[1]})
        else:
            res["error"] = ("time limit of %d s reached" % limit if timed_out else
                            "phase ended with status %s" % p.returncode) + "\n" + err[:4000] + "\n[...]\n" + err[-3000:]
    if race_counts:
        n = 0
        seen = set()
        for f in os.listdir(scratch):
            if f.startswith(tag + ".race."):
                for rep in RACE_RE.findall(open(os.path.join(scratch, f), errors="replace").read()):
                    n += 1
                    # reports with no library frame in either access are the harness' own business
                    k = race_key(rep)
                    if k == "race:":
                        if PKG not in rep:
                            res["error"] = "race report without library frames:\n" + rep[:3000]
                            continue
                    if k not in seen and len(seen) < 5:
                        seen.add(k)
                        res["violations"].append({"key": k, "what": "data race\n" + rep[:6000]})
        res["counters"]["race_reports"] = n
    shutil.rmtree(tmp, ignore_errors=True)
    return res


def known(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    global TIER
    prop = sys.argv[1]
    TIER = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        TIER = "thorough"
    if TIER not in ("quick", "thorough"):
        TIER = "quick"
    c = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    os.chmod(scratch, 0o755)
    try:
        jobs = []
        exes = {}
        overlay = instrument(scratch)
        for ph in c["phases"]:
            race = ph.get("race", False)
            if race not in exes:
                exes[race] = build(race, scratch, overlay if c.get("points", True) else None)
            n = ph.get("shards", {}).get(TIER, 1) if isinstance(ph.get("shards"), dict) else ph.get("shards", 1)
            for s in range(n):
                jobs.append((ph, s, n))
        tb = time.time() - t0
        with ThreadPoolExecutor(max_workers=c.get("parallel", 8)) as ex:
            results = list(ex.map(lambda j: run_phase(exes[j[0].get("race", False)], j[0], prop, j[1], j[2],
                                                      scratch, c.get("races", False)), jobs))
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch kept:", scratch)
    kf = known(prop)
    counters, samples, viol, errors, phases = {}, [], [], [], {}
    ev = dist = 0
    for r in results:
        ev += r["evaluations"]
        dist += r["distinct"]
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        if r["samples"]:
            samples += ["%s: %s" % (r["phase"], s) for s in r["samples"][:2]]
        for v in r["violations"]:
            viol.append((r, v))
        if r["error"]:
            errors.append("%s shard %d: %s" % (r["phase"], r["shard"], r["error"]))
        p = phases.setdefault(r["phase"], {"shards": 0, "evaluations": 0, "wall_s": 0})
        p["shards"] += 1
        p["evaluations"] += r["evaluations"]
        p["wall_s"] = round(max(p["wall_s"], r["wall"]), 2)
    fresh, old = [], {}
    for r, v in viol:
        if v["key"] in kf:
            old[v["key"]] = old.get(v["key"], 0) + 1
        else:
            fresh.append((r, v))
    evid = {
        "property": prop, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": c["level"],
        "coverage": {"evaluations": ev, "distinct_nontrivial": dist, "rule": c["rule"],
                     "samples": samples[:12], "observed": counters, "phases": phases},
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1, ensure_ascii=False)
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[k]))
    if fresh:
        rdir = os.path.join(edir, "replay")
        os.makedirs(rdir, exist_ok=True)
        shown = 0
        for i, (r, v) in enumerate(fresh[:6]):
            path = os.path.join(rdir, "%s-%d.txt" % (prop, i))
            with open(path, "w") as f:
                f.write("property %s\nphase %s shard %d of %d seed %s tier %s\nkey %s\n\n%s\n" % (
                    prop, r["phase"], r["shard"], phases[r["phase"]]["shards"],
                    os.environ.get("VERIF_SEED", "1"), TIER, v["key"], v["what"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  " + v["what"].split("\n")[0][:400])
            shown += 1
        sys.exit(1)
    if errors:
        print("check error:\n" + "\n".join(errors), file=sys.stderr)
        sys.exit(2)
    print("%s held: %d evaluations, %d distinct, build %.1fs, total %.1fs %s" % (
        prop, ev, dist, tb, time.time() - t0, json.dumps(counters)))


TIER = "quick"
try:
    main()
except Exception:  # a failure of the check is no verdict
    import traceback
    traceback.print_exc()
    sys.exit(2)
