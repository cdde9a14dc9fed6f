#!/usr/bin/env python3
"""Builds the harness against /repo's working tree, runs the workers of one
property's check, merges what they report into evidence/<id>.json and prints
VIOLATION lines. Exit 0: held on everything explored; 1: violated; 2: error."""
import base64, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

from checks import CHECKS

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import thirdparty
HARNESS = os.path.join(ROOT, "harness")
REPO = "/repo"


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def build(pkg, tmp, race=False):
    """Compiles one harness package (and /repo with it) into tmp."""
    mod = os.path.join(tmp, "h.mod")
    if not os.path.exists(mod):
        shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "h.sum"))
    out = os.path.join(tmp, pkg + ("-race" if race else "") + ".test")
    thirdparty.ensure()
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out]
    if race:
        cmd.append("-race")
    r = subprocess.run(cmd + ["./" + pkg], cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die("build failed:\n" + r.stdout[-4000:])
    return out


FRAME = re.compile(r"^(\S.*)\(.*\)$|^created by (\S+)")


def crash_in_neffos(log):
    """True if the log shows a Go panic or fatal error whose first frame
    outside of the runtime and the standard library is neffos code."""
    i = max(log.find("panic: "), log.find("fatal error: "))
    m = re.search(r"^(panic: |fatal error: )", log, re.M)
    if not m:
        return False
    tail = log[m.start():]
    g = re.search(r"^goroutine \d+ .*\[running[^\n]*\n(.*?)(\n\n|\Z)", tail, re.M | re.S)
    if not g:
        return False
    for line in g.group(1).split("\n"):
        if line.startswith("\t") or not line.strip():
            continue
        name = line.strip()
        if name.startswith("created by "):
            break
        if "kataras/neffos" in name:
            return True
        if name.startswith("verif/"):
            return False
    return False


def last_plan(path):
    """The plan that was running when the worker died (see kit.crashFile)."""
    try:
        b = open(path, "rb").read()
        n = int.from_bytes(b[:8], "little")
        if 0 < n <= len(b) - 8:
            return json.loads(b[8:8 + n])
    except Exception:
        pass
    return None


def run_worker(binary, test, tmp, name, seed, checks, budget, cpus, extra_env=None, replay=None, replay_n=1, hard=None, shrink=15):
    stats = os.path.join(tmp, name + ".json")
    crash = os.path.join(tmp, name + ".plan")
    wd = os.path.join(tmp, name + ".d")
    os.makedirs(wd, exist_ok=True)
    env = dict(os.environ)
    env.update(VERIF_STATS=stats, VERIF_CRASH=crash, VERIF_BUDGET_S=str(budget), GOMAXPROCS=str(cpus), GOTRACEBACK="all")
    env.update(extra_env or {})
    if binary.endswith("-race.test"):
        env["GORACE"] = "exitcode=0 log_path=" + os.path.join(tmp, name + ".race")
    if replay:
        env["VERIF_REPLAY"] = replay
        env["VERIF_REPLAY_N"] = str(replay_n)
    cmd = [binary, "-test.run", "^%s$" % test, "-test.timeout", "0", "-rapid.seed", str(seed), "-rapid.checks", str(checks),
           "-rapid.nofailfile", "-rapid.shrinktime", "%ds" % shrink]
    log = os.path.join(tmp, name + ".log")
    t0 = time.time()
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, cwd=wd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=hard or budget + 330)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    st = None
    try:
        st = json.load(open(stats))
    except Exception:
        pass
    txt = open(log, "rb").read()[-2_000_000:].decode("utf8", "replace")
    r = dict(rc=rc, stats=st, log=txt, name=name, seed=seed, cpus=cpus, wall=time.time() - t0, violation=None, plan=None, hard=False)
    if st and st.get("violation"):
        r["violation"], r["plan"] = st["violation"], st.get("plan")
        r["hard"] = bool(st.get("deadlock"))
    elif rc not in (0, 1) and crash_in_neffos(txt):
        m = re.search(r"^(panic: |fatal error: )", txt, re.M)
        r["violation"] = "the process crashed:\n" + txt[m.start():m.start() + 4000]
        r["plan"] = last_plan(crash)
        r["hard"] = True
    shutil.rmtree(wd, ignore_errors=True)
    return r


def arrays(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from arrays(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path
        for i, y in enumerate(x):
            yield from arrays(y, path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def shrink_hard(plan, fails, deadline):
    """Shrinks a plan that kills its process: removes array elements."""
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for path in list(arrays(plan)):
            try:
                n = len(at(plan, path))
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, n // 2)
            while size >= 1 and time.time() < deadline:
                i = 0
                while i < len(at(plan, path)) and time.time() < deadline:
                    cand = json.loads(json.dumps(plan))
                    del at(cand, path)[i:i + size]
                    if fails(cand):
                        plan, changed = cand, True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
    return plan


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(os.path.abspath(sys.argv[2]))
    if sys.argv[1:] == ["setup"]:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            for k in sorted({(p["pkg"], p.get("race", False)) for c in CHECKS.values() for p in c["parts"]}):
                build(k[0], tmp, k[1])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("usage: check.sh PROPERTY [quick|thorough]")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        rc = check(prop, tier, cfg, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def jobs_for(prop, tier, cfg, seed):
    n = cfg.get("workers", 8)
    parts = cfg["parts"]
    jobs = []
    for pi, part in enumerate(parts):
        w = part.get("workers", n)
        checks = part["quick"] if tier == "quick" else part.get("thorough", part["quick"] * 15)
        budget = part.get("budget", 60) if tier == "quick" else part.get("tbudget", 540)
        for i in range(w):
            s = (seed * 1000003 + pi * 7919 + i * 104729 + 17) & 0x7FFFFFFFFFFFFFFF
            cp = part.get("cpus", [1, 2, 4, 1, 2, 4, 1, 2])
            jobs.append(dict(part=part, name="%s-%d-%d" % (part["test"], pi, i), seed=s or 1, checks=max(1, checks // w), budget=budget, cpus=cp[i % len(cp)]))
    return jobs


def check(prop, tier, cfg, seed, tmp, t0):
    jobs = jobs_for(prop, tier, cfg, seed)
    bins = {}
    for j in jobs:
        k = (j["part"]["pkg"], j["part"].get("race", False))
        if k not in bins:
            bins[k] = build(k[0], tmp, k[1])
    known = known_findings(prop)
    env = {"VERIF_KNOWN": ",".join(k for k, _ in known), "VERIF_PROP": prop, "VERIF_TIER": tier}

    def go(j):
        k = (j["part"]["pkg"], j["part"].get("race", False))
        return run_worker(bins[k], j["part"]["test"], tmp, j["name"], j["seed"], j["checks"], j["budget"], j["cpus"], dict(env, **j["part"].get("env", {})))

    with ThreadPoolExecutor(max_workers=cfg.get("parallel", 8)) as ex:
        results = list(ex.map(go, jobs))

    bad = [(j, r) for j, r in zip(jobs, results) if r["violation"]]
    errors = []
    for r in results:
        if r["violation"]:
            continue
        if r["rc"] != 0 or not r["stats"] or not r["stats"].get("done"):
            errors.append("%s: rc=%s %s\n%s" % (r["name"], r["rc"], (r["stats"] or {}).get("inconclusive", "")[:3000], r["log"][-3000:]))
    ev, labels, samples, distinct, nontriv, knownhits = 0, {}, [], set(), 0, {}
    for r in results:
        st = r["stats"]
        if not st:
            continue
        ev += st["evaluations"]
        nontriv += st["nontrivial"]
        distinct.update(st.get("distinct") or [])
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (st.get("known") or {}).items():
            knownhits[k] = knownhits.get(k, 0) + v
        samples += st.get("samples") or []
    evidence = dict(
        property=prop, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
        coverage=dict(evaluations=ev, nontrivial=nontriv, distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=samples[:6],
                      labels=labels, workers=[dict(name=r["name"], seed=r["seed"], gomaxprocs=r["cpus"], wall_s=round(r["wall"], 2)) for r in results]),
        assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)

    print("%s %s: %d cases, %d non-trivial, %d distinct non-trivial, %.1fs" % (prop, tier, ev, nontriv, len(distinct), time.time() - t0))
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    if bad:
        j, r = min(bad, key=lambda x: (x[1]["hard"], len(json.dumps(x[1]["plan"])) if x[1]["plan"] else 10**9))
        plan = r["plan"]
        k = (j["part"]["pkg"], j["part"].get("race", False))
        if r["hard"] and plan is not None:
            cnt = [0]

            def fails(p):
                cnt[0] += 1
                f = os.path.join(tmp, "shrink.in")
                json.dump({"plan": p}, open(f, "w"))
                x = run_worker(bins[k], j["part"]["test"], tmp, "shrink", 1, 1, 60, j["cpus"], dict(env, **j["part"].get("env", {})), replay=f, replay_n=5, hard=60)
                return bool(x["violation"])
            plan = shrink_hard(plan, fails, time.time() + cfg.get("shrink_s", 60))
        out = os.path.join(ROOT, "out", prop)
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "replay.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, pkg=k[0], race=k[1], test=j["part"]["test"], env=j["part"].get("env", {}), cpus=j["cpus"], seed=r["seed"], violation=r["violation"][:8000], plan=plan), f, indent=1)
        print("violation:", r["violation"][:6000])
        print("plan:", json.dumps(plan)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        b = build(d["pkg"], tmp, d.get("race", False))
        env = dict(d.get("env", {}), VERIF_PROP=d["property"], VERIF_KNOWN="", VERIF_TIER="quick")
        r = run_worker(b, d["test"], tmp, "replay", 1, 1, 60, d.get("cpus", 1), env, replay=path, replay_n=50)
        print(r["log"][-6000:])
        if r["violation"]:
            print("violation:", r["violation"][:6000])
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            sys.exit(1)
        print("the replayed case did not fail in 50 runs" if r["rc"] == 0 else "error rc=%s" % r["rc"])
        sys.exit(0 if r["rc"] == 0 else 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
