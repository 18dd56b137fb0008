#!/usr/bin/env python3
"""Check runner.

  vf.py check P14 [--tier quick|thorough]   run one property's check
  vf.py replay <replay.json>                run one recorded failing case again
  vf.py setup                               build everything once (a warm-up; checks rebuild what they need)
"""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)

def sh(cmd, **kw):
    return subprocess.run(cmd, **kw)

class CheckError(Exception): pass

def mirror(src, dst, subdirs):
    """Copies the C/C++ sources of src into dst, touching only files whose content differs, so that
    what is compiled depends on content and never on time stamps of the original files."""
    want = {}
    for d in subdirs:
        p = os.path.join(src, d)
        if not os.path.isdir(p): continue
        for f in sorted(os.listdir(p)):
            if f.endswith((".cpp", ".hpp", ".h", ".sim", ".cc", ".c", ".inc")) and os.path.isfile(os.path.join(p, f)): want[os.path.join(d, f)] = open(os.path.join(p, f), "rb").read()
    for d in subdirs: os.makedirs(os.path.join(dst, d), exist_ok=True)
    for d in subdirs:
        for f in os.listdir(os.path.join(dst, d)):
            r = os.path.join(d, f)
            if os.path.isfile(os.path.join(dst, r)) and os.path.normpath(r) not in {os.path.normpath(x) for x in want}: os.unlink(os.path.join(dst, r))
    for r, c in want.items():
        t = os.path.join(dst, r)
        if not os.path.exists(t) or open(t, "rb").read() != c:
            with open(t, "wb") as f: f.write(c)

def build():
    import fcntl
    top = os.path.join(BUILD, "sim" if REPO == "/repo" else "sim-" + REPO.strip("/").replace("/", "_"))
    out, rsrc, hsrc = os.path.join(top, "o"), os.path.join(top, "repo"), os.path.join(top, "harness")
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(top, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror(REPO, rsrc, ["", "reordering", "synk"]); mirror(os.path.join(HERE, "harness"), hsrc, [""])
        log = os.path.join(top, "build.log")
        with open(log, "w") as f:
            r = sh(["make", "-j8", "-f", os.path.join(hsrc, "Makefile.sim"), "REPO=" + rsrc, "OUT=" + out], stdout=f, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(open(log).read()[-3000:])
            raise CheckError("build failed")
    return os.path.join(out, "drv")

def generate(mode, tier, seed, work):
    """Histories generated by TLC from a specification (lines it prints as GEN <json>), for the driver to replay."""
    import checks
    path = os.path.join(work, "gen-%s.txt" % mode); runs = []
    with open(path, "w") as f:
        for g in checks.GENERATORS.get(mode, []):
            if tier not in g.get("tiers", ("quick", "thorough")): continue
            extra = list(g.get("extra", ()))
            if "-simulate" in extra: extra += ["-seed", str(seed)]
            r = tlc(g["module"] + ".tla", g["cfg"], workers=1, heap="4g", extra=extra)
            ls = [json.loads(x)[4:] for x in r["out"].split("\n") if x.startswith('"GEN ')]
            if r["rc"] != 0 or not ls: raise CheckError("generator %s/%s: rc=%s\n%s" % (g["module"], g["cfg"], r["rc"], r["out"][-1500:]))
            random.Random(seed).shuffle(ls); ls = ls[:g.get("limit", {}).get(tier, 10 ** 9)]
            f.write("\n".join(ls) + "\n"); runs.append({"kind": "generator", "module": g["module"], "cfg": g["cfg"], "histories": len(ls), "distinct_states": r["distinct"], "states_generated": r["states"]})
    return path, runs

def run_driver(drv, mode, tier, seed, work, only=None, sched=None, scale=None):
    gen, gruns = generate(mode, tier, seed, work)
    d = os.path.join(work, "drv-" + mode); os.makedirs(d, exist_ok=True)
    for f in os.listdir(d): os.unlink(os.path.join(d, f))
    cmd = [drv, "--mode", mode, "--tier", tier, "--seed", str(seed), "--out", d, "--jobs", "8"]
    if only: cmd += ["--case", only]
    if sched is not None: cmd += ["--sched", str(sched)]
    if scale: cmd += ["--scale", str(scale)]
    env = dict(os.environ, SIM_TMP=d, SIM_GEN=gen)
    r = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=d, env=env)
    if r.returncode: raise CheckError("driver %s failed (%d): %s" % (mode, r.returncode, r.stderr[-500:]))
    st = json.loads(r.stdout.strip().splitlines()[-1]); st["gen"] = gruns
    lines = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".ndjson"):
            with open(os.path.join(d, f), errors="replace") as fh: lines += [x for x in fh.read().split("\n") if x]
    return lines, st

def tlc(module, cfg, env=None, workers=1, heap="3g", extra=(), timeout=850, props=()):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=BUILD)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss128m"] + list(props) + ["-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    t0 = time.time()
    try:
        r = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPEC, env=dict(os.environ, **(env or {})), timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -9
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    states, distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"rc": rc, "out": out, "states": states, "distinct": distinct, "wall": time.time() - t0}

def validate_shard(args):
    """Checks one shard of trace lines against a trace module.  Returns (rejections, stats).
    A line on which the specification cannot even be evaluated (the observed data lies outside every
    type the specification knows) is a rejection too: it is removed and the rest is checked."""
    module, cfg, lines, work, tag, env = args
    path = os.path.join(work, tag + ".ndjson")
    rej = []; live = list(range(len(lines))); st = {"states": 0, "distinct": 0, "wall": 0}
    for attempt in range(12):
        with open(path, "w") as f:
            for i in live: f.write(lines[i] + "\n")
        if not live: break
        r = tlc(module, cfg, dict(env or {}, TRACE=path))
        st["wall"] += r["wall"]
        here = [(int(a), b) for a, b in re.findall(r'<<"REJ", (\d+), (.*?)>>\s*$', r["out"], re.M)]
        m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', r["out"])
        if m and m.group(1) == m.group(2) and r["rc"] == 0:
            rej += [(live[a - 1], b) for a, b in here]
            st["states"] += r["states"]; st["distinct"] += r["distinct"]
            return rej, st
        ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", r["out"])]
        if r["rc"] in (-9,) or not ls:
            raise CheckError("TLC failed on %s: rc=%s\n%s" % (module, r["rc"], r["out"][-2500:]))
        bad = ls[-1]
        why = re.findall(r"(?:Error: |error: )(.*)", r["out"])
        msg = " ".join(re.findall(r"^(?:Error:|The error|Attempted|In evaluation|.*overflow).*$", r["out"], re.M))[:300]
        rej.append((live[bad - 1], '"cannot be evaluated: %s"' % msg.replace('"', "'")))
        rej += [(live[a - 1], b) for a, b in here if a < bad]
        live = live[bad:]           # lines before `bad` were consumed
        if not live: break
    return rej, st

def validate(module, cfg, lines, work, tag, nshards=6, env=None):
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    n = max(1, min(nshards, (len(lines) + 39) // 40))
    shards = [[] for _ in range(n)]
    for k, i in enumerate(order): shards[k % n].append(i)
    for s in shards: s.sort()
    jobs = [(module, cfg, [lines[i] for i in s], work, "%s-%d" % (tag, j), env) for j, s in enumerate(shards)]
    rej, stats = [], {"states": 0, "distinct": 0}
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        for s, (r, st) in zip(shards, ex.map(validate_shard, jobs)):
            rej += [(s[i], why) for i, why in r]
            stats["states"] += st["states"]; stats["distinct"] += st["distinct"]
    return sorted(rej), stats

def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []

def check(pid, tier, seed):
    import checks
    C = checks.CHECKS[pid]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True); os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "executions_of_real_code": 0,
           "interleaving_steps": 0, "context_switches": 0, "cases": 0, "parts": []}
    viol, known, ran = [], [], {}
    try:
        drv = build()
        with cf.ThreadPoolExecutor(max_workers=3) as ex:
            mods = [m for m in C.get("models", []) if tier in m.get("tiers", ("quick", "thorough"))]
            futs = [(m, ex.submit(tlc, m["module"] + ".tla", m["cfg"], m.get("env"), m.get("workers", 2), m.get("heap", "4g"), m.get("extra", ()), m.get("timeout", 800))) for m in mods]
            for part in C.get("traces", []):
                if tier not in part.get("tiers", ("quick", "thorough")): continue
                key = (part["mode"], part.get("scale"))
                if key not in ran: ran[key] = run_driver(drv, part["mode"], tier, seed, work, scale=part.get("scale"))
                lines, st = ran[key]
                if part.get("filter"): lines = [x for x in lines if part["filter"](json.loads(x))]
                if part.get("prepare"): lines = part["prepare"](lines)
                if not lines: raise CheckError("driver %s produced no events" % part["mode"])
                rej, vs = validate(part["module"] + ".tla", part.get("cfg", part["module"] + ".cfg"), lines, work, part["mode"] + "-" + part["module"], part.get("shards", 6), part.get("env"))
                cov["states"] += vs["distinct"]; cov["transitions"] += max(0, vs["states"] - 1)
                cov["traces_validated_against_impl"] += len(lines); 
                if not any(q.get("mode") == part["mode"] for q in cov["parts"]):
                    cov["executions_of_real_code"] += st["execs"]; cov["interleaving_steps"] += st["steps"]; cov["context_switches"] += st["switches"]; cov["cases"] += st["cases"]; cov["parts"] += st["gen"]
                cov["parts"].append({"kind": "conformance", "mode": part["mode"], "module": part["module"], "cases": st["cases"], "executions": st["execs"], "distinct_observations": len(lines), "tlc_states": vs["distinct"]})
                for i in (0, len(lines) // 2):
                    if len(cov["samples"]) < 4: cov["samples"].append(lines[i][:900])
                for i, why in rej:
                    ev = json.loads(lines[i])
                    if part.get("ignore") and part["ignore"](ev, why): continue
                    kf = None
                    for k in known_findings():
                        if k.get("status") == "known" and k["property"] == pid and checks.matches(k["match"], ev, why): kf = k
                    if kf: known.append((kf, ev)); continue
                    rp = os.path.join(BUILD, "replay", "%s-%d.json" % (pid, len(viol))); os.makedirs(os.path.dirname(rp), exist_ok=True)
                    json.dump({"property": pid, "mode": part["mode"], "module": part["module"], "tier": tier, "seed": seed, "scale": part.get("scale"), "case": ev["case"], "T": ev["T"], "k": ev["k"], "rejected": why, "event": ev}, open(rp, "w"))
                    viol.append((rp, "case %s T=%s schedule=%s op=%s: %s" % (ev["case"], ev["T"], ev["k"], ev["op"], (ev["st"] + " " + ev["out"].get("detail", "")) if ev["st"] != "ok" else "rejected by %s at %s" % (part["module"], why))))
            for m, f in futs:
                r = f.result()
                ok = (r["rc"] == 0) if not m.get("expect_violation") else (r["rc"] not in (0, -9) and "is violated" in r["out"] or "Deadlock reached" in r["out"])
                if not ok: raise CheckError("model %s/%s: rc=%s\n%s" % (m["module"], m["cfg"], r["rc"], r["out"][-2500:]))
                cov["states"] += r["distinct"]; cov["transitions"] += max(0, r["states"] - 1)
                cov["parts"].append({"kind": "model", "module": m["module"], "cfg": m["cfg"], "distinct_states": r["distinct"], "states_generated": r["states"], "wall_s": round(r["wall"], 1), "expect_violation": bool(m.get("expect_violation"))})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C["level"], "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol), "assumptions": checks.ASSUMPTIONS + C.get("assumptions", [])}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in {x[0]["id"]: x[0] for x in known}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for rp, msg in viol[:20]:
        print("VIOLATION property=%s replay=%s" % (pid, rp)); print("  " + msg)
    print("%s %s: %d observations of %d executions validated, %d model states, %d violation(s), %.1fs" % (pid, tier, cov["traces_validated_against_impl"], cov["executions_of_real_code"], cov["states"], len(viol), time.time() - t0))
    return 1 if viol else 0

def replay(path):
    import checks
    r = json.load(open(path)); os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    try:
        lines, st = run_driver(build(), r["mode"], r["tier"], r["seed"], work, only=r["case"], sched=r["k"] if r["k"] else None, scale=r.get("scale"))
        part = [p for p in checks.CHECKS[r["property"]]["traces"] if p["mode"] == r["mode"] and p["module"] == r["module"] and r["tier"] in p.get("tiers", ("quick", "thorough"))][0]
        if part.get("prepare"): lines = part["prepare"](lines)
        rej, _ = validate(part["module"] + ".tla", part.get("cfg", part["module"] + ".cfg"), lines, work, "replay", env=part.get("env"))
        for i, why in rej: print("REJECTED", why, lines[i][:3000])
        return 1 if rej else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("cmd"); ap.add_argument("arg", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    try:
        if a.cmd == "check": sys.exit(check(a.arg, a.tier, a.seed))
        if a.cmd == "replay": sys.exit(replay(a.arg))
        if a.cmd == "setup": os.makedirs(BUILD, exist_ok=True); build(); print("built"); sys.exit(0)
    except CheckError as e:
        sys.stderr.write("ERROR: %s\n" % e); sys.exit(3)
    sys.exit(2)
