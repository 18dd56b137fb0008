"""Which drivers, trace specifications and models decide each property."""
ASSUMPTIONS = [
  "sequentially consistent interleavings of the compiled code's memory accesses (no store-buffer reordering)",
  "g++ -O1 instrumented build of /repo's current sources; inputs within the stated small bounds",
]
def matches(m, ev, why):
    for k, v in m.items():
        cur = ev
        for part in k.split("."):
            if part == "why": cur = why; break
            cur = cur.get(part) if isinstance(cur, dict) else None
        if isinstance(v, list):
            if cur not in v: return False
        elif cur != v: return False
    return True
CHECKS = {}
def matrix(pid, **kw):
    CHECKS[pid] = dict({"level": "model_checking", "traces": [{"mode": pid, "module": "MatrixStoreTrace"}]}, **kw)
for _p in ("P14", "P15", "P21", "P23", "P24", "P25", "P29"): matrix(_p)

def model(module, suffix, **kw): return dict({"module": module, "cfg": "%s_%s.cfg" % (module, suffix)}, **kw)
_dis = [model("DissemBarrier", s) for s in ("2x1", "3x1", "4x1", "1x2", "1x3", "2x2")] + [model("DissemBarrier", s, tiers=("thorough",), workers=4) for s in ("5x1", "3x2", "2x3")] + [model("DissemBarrier", "single", expect_violation=True)]
_hang = lambda ev, why: ev["st"] == "hang"
CHECKS["P01"] = {"level": "model_checking", "traces": [{"mode": "P01", "module": "BarrierTrace", "ignore": _hang}], "models": _dis}
CHECKS["P02"] = {"level": "model_checking", "traces": [{"mode": "P01", "module": "BarrierTrace", "ignore": lambda ev, why: why.endswith('"leave"')}], "models": _dis}
CHECKS["P03"] = {"level": "model_checking", "traces": [{"mode": "P03", "module": "BarrierTrace"}],
  "models": [model("ReduceBarrier", s) for s in ("1x1", "1x2", "1x3", "2x1", "3x1", "2x2")] + [model("ReduceBarrier", s, tiers=("thorough",), workers=4, timeout=600) for s in ("4x1", "3x2")] + [model("ReduceBarrier", s, expect_violation=True) for s in ("onebuf", "selffold")]}


# level schedules: the same recorded schedules and executions, each property its own clause
def _small(limit):
    def f(lines):
        import json
        out = []
        for x in lines:
            e = json.loads(x)
            if e["op"] != "sched" or e["st"] != "ok": continue
            n = 1
            for a, b in zip(e["out"]["thb"], e["out"]["thb"][1:]): n *= 2 * max(0, b - a) + 1
            if n <= limit: out.append(x)
        return out
    return f
for _p in ("P04", "P05", "P06", "P07", "P08"):
    t = [{"mode": "SCHED", "module": "LevelSchedTrace", "env": {"PROP": _p}}]
    if _p in ("P06", "P07"):
        t += [{"mode": "EXEC", "module": "LevelSchedTrace", "env": {"PROP": _p}},
              {"mode": "SCHED", "module": "P2PExec", "env": {"PROP": _p}, "prepare": _small(1500), "tiers": ("quick",)},
              {"mode": "SCHED", "module": "P2PExec", "env": {"PROP": _p}, "prepare": _small(20000), "tiers": ("thorough",)}]
    CHECKS[_p] = {"level": "model_checking", "traces": t}
def call(pid, **kw): CHECKS[pid] = dict({"level": "model_checking", "traces": [{"mode": pid, "module": "CallTrace"}]}, **kw)
for _p in ("P09", "P10", "P11", "P12", "P13", "P16", "P17", "P18", "P19", "P20", "P22", "P27", "P28"): call(_p)
CHECKS["P10"]["models"] = [model("UnionFind", s) for s in ("3x3", "4x2", "3x2e2")] + [model("UnionFind", "4x3", tiers=("thorough",), workers=6, heap="8g")] + [model("UnionFind", "rootstore", expect_violation=True)]
def design(module, quick, thorough, refuted):
    return [model(module, s) for s in quick] + [model(module, s, tiers=("thorough",), workers=4, heap="6g") for s in thorough] + [model(module, s, expect_violation=True) for s in refuted]
CHECKS["P01"]["models"] = _dis + design("BarrierTSO", ("2x1", "1x2", "3x1"), ("3x1b", "4x1"), ("overtake", "unlocked"))
CHECKS["P02"]["models"] = CHECKS["P02"]["models"] + design("BarrierTSO", ("1x3", "2x2"), (), ())
CHECKS["P04"]["models"] = design("LevelSearch", ("2", "3"), ("2a", "3a"), ("lateend", "nowake2", "nojoin", "nostart"))
CHECKS["P06"]["models"] = design("P2PSweep", ("3x2",), ("3x3",), ("overtake", "nojoin", "nomeet"))
CHECKS["P07"]["models"] = design("P2PSweep", ("4x2",), (), ())
CHECKS["P11"]["models"] = design("BfsStep", ("4x2a",), ("4x3a", "5x2a"), ("getset",))
CHECKS["P12"]["models"] = design("RcmPlace", ("4x2", "4x3", "5x2"), ("5x3",), ("early", "claim", "nobar")) + design("BfsStep", ("3x2", "4x2"), ("4x3", "5x2"), ("nojoin", "nosum", "first"))
CHECKS["P14"]["models"] = design("TransposeSteps", ("2x2t2", "3x2t2", "2x3t2", "2x2t3", "0x1t2"), ("3x2t3", "3x3t2"), ("drop1", "drop2", "drop3", "drop4"))
CHECKS["P24"]["models"] = design("SymSteps", ("2x2", "3x2"), ("3x3",), ("plain", "slot", "b1", "b2", "b3", "b4"))
CHECKS["P27"]["models"] = design("PrefixSums", ("2x3", "3x2"), ("4x2",), ("drop1", "drop2", "drop3"))
CHECKS["P26"] = {"level": "model_checking", "traces": [{"mode": "P26", "module": "MemPoolTrace"}], "models": [model("MemPoolGen", s) for s in ("10", "11a3")]}
# histories TLC derives from a specification, replayed by the driver of that mode
GENERATORS = {"P26": [model("MemPoolGen", "6"), model("MemPoolGen", "a2"), model("MemPoolGen", "8"), model("MemPoolGen", "long", extra=("-simulate", "num=40", "-depth", "61"), tiers=("quick",)), model("MemPoolGen", "long", extra=("-simulate", "num=1500", "-depth", "61"), tiers=("thorough",))]}
# P21 is about every operation: what the other properties say, on the one-based inputs
def _base1(ev):
    i = ev["in"]
    if "A" in i: return i["A"]["rp"][0] == 1 or i.get("opt", {}).get("base") == 1
    return i.get("base") == 1 or i.get("opt", {}).get("base") == 1
CHECKS["P21"]["traces"] += [{"mode": m, "module": "MatrixStoreTrace", "filter": _base1, "scale": 0.3} for m in ("P14", "P15", "P23", "P24", "P25")]
CHECKS["P21"]["traces"] += [{"mode": m, "module": "CallTrace", "filter": _base1, "scale": s} for m, s in (("P09", 0.25), ("P10", 0.15), ("P11", 0.25), ("P12", 0.25), ("P13", 0.2), ("P17", 0.2), ("P22", 0.3), ("P28", 0.3))]
CHECKS["P21"]["traces"] += [{"mode": "SCHED", "module": "LevelSchedTrace", "env": {"PROP": p}, "filter": _base1, "scale": 0.3} for p in ("P04", "P05", "P06", "P08")]
# P30 looks at every session of every driver, and only at what it leaves behind
def _ledger(lines):
    import json
    out = []
    for x in lines:
        e = json.loads(x); o = e.get("out", {})
        out.append(json.dumps({"case": e["case"], "op": e["op"], "T": e["T"], "k": e["k"], "st": e["st"], "lk": e.get("lk", 0), "fd": o.get("fd", 0) if isinstance(o, dict) else 0, "out": {"detail": o.get("detail", "")} if e["st"] != "ok" else {}}))
    return out
CHECKS["P30"] = {"level": "model_checking", "models": design("Ledger", ("ok",), (), ("refuse", "return")),
  "traces": [{"mode": m, "module": "LedgerTrace", "prepare": _ledger, "scale": s} for m, s in (("P01", 0.2), ("P03", 0.2), ("SCHED", 0.5), ("EXEC", 0.4), ("P09", 0.3), ("P10", 0.2), ("P11", 0.3), ("P12", 0.3), ("P13", 0.2), ("P14", 0.3), ("P15", 0.3), ("P16", 0.2), ("P17", 0.2), ("P18", 0.5), ("P19", 0.9), ("P20", 0.5), ("P21", 0.5), ("P22", 0.2), ("P23", 0.3), ("P24", 0.3), ("P25", 0.3), ("P27", 0.2), ("P28", 0.3), ("P29", 0.5))]}
NOT_CLAIMED = {}
