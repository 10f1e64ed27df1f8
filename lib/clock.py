"""C22."""
import calendar, json
from . import core, fixgen as fg
from .core import hx, unhx

NS = [0, 1, 999999, 1000000, 1500000, 499999999, 500000000, 999499999, 999500000, 999999999, 123456789, 7000000, 70000000, 700000000, 998999999]


def at(i):
    return i["day"] * 86400 + i["s"], i["ns"]


def step(i):
    sec, ns = at(i)
    return {"o": "time", "m": 1, "sec": sec, "ns": ns}


GET = {"o": "get", "m": 1, "s": "h", "path": [], "t": 52, "ty": "str"}


def exhaustive(ck):
    """every day of 170 years (and around some centuries), each with one instant"""
    start = [1970, 2199, 2399, 2499, 2999, 4095, 9998]
    years = [ck.n(80, 170), 3, 3, 3, 3, 2, 2]
    p = core.write_json("clock.json", {"from": start, "years": years, "ns": NS})
    t = core.tlc("ClockMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Agrees\nINVARIANT Valid\nINVARIANT Emit\n",
                 env={"LOG": p}, timeout=800)
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    cases = sorted((c for c in cases if c["i"]["day"] < 2932897), key=lambda c: c["i"]["day"])
    if len(cases) < 30000:
        raise core.ToolError("ClockMC printed %d cases" % len(cases))
    size = 500
    parts = [cases[i:i + size] for i in range(0, len(cases), size)]
    cmds = [{"op": "build", "steps": [{"o": "new", "m": 1}] + [x for c in part for x in (step(c["i"]), GET)]} for part in parts]
    for part, r in zip(parts, core.run_parallel(ck.binary, cmds)):
        obs = r.get("obs", [])
        for k, c in enumerate(part):
            got = obs[2 + 2 * k] if 2 + 2 * k < len(obs) else {"r": "nothing"}
            if got != ["ok", hx(c["x"])]:
                ck.violation("the sending time is not the time", instant=c["i"], expected=c["x"], got=show(got), part="enumerated")
                break
    ck.count("replayed_from_spec", len(cases))


def show(g):
    return unhx(g[1]) if isinstance(g, list) and g[0] == "ok" else g


def rand_instant(rng):
    r = rng.random()
    day = rng.randint(0, 2932896) if r < 0.2 else rng.randint(10000, 40000)
    if r > 0.6:
        y = rng.randint(1970, 2100)
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (12, 30), (1, 3), (12, 29), (rng.randint(1, 12), 1)])
        day = calendar.timegm((y, m, d, 0, 0, 0)) // 86400 + (1 if rng.random() < 0.2 else 0)
    s = rng.choice([0, 59, 60, 3599, 3600, 43199, 43200, 46800, 86399, rng.randint(0, 86399), rng.randint(0, 86399)])
    return {"day": day, "s": s, "ns": rng.choice(NS + [rng.randint(0, 999999999)] * 5)}


def traces(ck, n):
    rng = ck.sub("stamps")
    cmds, ins = [], []
    for _ in range(n):
        steps = [{"o": "new", "m": 1}]
        for t in rng.sample([8, 9, 35, 34, 49, 56, 50, 57, 122, 369], rng.randint(0, 6)):
            steps.append({"o": "set", "m": 1, "s": "h", "t": t, "v": hx(fg.value(rng) or "x")})
        if rng.random() < 0.5:
            steps.append({"o": "set", "m": 1, "s": "h", "t": 52, "v": hx(rng.choice(["20200101-00:00:00", "x", "20991231-23:59:59.999999"]))})
        for sec, t in [("b", 52), ("b", 60), ("b", 273), ("t", 52), ("t", 10), ("b", 58)]:
            if rng.random() < 0.4:
                steps.append({"o": "set", "m": 1, "s": sec, "t": t, "v": hx("20200101-00:00:00")})
        if rng.random() < 0.4:
            steps.append({"o": "grp", "m": 1, "s": rng.choice("hb"), "t": 627, "n": 2, "d": 628, "insts": []})
        before = len(steps)
        steps.append({"o": "dump", "m": 1})
        i = [rand_instant(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        steps += [step(x) for x in i]
        steps.append({"o": "dump", "m": 1})
        cmds.append({"op": "build", "steps": steps})
        ins.append((before, i))
    res = core.run_parallel(ck.binary, cmds)
    log = []
    for (before, i), r in zip(ins, res):
        obs = r.get("obs", [])
        ok = len(obs) == before + len(i) + 2 and isinstance(obs[before], dict) and isinstance(obs[-1], dict) and "h" in obs[-1]
        e = {"b": [], "a": [], "i": i, "rest": True, "ok": ok}
        if ok:
            b, a = obs[before], obs[-1]
            e["b"] = [[t, unhx(v)] for t, v in b["h"]["f"]]
            e["a"] = [[t, unhx(v)] for t, v in a["h"]["f"]]
            e["rest"] = b["h"]["g"] == a["h"]["g"] and b["b"] == a["b"] and b["t"] == a["t"]
        log.append(e)
    p = core.write_json("clocklog.json", {"log": log})
    t = core.tlc("ClockTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n", env={"LOG": p}, timeout=800)
    ck.states(t)
    done = {int(x) for x in t.tagged("D")}
    bad = [json.loads(json.loads(l)) for l in t.tagged("X")]
    if len(done) + len(bad) != n:
        raise core.ToolError("only %d of %d entries were validated" % (len(done) + len(bad), n))
    for b in sorted(bad, key=lambda b: b["n"]):
        ck.violation("the sending time is not the time, or something else has changed", entry=log[b["n"] - 1], expected=b["hdr"], part="random")
    ck.count("traces_validated_against_impl", n)
    ck.sample({"instants": ins[0][1]})


def run(ck, prop):
    exhaustive(ck)
    traces(ck, ck.n(6000, 40000))
    ck.assumptions.append("the clock of the process is replaced by interposition of clock_gettime; the local time zone is Asia/Tokyo; years 1970 to 9999")
    return "model_checking"
