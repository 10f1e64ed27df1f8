"""C06, C07, C08 (building half), C09."""
import json
from . import core, fixgen as fg, parsing
from .core import hx, unhx

SOH = fg.SOH
TYPES = ["str", "str", "str", "str", "u32", "u8", "i64", "bool", "char", "u16", "u64", "usize", "i8", "i32"]


def around(*ns):
    return [str(n + d) for n in ns for d in (-1, 0, 1)]


VALUES = {"u32": ["0", "7", "42", "007", "4294967295", "4294967296", "-1", "1.5", "x", "99999999999", "1 ", "0x10", "1_000"],
          "u8": ["0", "255", "256", "12", "-3", "x"],
          "u16": around(65535), "u64": around(2**64 - 1, 2**63 - 1), "usize": around(2**64 - 1),
          "i8": around(127, -128), "i32": around(2**31 - 1, -2**31, 2**32),
          "i64": ["-5", "0", "-0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "12x", "--1", "-"],
          "bool": ["true", "false", "x", "1", "True", "Y", "N"],
          "char": ["A", "AB", "\u00e9", "7", "\U0001f600", "\t", " "], "str": []}


def val(rng, ty=None):
    if ty and VALUES[ty] and rng.random() < 0.8:
        return rng.choice(VALUES[ty])
    return fg.value(rng)


BODY = ["1", "11", "12", "58", "100", "101", "102", "354", "355", "7000"]
# tags with a meaning of their own in the header and the trailer, found elsewhere
SPECIAL = ["8", "9", "10", "35", "93", "89", "0", "4294967295"]
GROUPS = ["73", "78", "555", "100"]
HEAD = ["49", "56", "34", "50", "57", "142", "143", "627", "1", "11"]
TRAIL = ["93", "89", "94", "58", "90"]
INST = ["11", "12", "13", "79", "80", "81", "58", "100"]


def rand_insts(rng, n, d, depth, ordered):
    out = []
    for _ in range(rng.randint(0, n)):
        items = []
        if rng.random() < 0.85:
            items.append({"t": d, "v": val(rng)})
        for _ in range(rng.randint(0, 5)):
            if depth > 0 and rng.random() < 0.25:
                items.append(rand_group(rng, rng.choice([t for t in ("78", "539", "804") if t != d]), depth - 1, ordered))
            else:
                items.append({"t": rng.choice(INST if rng.random() < 0.95 else [x for x in SPECIAL if x != d]), "v": val(rng)})
        order = []
        if ordered and rng.random() < 0.5:
            order = [d] + rng.sample([t for t in INST + ["78", "539"] if t != d], rng.randint(0, 6))
        rng.shuffle(items)
        out.append({"order": order, "items": items})
    return out


def many_group(rng, t):
    """very many small instances"""
    n = rng.choice(fg.BIG)
    d = rng.choice([x for x in INST if x != t])
    order = [d] if rng.random() < 0.5 else []
    return {"t": t, "n": n, "d": d,
            "insts": [{"order": order, "items": [{"t": d, "v": str(k)}]} for k in range(rng.choice([n, n, n - 1, n // 2]))]}


def wide_group(rng, t):
    """an instance of very many fields, most of them with a place"""
    tags = [str(x) for x in rng.sample(range(1000, 2000), rng.choice([40, 257, 300, 400, 600]))]
    out = []
    for _ in range(rng.randint(1, 2)):
        order = rng.sample(tags, rng.choice([len(tags), len(tags) - 1, len(tags) - rng.randint(1, 30)]))
        order = [tags[0]] + [x for x in order if x != tags[0]]
        its = [{"t": x, "v": fg.value(rng)} for x in [tags[0]] + rng.sample(tags[1:], rng.randint(len(tags) // 2, len(tags) - 1))]
        rng.shuffle(its)
        out.append({"order": order if rng.random() < 0.8 else [], "items": its})
    return {"t": t, "n": len(out), "d": tags[0], "insts": out}


def rand_group(rng, t, depth=2, ordered=True):
    if depth == 2 and rng.random() < 0.001:
        return many_group(rng, t)
    n = rng.choice([0, 1, 1, 2, 2, 3, 5])
    d = rng.choice([x for x in INST if x != t])
    return {"t": t, "n": n, "d": d, "insts": rand_insts(rng, n, d, depth, ordered)}


def pools(lay):
    """tags to work with on a message of the layout: by section, groups, in instances"""
    sec = {"h": [i["t"] for i in lay["hdr"]], "t": [i["t"] for i in lay["trl"]],
           "b": sorted({i["t"] for m in lay["msgs"].values() for i in m})}
    sec = {k: [t for t in v if t not in ("8", "9", "35", "10")] for k, v in sec.items()}
    grp, inst = set(), set()

    def walk(items, deep):
        for i in items:
            if deep:
                inst.add(i["t"])
            if "g" in i:
                grp.add(i["t"])
                walk(i["g"], True)
    walk(lay["hdr"], False)
    walk(lay["trl"], False)
    for m in lay["msgs"].values():
        walk(m, False)
    return sec, sorted(grp), sorted(inst)


def history(rng, prop, length, lays=None):
    """operations in the form of the specification; 'get' etc. carry no observation yet.
    With layouts, the history starts with a parsed message instead of an empty one."""
    HEAD, BODY, TRAIL, GROUPS, INST = globals()["HEAD"], globals()["BODY"], globals()["TRAIL"], globals()["GROUPS"], globals()["INST"]
    known = [0]
    if lays:
        k = rng.randrange(len(lays))
        st = [{"o": "load", "m": 0, "d": k + 1, "x": fg.text_of(fg.gen_message(rng, lays[k]))}]
        sec, grp, inst = pools(lays[k])
        HEAD, BODY, TRAIL = sec["h"] + HEAD[:2], sec["b"] + BODY[:3], sec["t"] + TRAIL
        GROUPS, INST = grp * 2 + GROUPS[:2], inst * 2 + INST[:3]
    else:
        st = [{"o": "new", "m": 0}]
        for s, t, v in (("h", "8", "FIX.4.3"), ("h", "35", rng.choice(["D", "8", "AE"])), ("h", "9", "0"), ("t", "10", "000")):
            if rng.random() < 0.8 and (t != "10" or prop == "C07"):
                if prop == "C07" and t in ("9", "10") and rng.random() < 0.5:
                    # something that is not a number, to be replaced
                    v = rng.choice([fg.value(rng), "\u00e9\u4e2d", "", "123456"])
                st.append({"o": "set", "m": 0, "s": s, "t": t, "v": v})
    reads = {"C09": 0.35, "C06": 0.02, "C07": 0.02}[prop]
    for _ in range(length):
        m = rng.choice(known)
        r = rng.random()
        via = rng.random() < 0.3
        if r < reads:
            kind = rng.choice(["get", "get", "size", "dump"])
            if kind == "dump":
                st.append({"o": "dump", "m": m})
                continue
            sec = rng.choice("hbbbt")
            path = []
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 2)):
                    path += [rng.choice(GROUPS + ["539"]), rng.choice([0, 0, 1, 2]) if rng.random() < 0.95 else rng.choice([126, 127, 128, 254, 255, 256, 299])]
            q = {"o": kind, "m": m, "s": sec, "path": path,
                 "t": rng.choice({"h": HEAD, "t": TRAIL, "b": BODY}[sec] + GROUPS if not path else INST + ["78", "539"])}
            if kind == "get":
                q["ty"] = rng.choice(TYPES)
            if via and sec == "b" and not path:
                q["via"] = "msg"
            st.append(q)
        elif r < 0.72:
            sec = rng.choice("hhbbbbt")
            t = rng.choice({"h": HEAD + ["35", "8"], "t": TRAIL, "b": BODY + GROUPS[:1]}[sec])
            if rng.random() < 0.08:
                t = rng.choice(SPECIAL)
                if prop == "C07" and (sec, t) in (("h", "10"), ("t", "9"), ("h", "9"), ("t", "10")):
                    sec = "b"
            v = val(rng, rng.choice(TYPES) if prop == "C09" else None)
            if rng.random() < 0.03:
                v = ""
            q = {"o": "set", "m": m, "s": sec, "t": t, "v": v}
            if via and sec == "b":
                q["via"] = "msg"
            st.append(q)
        elif r < 0.87:
            sec = rng.choice("bbbbbbhht")
            q = dict({"o": "grp", "m": m, "s": sec}, **rand_group(rng, rng.choice(GROUPS if sec == "b" else ["627"] if sec == "h" else ["96", "97"])))
            if via and sec == "b":
                q["via"] = "msg"
            st.append(q)
        elif r < 0.9 and prop == "C06":
            st.append({"o": "order", "m": m, "s": "b", "order": rng.sample(sorted(set(BODY + GROUPS)), rng.randint(0, 5))})
        elif r < 0.94:
            k = rng.randint(0, 2)
            st.append({"o": "clone", "m": k, "from": m})
            if k not in known:
                known.append(k)
        elif r < 0.96:
            st.append({"o": "time", "m": m, "sec": rng.randint(0, 2 * 10**9), "ns": rng.randint(0, 999999999)})
        else:
            st.append({"o": rng.choice(["len", "sum"]), "m": m})
        if prop == "C06" and rng.random() < 0.1:
            st.append({"o": "print", "m": m})
        if prop == "C07" and rng.random() < 0.15:
            st += [{"o": "len", "m": m}, {"o": "sum", "m": m}, {"o": "print", "m": m}]
            if rng.random() < 0.3:
                st += [{"o": "sum", "m": m}, {"o": "print", "m": m}]
    for m in known:
        if prop == "C07":
            st += [{"o": "len", "m": m}, {"o": "sum", "m": m}]
        st.append({"o": "dump" if prop == "C09" else "print", "m": m})
    return st


# -------------------------------------------------- conformant messages (C08)
def inst_items(rng, items, depth=0):
    out = []
    for k, it in enumerate(items):
        if k > 0 and rng.random() < 0.35:
            continue
        out.append(conf_item(rng, it, depth))
    rng.shuffle(out)
    return {"order": [i["t"] for i in items], "items": out}


def conf_item(rng, it, depth=0):
    if "g" not in it:
        return {"t": it["t"], "v": fg.value(rng)}
    n = rng.choice([0, 1, 2, 2, 3]) if depth < 2 else rng.choice([0, 1])
    if depth == 0 and rng.random() < 0.004:
        n = rng.choice(fg.BIG)
        its = [F for F in it["g"] if "g" not in F]
        if its and its[0] is it["g"][0]:
            one = {"order": [i["t"] for i in it["g"]], "items": [{"t": its[0]["t"], "v": "v"}]}
            return {"t": it["t"], "n": n, "d": its[0]["t"], "insts": [one] * n}
    return {"t": it["t"], "n": n, "d": it["g"][0]["t"],
            "insts": [inst_items(rng, it["g"], depth + 1) for _ in range(n)]}


def conformant(rng, lay, dict_id):
    mt = rng.choice(sorted(lay["msgs"]))
    st = [{"o": "new", "m": 0}]
    todo = [("h", {"t": "8", "v": "FIX.4.3"}), ("h", {"t": "35", "v": mt}), ("h", {"t": "9", "v": "1"})]
    for sec, items in (("h", lay["hdr"][3:]), ("b", lay["msgs"][mt]), ("t", lay["trl"])):
        for it in items:
            if rng.random() < 0.7:
                todo.append((sec, conf_item(rng, it)))
    rng.shuffle(todo)
    for sec, it in todo:
        if "n" in it:
            if rng.random() < 0.1:
                st.append(dict({"o": "grp", "m": 0, "s": sec}, t=it["t"], n=it["n"] + 1, d=it["d"], insts=[]))
            st.append(dict({"o": "grp", "m": 0, "s": sec}, **it))
        else:
            st.append(dict({"o": "set", "m": 0, "s": sec}, **it))
    if rng.random() < 0.5:
        st += [{"o": "len", "m": 0}, {"o": "sum", "m": 0}]
    if rng.random() < 0.2:
        st += [{"o": "clone", "m": 1, "from": 0}, {"o": "set", "m": 0, "s": "h", "t": "8", "v": "X"}]
        st += [{"o": "reparse", "m": 1, "dict": dict_id}]
    st.append({"o": "reparse", "m": 0, "dict": dict_id})
    return st


# ------------------------------------------------------------------ driver side
def to_driver(step):
    s = dict(step)

    def item(it):
        it = dict(it)
        it["t"] = int(it["t"])
        if "n" in it:
            it["d"] = int(it["d"])
            it["insts"] = [{"items": [item(x) for x in i["items"]],
                            **({"order": [int(t) for t in i["order"]]} if i["order"] else {})} for i in it["insts"]]
        elif "v" in it:
            it["v"] = hx(it["v"])
        return it
    if s["o"] == "load":
        s = {"o": "load", "m": s["m"], "dict": str(s["d"] - 1), "b": hx(s["x"])}
    elif s["o"] in ("set", "grp", "fill"):
        s = item(s)
    elif "t" in s:
        s["t"] = int(s["t"])
    if "order" in s and s["o"] == "order":
        s["order"] = [int(t) for t in s["order"]]
    if "path" in s:
        s["path"] = [int(x) for x in s["path"]]
    return s


OBSERVED = {"len": ("h", 9), "sum": ("t", 10), "time": ("h", 52)}


def drive(steps):
    out = []
    for s in steps:
        out.append(to_driver(s))
        if s["o"] in OBSERVED:
            sec, t = OBSERVED[s["o"]]
            out.append({"o": "get", "m": s["m"], "s": sec, "t": t, "ty": "str", "path": []})
    return out


def observations(prop, steps, obs):
    """merges the answers of the driver; None if one of the operations panicked"""
    out, i = [], 0
    for s in steps:
        if i >= len(obs) or (isinstance(obs[i], dict) and obs[i].get("r") == "panic"):
            return None
        o = obs[i]
        i += 1
        k = s["o"]
        if k in OBSERVED:
            g = obs[i]
            i += 1
            out.append({"v": unhx(g[1]) if g[0] == "ok" else "?"})
        elif k == "load":
            out.append({"v": o})
        elif k == "get":
            out.append({"v": [o[0]] + [unhx(x) for x in o[1:]]})
        elif k == "size":
            out.append({"v": o})
        elif k == "dump":
            out.append({"v": {x: parsing.fm_dump(o[x]) for x in "hbt"}})
        elif k == "print":
            b = bytes.fromhex(o)
            e = {"v": b.decode("utf-8")}
            if prop == "C07":
                e["bs"] = list(b)
            out.append(e)
        elif k == "runs":
            out.append({"v": o})
        elif k == "reparse":
            e = {"r": o["r"], "k": o.get("k", ""), "m": []}
            if o["r"] == "ok":
                e["m"] = {x: parsing.fm_dump(o[x]) for x in "hbt"}
            out.append({"v": e})
        else:
            out.append({"v": 0})
    return out


def validate(ck, prop, hists, setup=(), part="random", lays=()):
    cmds = [{"op": "build", "steps": drive(h)} for h in hists]
    res = core.run_parallel(ck.binary, cmds, setup)
    logd, at = [], []
    for i, (h, r) in enumerate(zip(hists, res)):
        ob = observations(prop, h, r["obs"]) if "obs" in r else None
        if ob is None:
            ck.violation("an operation on a message did not end normally", history=h, got=r, part=part)
            continue
        if h[0]["o"] == "load" and ob[0]["v"] != 1:
            ck.count("texts_not_loaded", 1)       # C05 decides whether that is right
            continue
        logd.append({"steps": h, "obs": ob})
        at.append(i)
    for lo in range(0, len(logd), 1500):
        chunk = logd[lo:lo + 1500]
        p = core.write_json("build.json", {"soh": SOH, "prop": prop, "log": chunk, "dicts": list(lays), "wide": ["\U0001f600"]})
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\nVIEW View\n"
        t = core.tlc("FixBuildTrace", cfg, env={"LOG": p}, timeout=800, heap="10g")
        ck.states(t)
        done = {int(x) for x in t.tagged("D")}
        bad = {}
        for l in t.tagged("X"):
            e = json.loads(json.loads(l))
            bad[e["n"]] = e
        if len(done | set(bad)) != len(chunk):
            raise core.ToolError("only %d of %d histories were validated" % (len(done | set(bad)), len(chunk)))
        for n, e in sorted(bad.items()):
            x = chunk[n - 1]
            k = e["bad"] - 1
            ob = dict(x["obs"][k])
            ob.pop("bs", None)
            ck.violation("observation does not match the specification", step=x["steps"][k], observed=ob,
                         message=e["reg"], history=x["steps"][:k + 1], part=part)
    ck.count("traces_validated_against_impl", len(logd))
    ck.count("observations", sum(1 for h in hists for s in h if s["o"] in ("get", "size", "dump", "print", "reparse")))


def mc_ops(prop):
    """operations of the exhaustive model, dictionary fg.SMALL"""
    o = ["11", "12", "78", "13"]
    so = ["79", "80"]
    sub = {"t": "78", "n": 1, "d": "79", "insts": [{"order": so, "items": [{"t": "80", "v": "s"}, {"t": "79", "v": "r"}]}]}
    full = {"t": "73", "n": 2, "d": "11", "insts": [
        {"order": o, "items": [{"t": "12", "v": "q"}, {"t": "11", "v": "p"}]},
        {"order": o, "items": [{"t": "11", "v": "p2"}, sub]}]}
    ops = [{"o": "set", "m": 0, "s": "h", "t": "49", "v": "a"},
           {"o": "set", "m": 0, "s": "h", "t": "49", "v": "b"},
           {"o": "set", "m": 0, "s": "b", "t": "1", "v": "a"},
           {"o": "set", "m": 1, "s": "b", "t": "1", "v": "b"},
           {"o": "set", "m": 0, "s": "t", "t": "10", "v": "c"},
           {"o": "set", "m": 0, "s": "t", "t": "89", "v": "d"},
           dict({"o": "grp", "m": 0, "s": "b"}, **full),
           {"o": "grp", "m": 0, "s": "b", "t": "73", "n": 1, "d": "11", "insts": [{"order": o, "items": [{"t": "11", "v": "z"}]}]},
           {"o": "grp", "m": 0, "s": "b", "t": "73", "n": 0, "d": "11", "insts": []},
           {"o": "grp", "m": 0, "s": "h", "t": "627", "n": 1, "d": "628",
            "insts": [{"order": ["628", "629"], "items": [{"t": "629", "v": "y"}, {"t": "628", "v": "x"}]}]},
           {"o": "clone", "m": 1, "from": 0},
           {"o": "clone", "m": 0, "from": 1}]
    return ops


def exhaustive(ck, prop, depth):
    ops = mc_ops(prop)
    p = core.write_json("bmc.json", {"ops": ops, "maxops": depth, "dict": fg.SMALL, "print": "1"})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPROPERTY Isolated\n" + "".join(
        "INVARIANT %s\n" % i for i in ("RoundTrip", "LayoutsExist", "NotVacuous", "Emit"))
    t = core.tlc("FixBuildMC", cfg, env={"LOG": p}, timeout=800, heap="10g")
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    if not cases or not t.tagged("I"):
        raise core.ToolError("FixBuildMC is vacuous")
    base = [x for m in (0, 1) for x in (
        {"o": "new", "m": m}, {"o": "set", "m": m, "s": "h", "t": "8", "v": "FIX.4.3"},
        {"o": "set", "m": m, "s": "h", "t": "9", "v": "5"}, {"o": "set", "m": m, "s": "h", "t": "35", "v": "D"})]
    end = [{"o": "dump", "m": m} for m in (0, 1)]
    if prop == "C08":
        end = [{"o": "reparse", "m": m, "dict": "s"} for m in (0, 1)]
    cmds = [{"op": "build", "steps": drive(base + [ops[k - 1] for k in c["s"]] + end)} for c in cases]
    setup = [{"op": "dict", "id": "s", "xml": fg.render(fg.SMALL)}]
    res = core.run_parallel(ck.binary, cmds, setup)
    for c, r in zip(cases, res):
        h = base + [ops[k - 1] for k in c["s"]] + end
        ob = observations(prop, h, r["obs"]) if "obs" in r else None
        if ob is None:
            ck.violation("an operation on a message did not end normally", history=h, got=r, part="enumerated")
            continue
        for m in (0, 1):
            want, got = c["m"][m], ob[len(ob) - 2 + m]["v"]
            if prop == "C08":
                if got["r"] == "ok":
                    got = got["m"]
                else:
                    ck.violation("a conformant message is refused when read back", history=h, got=got, part="enumerated")
                    continue
            if any(parsing.canon_fm(want[x]) != parsing.canon_fm(got[x]) for x in "hbt"):
                ck.violation("a message is not what the specification says", history=h, expected=want, got=got, part="enumerated")
    ck.count("replayed_from_spec", len(cases))


def huge(rng):
    """C07: a message around a length of 64 KB, in one or many fields"""
    n = rng.choice([65536, 65536, 70000, 32768, 100000]) + rng.randint(-60, 60)
    h = [{"o": "new", "m": 0}, {"o": "set", "m": 0, "s": "h", "t": "8", "v": "FIX.4.3"}]
    k = rng.choice([1, 3, 50, 900])
    for i in range(k):
        w = rng.choice(["x", "x", "\u00e9", "\u4e2d", "~"])
        h.append({"o": "set", "m": 0, "s": rng.choice("bbbbth") if i else "b", "t": str(5000 + i), "v": w * max(1, (n // k - 6) // len(w.encode()))})
    return h + [{"o": "len", "m": 0}, {"o": "sum", "m": 0}, {"o": "print", "m": 0}]


def bulk(rng, n):
    """C07: a message of n million bytes"""
    h = [{"o": "new", "m": 0}, {"o": "set", "m": 0, "s": "h", "t": "8", "v": "FIX.4.3"}]
    k = rng.choice([1, 2, 5])
    for i in range(k):
        h.append({"o": "fill", "m": 0, "s": rng.choice("bbbbth") if i else "b", "t": str(5000 + i), "v": rng.choice("z~{"), "times": n * 1000000 // k + rng.randint(0, 300)})
    h.append({"o": "set", "m": 0, "s": "b", "t": "58", "v": rng.choice(["\u00e9", "\u4e2d\U0010ffff", "x"])})
    return h + [{"o": "len", "m": 0}, {"o": "sum", "m": 0}, {"o": "runs", "m": 0}]


def crowded(rng, n):
    """C09: a group of n instances, most of them empty"""
    sec = rng.choice("hbbt")
    t, d = rng.choice(["73", "555", "78"]), rng.choice(["11", "79"])
    h = [{"o": "new", "m": 0}]
    for k in range(2):
        n = n if k == 0 else rng.choice([n, n - 1, 0, 3])
        some = [rand_insts(rng, 1, d, 1, True) or [{"order": [], "items": []}] for _ in range(rng.choice([0, 3, n]) if n < 300 else 3)]
        h.append({"o": "grp", "m": 0, "s": sec, "t": t, "n": n, "d": d, "insts": [x[0] for x in some][:n]})
        for q in sorted({0, 1, 2, n // 2, n - 1, n, n + 1}):
            if q >= 0:
                h.append({"o": "get", "m": 0, "s": sec, "path": [t, q], "t": rng.choice([d, "12"]), "ty": "str"})
        h += [{"o": "size", "m": 0, "s": sec, "path": [], "t": t}, {"o": "get", "m": 0, "s": sec, "path": [], "t": t, "ty": "u32"}]
        if k == 0 and rng.random() < 0.5:
            h += [{"o": "clone", "m": 1, "from": 0}, {"o": "size", "m": 1, "s": sec, "path": [], "t": t}]
    return h


def run(ck, prop):
    rng = ck.sub("hist")
    if prop == "C08":
        exhaustive(ck, prop, ck.n(3, 4))
        lays = [fg.SMALL] + [fg.random_layout(rng, rng.choice([0, 1, 2, 3])) for _ in range(ck.n(20, 120))]
        setup = [{"op": "dict", "id": str(i), "xml": fg.render(l)} for i, l in enumerate(lays)]
        hs = [conformant(rng, l, str(i)) for i, l in enumerate(lays) for _ in range(ck.n(60, 200))]
        validate(ck, prop, hs, setup)
        ck.sample({"history": hs[1][:6]})
        parsing.exhaustive(ck, prop, 1 if ck.thorough else 0)
        parsing.traces(ck, prop, *ck.n((16, 60), (100, 200)))
        return "model_checking"
    if prop in ("C06", "C09"):
        exhaustive(ck, prop, ck.n(3, 4))
    lays = [fg.SMALL] + [fg.random_layout(rng, rng.choice([1, 2, 3])) for _ in range(ck.n(10, 60))]
    setup = [{"op": "dict", "id": str(i), "xml": fg.render(l)} for i, l in enumerate(lays)]
    n = ck.n(1500, 12000)
    hs = [history(rng, prop, rng.choice([3, 6, 12, 25]), lays if i % 4 == 0 else None) for i in range(n)]
    if prop in ("C06", "C07"):
        for i, l in enumerate(lays):
            for _ in range(30):
                h = [s for s in conformant(rng, l, str(i)) if s["o"] != "reparse"]
                if prop == "C07":
                    if rng.random() < 0.1:
                        # a body of very many bytes
                        for t in rng.sample(range(5000, 5100), rng.randint(4, 30)):
                            h.append({"o": "set", "m": 0, "s": "b", "t": str(t), "v": fg.long_value(rng, (255, 256, 300, 400))})
                    h += [{"o": "len", "m": 0}, {"o": "sum", "m": 0}]
                hs.append(h + [{"o": "print", "m": 0}])
        # sections of very many fields
        for _ in range(ck.n(30, 120)):
            h = [{"o": "new", "m": 0}]
            todo = [{"o": "set", "m": 0, "s": s, "t": str(t), "v": fg.value(rng)}
                    for s in "hbt" for t in rng.sample(range(200, 900), rng.choice([5, 40, 130, 260]))]
            todo += [{"o": "set", "m": 0, "s": s, "t": t, "v": "1"} for s, t in (("h", "8"), ("h", "9"), ("h", "35"), ("t", "10"))]
            todo.append(dict({"o": "grp", "m": 0, "s": "b"}, **(wide_group(rng, "73") if rng.random() < 0.5 else rand_group(rng, "73"))))
            rng.shuffle(todo)
            h += todo
            if rng.random() < 0.5:
                h.insert(rng.randint(1, 50), {"o": "order", "m": 0, "s": "b", "order": rng.sample(sorted({x["t"] for x in todo}), rng.choice([60, 200, 256, 257, 300]) % len({x["t"] for x in todo}))})
            h += [{"o": "len", "m": 0}, {"o": "sum", "m": 0}] if prop == "C07" else []
            hs.append(h + [{"o": "print", "m": 0}])
    if prop == "C09":
        hs += [crowded(rng, n) for n in [500, 1000, 1023, 1024, 1025, 1500, 4096, 5000] for _ in range(ck.n(2, 10))]
    if prop == "C07":
        hs += [huge(rng) for _ in range(ck.n(6, 30))]
        hs += [bulk(rng, n) for n in ck.n([1, 3, 17, 22, 30, 40], [1, 2, 5, 9, 17, 20, 26, 35, 40, 70])]
    validate(ck, prop, hs, setup, lays=lays)
    ck.sample({"history": hs[1][:6]})
    return "model_checking"
