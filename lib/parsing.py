"""C01-C05 and the parsing half of C08."""
import json, time
from concurrent.futures import ThreadPoolExecutor
from . import core, fixgen as fg
from .core import hx, unhx


def fm_dump(d):
    return {"f": [[t, unhx(v)] for t, v in d["f"]],
            "g": [[t, [fm_dump(i) for i in insts]] for t, insts in d["g"]], "n": d["n"]}


def entry(d, text, r, with_print=False):
    e = {"d": d, "s": text, "r": r["r"], "k": r.get("k", ""), "m": [], "mem": min(r.get("mem", 0), 2**31 - 1)}
    if r["r"] == "ok":
        e["m"] = [{"h": fm_dump(r["h"]), "b": fm_dump(r["b"]), "t": fm_dump(r["t"])}]
        if with_print:
            e["p"] = unhx(r["p"])
    return e


def canon_fm(d):
    """a field map as comparable value, from a dump of the code or of the specification"""
    if isinstance(d["f"], dict):
        d = {"f": list(d["f"].items()), "g": d["g"]}
    return (tuple(sorted((t, v) for t, v in d["f"])),
            tuple(sorted((t, tuple(canon_fm(i) for i in insts)) for t, insts in d["g"])))


MC_INVS = ["AgreesWithDescent", "SameFieldsInv", "UniqueInv", "GroupsInv", "SectionsInv", "Bounded", "DeclBounded", "Emit"]


def sym(t, v, u="1"):
    return {"t": str(t), "v": v, "u": u}


BASE = [sym(8, "FIX.4.3", "0"), sym(9, "5", "0"), sym(35, "D", "0")]


def alphabet(prop):
    """alphabets of the exhaustive enumeration, by what the property is about"""
    a, g, s = BASE, [], []
    grp = [sym(73, "0", "0"), sym(73, "1", "0"), sym(73, "2", "0"), sym(11, "a"), sym(12, "b"), sym(13, "c")]
    sub = [sym(78, "1", "0"), sym(78, "2", "0"), sym(79, "d"), sym(80, "e")]
    if prop == "C01":
        return [("mix", a + grp[1:5] + [sym(73, "4294967295", "0"), sym(73, "x", "0"), sym(10, "t"), sym(49, "h")], [], 5),
                ("inside", a + [sym(73, "3", "0"), sym(73, "4294967295", "0")] + sub[1:] + grp[3:5] + [sym(5000, "u")], [1, 2, 3], 5)]
    if prop == "C02":
        return [("dup", a + [grp[1], grp[3], grp[4], sym(1, "f"), sym(5000, "u"), sym(49, "h"), sym(10, "t")], [1, 2, 3], 5),
                ("nest", a + grp[1:2] + grp[3:6] + sub[:1] + sub[2:] + [sym(21, "g")], [1, 2, 3], 6)]
    if prop == "C03":
        return [("one", a + grp + [sym(73, "x", "0"), sym(1, "f")], [1, 2, 3], 5),
                ("nest", a + grp[1:] + sub[:1] + sub[2:], [1, 2, 3, 5], 6),
                ("head", a + [sym(627, "1", "0"), sym(627, "2", "0"), sym(628, "p"), sym(629, "q"), sym(49, "h"), sym(1, "f")], [1, 2, 3], 5),
                ("tail", a + [sym(90, "0", "0"), sym(90, "1", "0"), sym(90, "2", "0"), sym(91, "p"), sym(95, "q"), sym(10, "t"), sym(1, "f")], [1, 2, 3], 5)]
    if prop == "C04":
        return [("start", a + [sym(49, "h"), sym(1, "f"), sym(10, "t"), sym(5000, "u")], [], 6),
                ("sections", a + [sym(49, "h"), sym(627, "1", "0"), sym(628, "p"), sym(1, "f"), sym(21, "f"), sym(5000, "u"),
                                  sym(10, "t"), sym(89, "s")], [1, 2, 3], 5)]
    if prop == "C05":
        return [("faults", a + grp[1:5] + [sym(73, "x", "0"), sym(10, "t"), sym(49, "h"), sym(1, "f")], [1, 2, 3], 5),
                ("inside", a + sub + grp[2:6], [1, 2, 3, 6], 5)]
    if prop == "C08":
        return [("rt", a + [grp[1], grp[3], grp[4]] + [sub[0], sub[2], sub[3]] + [sym(49, "h"), sym(10, "t")], [1, 2, 3], 6)]
    raise KeyError(prop)


def exhaustive(ck, prop, extra):
    """all field sequences over an alphabet: TLC prints the verdict, the code must give it"""
    dict_cmd = {"op": "dict", "id": "d", "xml": fg.render(fg.SMALL)}
    for name, alpha, prefix, depth in alphabet(prop):
        depth += extra
        # alphabet indices: a prefix may point at the group symbol which follows BASE
        inp = {"dict": fg.SMALL, "alphabet": alpha, "prefix": prefix, "maxlen": depth, "print": "1"}
        p = core.write_json("mc-%s.json" % name, inp)
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in MC_INVS) + "PROPERTY Forward\n"
        t = core.tlc("FixParseMC", cfg, env={"LOG": p}, timeout=800, heap="10g")
        ck.states(t)
        cases = {}
        for l in t.tagged("E"):
            e = json.loads(json.loads(l))
            cases[(e["n"], tuple(e["s"]))] = e
        if not cases:
            raise core.ToolError("FixParseMC printed no cases")
        # what follows the field which is refused does not matter: any fields may
        items, cmds, rng = [], [], ck.sub("fill/" + name)
        for (n, s), e in sorted(cases.items()):
            idx = prefix + list(s)
            missing = len(prefix) + n - len(idx)
            fills = {tuple(rng.randint(1, len(alpha)) for _ in range(missing)) for _ in range(4 if missing else 0)} | {(1,) * missing}
            for fill in sorted(fills):
                fs = [(alpha[k - 1]["t"], alpha[k - 1]["v"] + (str(i + 1) if alpha[k - 1]["u"] == "1" else ""))
                      for i, k in enumerate(idx + list(fill))]
                items.append(((n, s), e))
                cmds.append({"op": "parse", "dict": "d", "b": hx(fg.text_of(fs))})
        res = core.run_parallel(ck.binary, cmds, [dict_cmd])
        acc = 0
        for ((n, s), e), c, r in zip(items, cmds, res):
            acc += e["k"] == ""
            why = judge(prop, e, r)
            if why:
                ck.violation(why, text=unhx(c["b"]).replace(fg.SOH, "|"), expected=e["k"] or "accepted",
                             got={k: v for k, v in r.items() if k in ("r", "k", "m", "rc")}, part="enumerated/" + name)
        ck.count("replayed_from_spec", len(items))
        ck.count("accepted_cases", acc)
        if not 0 < acc < len(items):
            raise core.ToolError("enumeration %s is vacuous" % name)


GROUP_FAULTS = {"IncorrectNumInGroupCountForRepeatingGroup", "RequiredTagMissing",
                "RepeatingGroupsOutOfOrder", "IncorrectDataFormatForValue"}


def judge(prop, e, r):
    """compares the verdict TLC printed with the one of the code, for what the property says"""
    rej, ok = e["k"], r["r"] == "ok"
    same = False
    if ok and not rej:
        m = e["m"][0]
        same = all(canon_fm(m[x]) == canon_fm(fm_dump(r[x])) for x in "hbt")
    if prop == "C01":
        return None if r["r"] in ("ok", "rej") else "parsing did not end with a result"
    if r["r"] not in ("ok", "rej"):
        return "parsing did not end with a result" if not rej or prop in ("C05",) else None
    if prop == "C02":
        if ok and rej == "TagAppearsMoreThanOnce":
            return "a text with a repeated tag is accepted"
        if ok and not rej and not same:
            return "the message does not hold the fields of the text"
    if prop == "C03":
        if ok and rej in GROUP_FAULTS:
            return "a text with a malformed group is accepted"
        if not rej and any(e["m"][0][x]["g"] for x in "hbt") and not same:
            return "a well-formed group is refused or read wrongly"
    if prop == "C04":
        if ok and rej == "TagSpecifiedOutOfOrder":
            return "a text with misplaced sections is accepted"
        if not rej and not same:
            return "a text with sections in order is refused or its fields are misplaced"
    if prop == "C05":
        if bool(rej) == ok or (rej and r.get("k") != rej):
            return "wrong verdict or reason"
    if prop == "C08" and ok and not rej and not same:
        return "the message does not hold the fields of the text"
    return None


def make_texts(prop, rng, lay):
    """one text for the layout, shaped by what the property is about"""
    fs = fg.gen_message(rng, lay)
    r = rng.random()
    kinds = {"C02": ["dup", "dup", "retag", "insert", "move", "adj"],
             "C03": ["count", "count", "del", "dup", "adj", "move", "insert", "retag"],
             "C04": ["move", "swap", "insert", "cut", "retag", "del"]}.get(prop)
    if prop == "C08":
        return fg.text_of(fs)
    clean = {"C01": 0.1, "C02": 0.5, "C03": 0.35, "C04": 0.3, "C05": 0.2}[prop]
    if r < clean:
        return fg.text_of(fs)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        fs = fg.mutate(rng, fs, lay, kinds)
    t = fg.text_of(fs)
    lex = {"C01": 0.5, "C02": 0.2, "C03": 0.02, "C04": 0.05, "C05": 0.35}[prop]
    if rng.random() < lex:
        for _ in range(rng.choice([1, 1, 2])):
            t = fg.spoil(rng, t)
    elif prop == "C02" and rng.random() < 0.15:
        t = fg.spoil(rng, t, "wrap")
    if prop == "C01" and rng.random() < 0.1:
        t = fg.junk(rng)
    return t


def traces(ck, prop, n_dicts, per_dict):
    """random texts for random dictionaries, the log of the code validated by TLC"""
    rng = ck.sub("texts")
    lays = [fg.SMALL] + [fg.random_layout(rng, rng.choice([0, 1, 2, 3]), prop != "C08") for _ in range(n_dicts)]
    setup = [{"op": "dict", "id": str(i), "xml": fg.render(l)} for i, l in enumerate(lays)]
    todo = []
    for i, l in enumerate(lays):
        seen = set()
        for _ in range(per_dict):
            t = make_texts(prop, rng, l)
            if fg.has_leading_zero_or_plus(t) or t in seen:
                continue
            seen.add(t)
            todo.append((i, t))
    if prop == "C01":
        # long texts: the cost of a text must stay in proportion to it
        for i, l in enumerate(lays[:6]):
            base = fg.gen_message(rng, l)
            big = base + [("5%03d" % k, "x" * rng.randint(1, 20)) for k in range(400)]
            todo.append((i, fg.text_of(big)))
            for _ in range(4):
                todo.append((i, fg.text_of(fg.mutate(rng, big, l, ["count"]))))
        huge(ck, lays, setup)
        headless(ck)
    if prop == "C03":
        many_instances(ck, lays, setup)
    # groups of very many instances
    many = 0
    for _ in range(60):
        i = rng.randrange(len(lays)) if rng.random() < 0.8 else 0
        fs = fg.gen_big(rng, lays[i])
        if fs is None or many >= (24 if ck.thorough else 8):
            continue
        many += 1
        todo.append((i, fg.text_of(fs)))
        if prop != "C08":
            todo.append((i, fg.text_of(fg.mutate(rng, fs, lays[i], ["count", "del", "adj", "insert"]))))
    cmds = [{"op": "parse", "dict": str(i), "b": hx(t)} for i, t in todo]
    res = core.run_parallel(ck.binary, cmds, setup)
    logd = [entry(i + 1, t, r, prop == "C08") for (i, t), r in zip(todo, res)]
    bad = validate(ck, prop, lays, logd)
    for n, exp in bad:
        i, t = todo[n - 1]
        r = res[n - 1]
        ck.violation("the code does not do with this text what the specification says",
                     text=t.replace(fg.SOH, "|"), expected=exp["rej"] or "accepted",
                     expected_message=exp["fm"] if not exp["rej"] else None,
                     got={k: v for k, v in r.items() if k != "p"}, layout=lays[i], part="random")
    ck.count("traces_validated_against_impl", len(logd))
    for i, t in todo[:2]:
        ck.sample({"text": t.replace(fg.SOH, "|"), "layout_tags": len(fg.tags_of(lays[i]["hdr"]))})
    return todo, res


def huge(ck, lays, setup):
    """C01: texts far longer than TLC can read in reasonable time. Whatever the verdict, there has to
    be one, and the memory taken has to stay in proportion (the bound of MemOk in FixParseTrace)"""
    rng = ck.sub("huge")
    todo = []
    for i, l in enumerate(lays[:8]):
        base = fg.gen_message(rng, l)
        n = rng.choice([20000, 65535, 65536, 65537, 100000])
        todo.append((i, fg.text_of(base + [(str(200000 + k), "v") for k in range(n)])))
        todo.append((i, fg.text_of(base[:3] + [("5000", "v")] * n)))
        todo.append((i, fg.text_of(base[:3]) + "x" * 10 * n))
        todo.append((i, fg.text_of(base[:3] + [("5000", "v" * 10 * n)])))
        for ch in rng.sample(["\u00e9", "\u4e2d", "\U0001f600"], 2):
            for off in range(4):
                v = "v" * off + ch * rng.choice([9000, 33000, 40000])
                todo.append((i, fg.text_of(base[:3] + [("5000", v)] + base[3:])))
                todo.append((i, fg.text_of(base[:3]) + v))
                todo.append((i, v + fg.SOH + fg.text_of(base)))
        todo.append((i, fg.SOH * n))
        todo.append((i, "=" * n))
        todo.append((i, "9" * n + "=1" + fg.SOH))
        todo.append((i, fg.text_of(base[:3]) + ("5=" + fg.SOH) * n))
        for m in (1000, 32767, 32768, 65535, 65536, 100000):
            fs = fg.gen_big(rng, l, m)
            if fs is not None:
                todo.append((i, fg.text_of(fs)))
                k = next(k for k, f in enumerate(fs) if f[1] == str(m))
                todo.append((i, fg.text_of(fs[:k] + [(fs[k][0], str(len(fs) - k - 1))] + fs[k + 1:])))
    cmds = [{"op": "parse", "dict": str(i), "b": hx(t), "_stall": 60, "brief": 1} for i, t in todo]
    for (i, t), r in zip(todo, core.run_parallel(ck.binary, cmds, setup)):
        if r["r"] not in ("ok", "rej"):
            ck.violation("parsing a long text did not end with a result", text=t[:300].replace(fg.SOH, "|"), length=len(t), got=r, part="huge")
        elif r.get("mem", 0) > 65536 + 4000 * len(t):
            ck.violation("parsing a long text used memory out of proportion", text=t[:300].replace(fg.SOH, "|"), length=len(t), mem=r["mem"], part="huge")
    ck.count("huge_texts", len(todo))


def many_instances(ck, lays, setup):
    """C03: groups too long for TLC, all of one simple shape: the machine takes every one of them
    whatever the number of instances, and refuses one whose count is not that number"""
    rng = ck.sub("many")
    todo = []
    for i, l in enumerate(lays):
        for m in rng.sample([999, 1000, 1001, 1023, 1024, 1025, 2000, 4096, 5000, 9999, 10000, 10001, 20000, 32767, 32768, 40000, 65535, 65536, 70000], 4):
            fs = fg.gen_big(rng, l, m)
            if fs is None:
                continue
            k = next(k for k, f in enumerate(fs) if f[1] == str(m))
            todo.append((i, fs, m))
            for wrong in rng.sample([m - 1, m + 1, m + 65536, m - 1000, m + 256], 2):
                todo.append((i, fs[:k] + [(fs[k][0], str(max(0, wrong)))] + fs[k + 1:], 0))
    todo = todo[:ck.n(150, 600)]
    cmds = [{"op": "parse", "dict": str(i), "b": hx(fg.text_of(fs)), "_stall": 60, "brief": 1} for i, fs, m in todo]
    for (i, fs, m), r in zip(todo, core.run_parallel(ck.binary, cmds, setup)):
        if m and (r["r"] != "ok" or r["fields"] != len(fs) or r["insts"] != m):
            ck.violation("a well-formed group is refused or read wrongly", instances=m, fields=len(fs), got=r,
                         text=fg.text_of(fs[:8]).replace(fg.SOH, "|"), part="many")
        if not m and r["r"] == "ok":
            ck.violation("a group with a wrong count is accepted", got=r, text=fg.text_of(fs[:8]).replace(fg.SOH, "|"), fields=len(fs), part="many")
    ck.count("long_groups", len(todo))


def headless(ck):
    """C01: dictionaries which do not list the fields every message starts with, or whose groups
    use them: there still is a result for every text"""
    rng = ck.sub("headless")
    lays, todo = [], []
    for _ in range(12):
        l = fg.random_layout(rng, 2, True)
        drop = set(rng.sample(["8", "9", "35"], rng.randint(1, 3)))
        l["hdr"] = [x for x in l["hdr"] if x["t"] not in drop]
        k = rng.random()
        if k < 0.3:
            l["hdr"].append(fg.G(rng.choice(sorted(drop)), fg.F(100200), fg.F(100201)))
        elif k < 0.5:
            l["trl"].append(fg.F(sorted(drop)[0]))
        elif k < 0.7:
            l["hdr"].append(fg.G(100202, fg.F(sorted(drop)[0]), fg.F(100201)))
        if rng.random() < 0.3:
            l["trl"] = l["trl"][:rng.randint(0, 2)]
        lays.append(l)
        src = dict(l, hdr=[fg.F(8), fg.F(9), fg.F(35)] + [x for x in l["hdr"] if x["t"] not in ("8", "9", "35")])
        for _ in range(60):
            fs = fg.gen_message(rng, src)
            if rng.random() < 0.5:
                fs = fg.mutate(rng, fs, src)
            if rng.random() < 0.3:
                fs = [(t, "1" if t in ("8", "9", "35") else v) for t, v in fs]
            todo.append((len(lays) - 1, fg.text_of(fs)))
    setup = [{"op": "dict", "id": str(i), "xml": fg.render(l)} for i, l in enumerate(lays)]
    cmds = [{"op": "parse", "dict": str(i), "b": hx(t), "brief": 1} for i, t in todo]
    for (i, t), r in zip(todo, core.run_parallel(ck.binary, cmds, setup)):
        if r["r"] not in ("ok", "rej"):
            ck.violation("parsing did not end with a result", text=t.replace(fg.SOH, "|"), layout=lays[i], got=r, part="headless")
    ck.count("headless_texts", len(todo))


def validate(ck, prop, lays, logd, chunk=4000):
    bad = []
    for at in range(0, len(logd), chunk):
        part = logd[at:at + chunk]
        p = core.write_json("trace.json", {"soh": fg.SOH, "dicts": lays, "log": part, "prop": prop})
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\nVIEW View\n"
        t = core.tlc("FixParseTrace", cfg, env={"LOG": p}, timeout=800, heap="10g")
        ck.states(t)
        done, x = {}, {}
        for l in t.tagged("D"):
            a, b = l.split(",", 1)
            done[int(a)] = b.strip().strip('"')
        for l in t.tagged("X"):
            e = json.loads(json.loads(l))
            x[e["n"]] = e
        if len(set(done) | set(x)) != len(part):
            raise core.ToolError("only %d of %d entries were validated" % (len(set(done) | set(x)), len(part)))
        by = ck.cov.setdefault("verdicts", {})
        for v in done.values():
            by[v or "accepted"] = by.get(v or "accepted", 0) + 1
        bad += [(at + n, e) for n, e in sorted(x.items())]
    return bad


def identity_total(ck, todo):
    """C01: deriving an identity from any text ends with an identity"""
    rng = ck.sub("sid")
    texts = [t for _, t in todo]
    extra = []
    for t in texts[:1500]:
        extra.append(t[:rng.randint(0, len(t))])
        extra.append(fg.spoil(rng, t))
    for tag in ("8", "49", "50", "56", "57", "142", "143"):
        for tail in ("", "=", "=" + fg.SOH, "=x", "=x" + fg.SOH, "==", "=\u20ac", fg.SOH):
            for head in ("", fg.SOH, "8=F" + fg.SOH, "8=F" + fg.SOH + "49=A" + fg.SOH, "\u20ac" + fg.SOH, fg.SOH * 2):
                extra.append(head + tag + tail)
    for tag in ("8", "49", "50", "56", "57", "142", "143"):
        for _ in range(40):
            v = fg.long_value(rng, (15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1000, 1024, 4095, 4096, 5000))
            rest = "".join("%s=%s%s" % (t, fg.value(rng), fg.SOH) for t in ("49", "56", "34") if t != tag)
            extra.append(("8=FIX.4.3" + fg.SOH if tag != "8" else "") + "9=1" + fg.SOH + rest + tag + "=" + v
                         + (fg.SOH if rng.random() < 0.8 else ""))
    for ch in ("\u00e9", "\u4e2d", "\U0001f600"):
        for off in range(4):
            for n in (100, 1100, 17000, 33000):
                v = "v" * off + ch * n
                for t in ("8", "49", "56", "58"):
                    extra.append(("8=FIX.4.3" + fg.SOH if t != "8" else "") + t + "=" + v + fg.SOH + "49=A" + fg.SOH + "56=B" + fg.SOH)
                extra.append(v)
    cmds = [{"op": "sid", "b": hx(t)} for t in texts + extra]
    res = core.run_parallel(ck.binary, cmds)
    for c, r in zip(cmds, res):
        t = unhx(c["b"])
        if r["r"] != "ok":
            ck.violation("deriving a session identity did not end with an identity",
                         text=t.replace(fg.SOH, "|"), got=r)
        elif r["mem"] > 65536 + 4000 * len(t):
            ck.violation("deriving a session identity used memory out of proportion", text=t[:500], mem=r["mem"])
    ck.count("identities_derived", len(cmds))


def run(ck, prop):
    core_extra = 1 if ck.thorough else 0
    exhaustive(ck, prop, core_extra)
    nd, per = ck.n((24, 110), (150, 250))
    todo, _ = traces(ck, prop, nd, per)
    if prop == "C01":
        identity_total(ck, todo)
    return "model_checking"
