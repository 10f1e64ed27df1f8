"""C23."""
import json, os, re
from . import core, fixgen as fg
from .core import hx, unhx

SHIPPED = "resources/FIX43.xml"
IDS = (("49", "target_comp_id"), ("56", "sender_comp_id"), ("50", "target_sub_id"), ("57", "sender_sub_id"),
       ("142", "target_location_id"), ("143", "sender_location_id"))
KEYS = ("begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id", "target_comp_id", "target_sub_id", "target_location_id")


def layout(rng):
    """a dictionary whose header lists all identifiers, which stand nowhere else"""
    while True:
        l = fg.random_layout(rng, rng.choice([0, 1, 2, 3]), rng.random() < 0.3)
        if not {"50", "57", "142", "143"} & set(fg.tags_of(l["hdr"] + l["trl"]) + [t for m in l["msgs"].values() for t in fg.tags_of(m)]):
            rest = l["hdr"][3:] + [fg.F(t) for t in (50, 57, 142, 143)]
            rng.shuffle(rest)
            l["hdr"] = l["hdr"][:3] + rest
            inside = {t for its in [l["hdr"], l["trl"]] + list(l["msgs"].values()) for i in its if "g" in i for t in fg.tags_of(i["g"])}
            if not inside & {"8", "9", "35", "49", "56", "10"}:
                return l


def sibling(rng, l):
    """the same tags in another order, some of them no longer known or groups of another kind"""
    m = json.loads(json.dumps(l))
    for mt in m["msgs"]:
        its = m["msgs"][mt]
        rng.shuffle(its)
        for i in its:
            if "g" in i and rng.random() < 0.5:
                if rng.random() < 0.4:
                    del i["g"]              # a plain field
                else:
                    rng.shuffle(i["g"])     # another delimiter and order
    for i in list(m["hdr"][3:]):
        if i["t"] not in [x[0] for x in IDS] and rng.random() < 0.3:
            m["hdr"].remove(i)
    return m


def section(head, kv, rng=None):
    kv = list(kv)
    if rng:
        rng.shuffle(kv)
    return "[%s]\n" % head + "".join("%s=%s\n" % (k, v) for k, v in kv)


def eff(secs, i, k):
    for kv in (secs[i]["kv"], secs[0]["kv"]):
        for a, b in kv:
            if a == k:
                return b
    return None


def sid(secs, i):
    r = {"begin": eff(secs, i, "begin_string"), "snd": eff(secs, i, "sender_comp_id"), "tgt": eff(secs, i, "target_comp_id")}
    for a, b in (("ssub", "sender_sub_id"), ("sloc", "sender_location_id"), ("tsub", "target_sub_id"), ("tloc", "target_location_id")):
        v = eff(secs, i, b)
        if v:
            r[a] = v
    return r


def command(secs, nports, dicts, conns, rng, par=4):
    """dicts: name used in the configuration -> layout; the names of files are %D0%, %D1%..."""
    names = [d for d in dicts if d != SHIPPED]
    cfg = section("Default", secs[0]["kv"], rng) + "".join(section("Session", s["kv"], rng) for s in secs[1:])
    return {"op": "pipe", "cfg": cfg, "ports": nports, "dicts": [fg.render(dicts[d]) for d in names],
            "sids": [sid(secs, i) for i in range(1, len(secs))], "conns": conns, "workers": rng.choice([1, 2, 4]) if rng else 2,
            "par": par, "patience": 15000, "_stall": 90}


def got_of(x):
    def fm(d):
        return {"f": [[t, unhx(v)] for t, v in d["f"]], "g": [[t, [fm(i) for i in insts]] for t, insts in d["g"]]}
    return {"s": x["s"], "h": fm(x["h"]), "b": fm(x["b"]), "t": fm(x["t"])}


def nine(x):
    return next((v for t, v in x["h"]["f"] if t == "9"), "")


# --------------------------------------------------------------- enumerated
def cut_model(ck):
    p = core.write_json("cut.json", {"chars": ["1", "0", "=", "|", "x"], "maxlen": ck.n(6, 7)})
    cfg = "SPECIFICATION SpecCut\nCHECK_DEADLOCK FALSE\nINVARIANT CutsRight\nINVARIANT NothingLost\n"
    ck.states(core.tlc("PipeMC", cfg, env={"LOG": p}, timeout=800, heap="10g"))


def enumerated(ck):
    dicts = {"%D0%": {"hdr": [fg.F(t) for t in (8, 9, 35, 49, 56)], "trl": [fg.F(10)],
                      "msgs": {"D": [fg.F(1), fg.G(73, fg.F(11), fg.F(12))]}},
             "%D1%": {"hdr": [fg.F(t) for t in (8, 9, 35, 49, 56)] + [fg.F(12)], "trl": [fg.F(11), fg.F(10)],
                      "msgs": {"D": [fg.F(73)]}}}
    secs = [{"d": True, "kv": [["connection_type", "acceptor"], ["begin_string", "FIX.4.3"], ["sender_comp_id", "S"],
                               ["socket_accept_port", "%P0%"], ["data_dictionary", "%D0%"]]},
            {"d": False, "kv": [["target_comp_id", "C1"]]},
            {"d": False, "kv": [["target_comp_id", "C2"], ["data_dictionary", "%D1%"]]}]
    alpha = ["49=C1|56=S|", "49=C2|56=S|", "56=S|", "73=1|", "11=x|", "12=y|", "10=0|", "z|", "8=FIX.4.3|9=1|35=D|", "110=1|"]
    rng = ck.sub("enum")
    for prefix, depth in (([9], 4), ([9, 1], 4), ([9, 2], 4), ([8, 9, 1, 4], 3 if not ck.thorough else 4)):
        p = core.write_json("pipemc.json", {"alphabet": alpha, "prefix": prefix, "suffix": "10=9|", "maxlen": depth + (1 if ck.thorough else 0),
                                            "secs": secs, "dicts": dicts, "chars": []})
        t = core.tlc("PipeMC", "SPECIFICATION SpecF\nCHECK_DEADLOCK FALSE\nINVARIANT EmitF\n", env={"LOG": p}, timeout=800, heap="10g")
        ck.states(t)
        cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
        cases.sort(key=lambda c: (len(c["x"]), c["x"]))
        rng.shuffle(cases)
        if not any(c["m"] for c in cases):
            raise core.ToolError("PipeMC is vacuous")
        k = 16
        parts = [cases[i::k] for i in range(k)]
        cmds = []
        for part in parts:
            b = "".join(c["x"] for c in part).replace("|", fg.SOH) + end_of("0", secs, 1)
            cuts = sorted(rng.sample(range(1, len(b)), min(len(b) // 20, 400)))
            cmds.append(command(secs, 1, dicts, [{"p": 0, "b": hx(b), "cuts": cuts, "gap": 0, "end": "0_END"}], None, 1))
        for part, r in zip(parts, core.run_parallel(ck.binary, cmds, shards=4, stall=60)):
            if r["r"] != "ok":
                ck.violation("the service does not start or does not end", got=r, part="enumerated")
                continue
            at = 0
            got = [got_of(x) for x in r["got"]]
            for c in part:
                for m in c["m"]:
                    g = got[at] if at < len(got) else None
                    if g is None or g["s"] != m["s"] or any(canon(g[x]) != canon(m["m"][x]) for x in "hbt"):
                        ck.violation("the application is not handed what was written", text=c["x"], expected=m, got=g, part="enumerated")
                        break
                    at += 1
                else:
                    continue
                break
            else:
                if [nine(g) for g in got[at:]] != ["0_END"]:
                    ck.violation("the application is handed more than was written", got=got[at:at + 3], part="enumerated")
        ck.count("replayed_from_spec", len(cases))
        ck.count("handed_over", sum(len(c["m"]) for c in cases))


def canon(d):
    f = d["f"].items() if isinstance(d["f"], dict) else d["f"]
    return (tuple(sorted((t, v) for t, v in f)), tuple(sorted((t, tuple(canon(i) for i in insts)) for t, insts in d["g"])))


def end_of(key, secs, i):
    """ends whatever piece is open, then the last message"""
    return fg.SOH + "10=0" + fg.SOH + fg.text_of(header(secs, i, key + "_END", "0") + [("10", "000")])


def header(secs, i, nine, mt):
    out = [("8", eff(secs, i, "begin_string")), ("9", nine), ("35", mt)]
    for t, k in IDS:
        v = eff(secs, i, k)
        if v:
            out.append((t, v))
    return out


# ------------------------------------------------------------------- random
def rand_config(rng, shipped):
    nd = rng.choice([1, 2, 2, 3, 4])
    base = layout(rng)
    dicts = {}
    for k in range(nd):
        dicts["%%D%d%%" % k] = base if k == 0 else (sibling(rng, base) if rng.random() < 0.6 else layout(rng))
    names = sorted(dicts)
    nports = rng.choice([1, 1, 2, 3])
    d = [["connection_type", "acceptor"], ["begin_string", rng.choice(["FIX.4.2", "FIX.4.3", "FIX.4.4"])], ["sender_comp_id", rng.choice(["S", "SRV", "\u00c9\u20ac"])],
         ["socket_accept_port", "%P0%"]]
    usedefault = rng.random() < 0.5
    if usedefault:
        d.append(["data_dictionary", rng.choice(names)])
    secs = [{"d": True, "kv": d}]
    seen = set()
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        kv = []
        if rng.random() < 0.3:
            kv.append(["begin_string", rng.choice(["FIX.4.2", "FIX.4.3", "FIX.4.4"])])
        if rng.random() < 0.2:
            kv.append(["sender_comp_id", rng.choice(["S", "S2", "SRV"])])
        kv.append(["target_comp_id", rng.choice(["C", "C1", "C2", "S", "\u4e2d"])])
        for k in ("sender_sub_id", "sender_location_id", "target_sub_id", "target_location_id"):
            if rng.random() < 0.15:
                kv.append([k, rng.choice(["a", "b", "C1"])])
        if nports > 1 and rng.random() < 0.7:
            kv.append(["socket_accept_port", "%%P%d%%" % rng.randrange(nports)])
        if rng.random() < 0.75 or (not usedefault and not shipped):
            kv.append(["data_dictionary", rng.choice(names)])
        s = {"d": False, "kv": kv}
        ident = tuple(eff([secs[0], s], 1, k) for k in KEYS)
        if ident not in seen:
            seen.add(ident)
            secs.append(s)
    return secs, nports, dicts


def rand_piece(rng, secs, i, lay, key, num):
    fs = fg.gen_message(rng, lay)
    have = dict(fs)
    ids = [x for x in header(secs, i, "%s_%d" % (key, num), have.get("35", "0"))]
    r = rng.random()
    if r < 0.06:
        k = rng.randrange(3, len(ids))
        ids[k] = (ids[k][0], rng.choice(["C", "C1", "C2", "S", "x", ids[k][1] + "x", ids[k][1].lower()]))
    elif r < 0.09:
        del ids[rng.randrange(3, len(ids))]
    elif r < 0.12:
        ids.insert(rng.randint(3, len(ids)), (rng.choice(["50", "57", "142", "143"]), "a"))
    elif r < 0.14:
        sw = {"49": "56", "56": "49"}
        ids = ids[:3] + [(sw.get(t, t), v) for t, v in ids[3:]]
    elif r < 0.16:
        ids[0] = ("8", rng.choice(["FIX.4.2", "FIX.4.3", "FIX.4.4", "FIXT.1.1"]))
    # the identifiers among the other header fields, which come as they come
    drop = {"8", "9", "35", "10"} | {t for t, _ in IDS}
    rest = [f for f in fs[3:] if f[0] not in drop]
    tops = {x["t"] for x in lay["hdr"] if "g" not in x}
    nh = 0
    while nh < len(rest) and rest[nh][0] in tops:
        nh += 1
    hd = ids[3:] + rest[:nh]
    rng.shuffle(hd)
    fs = ids[:3] + hd + rest[nh:]
    if rng.random() < 0.35:
        for _ in range(rng.choice([1, 1, 2])):
            fs = fg.mutate(rng, fs, lay)
    if rng.random() < 0.93:
        fs.append(("10", "%03d" % rng.randint(0, 255)))
    t = fg.text_of(fs)
    if rng.random() < 0.12:
        t = fg.spoil(rng, t)
    return t


def fine(t, key):
    if fg.has_leading_zero_or_plus(t):
        return False
    return all(not f.startswith("9=") or f.startswith("9=%s_" % key) for f in t.split(fg.SOH))


def rand_stream(rng, secs, dicts, key, first):
    """the pieces of one connection: mostly of one session, but of any if it is so written"""
    out = ""
    i = first
    for num in range(rng.choice([3, 8, 12, 20])):
        if rng.random() < 0.3:
            i = rng.randrange(1, len(secs))
        d = eff(secs, i, "data_dictionary") or SHIPPED
        lay = dicts[d if rng.random() < 0.85 else rng.choice(sorted(dicts))]
        t = rand_piece(rng, secs, i, lay, key, num)
        if rng.random() < 0.03:
            t = fg.junk(rng)
        if rng.random() < 0.02:
            t += rng.choice([fg.SOH, "10=", "x10=1" + fg.SOH, "=10=" + fg.SOH, "10" + fg.SOH])
        if fine(out + t, key):
            out += t
    return out


def used_types(text):
    return set(re.findall("35=([^%s]*)" % fg.SOH, text))


def traces(ck, n):
    rng = ck.sub("pipe")
    full = fg.layout_of_xml(os.path.join(core.REPO, SHIPPED))
    cmds, meta = [], []
    for e in range(n):
        secs, nports, dicts = rand_config(rng, True)
        if any(eff(secs, i, "data_dictionary") is None for i in range(1, len(secs))):
            some = rng.sample(sorted(full["msgs"]), 6)
            dicts[SHIPPED] = {"hdr": full["hdr"], "trl": full["trl"], "msgs": {m: full["msgs"][m] for m in some}}
        conns, streams, types = [], [], {"0"}
        for c in range(rng.choice([1, 2, 3, 5, 8])):
            key = "c%d" % c
            i = rng.randrange(1, len(secs))
            s = rand_stream(rng, secs, dicts, key, i) + end_of(key, secs, i)
            b = s.encode()
            k = rng.choice([0, 0, 3, 20, len(b) // 7])
            if rng.random() < 0.1 and len(b) < 1500:
                k = len(b) - 1
            conns.append({"p": int(re.search(r"\d+", eff(secs, i, "socket_accept_port")).group()), "b": hx(b),
                          "cuts": sorted(rng.sample(range(1, len(b)), min(k, len(b) - 1))), "gap": rng.choice([0, 0, 0, 50, 300]) if k < 100 else 0,
                          "end": key + "_END"})
            streams.append(s)
            types |= used_types(s)
        if SHIPPED in dicts:
            dicts[SHIPPED]["msgs"] = {m: full["msgs"][m] for m in full["msgs"] if m in types}
        cmds.append(command(secs, nports, dicts, conns, rng, rng.choice([1, 4, 8])))
        meta.append((secs, dicts, streams))
    res = core.run_parallel(ck.binary, cmds, stall=60)
    cfgs, log, where = [], [], []
    for e, ((secs, dicts, streams), r) in enumerate(zip(meta, res)):
        if r["r"] != "ok":
            ck.violation("the service does not start or does not end", cfg=cmds[e]["cfg"], got=r, part="random")
            continue
        cfgs.append({"secs": secs, "dicts": dicts})
        got = [got_of(x) for x in r["got"]]
        for c, s in enumerate(streams):
            log.append({"cfg": len(cfgs), "s": s, "got": [g for g in got if nine(g).startswith("c%d_" % c)]})
            where.append((e, c))
        odd = [g for g in got if not re.match(r"c\d+_", nine(g))]
        if odd:
            ck.violation("the application is handed something nobody has written", cfg=cmds[e]["cfg"], got=odd[0], part="random")
    for lo in range(0, len(log), 600):
        part = log[lo:lo + 600]
        used = sorted({x["cfg"] for x in part})
        p = core.write_json("pipelog.json", {"soh": fg.SOH, "cfgs": [cfgs[u - 1] for u in used],
                                             "log": [dict(x, cfg=used.index(x["cfg"]) + 1) for x in part]})
        t = core.tlc("PipeTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\nVIEW View\n", env={"LOG": p}, timeout=800, heap="10g")
        ck.states(t)
        done = {}
        for l in t.tagged("D"):
            a, b = l.split(",")
            done[int(a)] = int(b)
        bad = [json.loads(json.loads(l)) for l in t.tagged("X")]
        if len(done) + len(bad) != len(part):
            raise core.ToolError("only %d of %d connections were validated" % (len(done) + len(bad), len(part)))
        ck.count("handed_over", sum(done.values()))
        for b in sorted(bad, key=lambda b: b["n"]):
            e, c = where[lo + b["n"] - 1]
            x = part[b["n"] - 1]
            ck.violation("the application is not handed what was written", cfg=cmds[e]["cfg"], piece=b["piece"].replace(fg.SOH, "|"),
                         want=b["want"], got=x["got"][b["k"]] if b["k"] < len(x["got"]) else None, connection=c, part="random")
    ck.count("traces_validated_against_impl", len(log))
    ck.count("pieces", sum(x["s"].count(fg.SOH + "10=") for x in log))
    ck.sample({"cfg": cmds[0]["cfg"], "stream": meta[0][2][0][:400].replace(fg.SOH, "|")})


def run(ck, prop):
    cut_model(ck)
    enumerated(ck)
    traces(ck, ck.n(160, 1200))
    ck.assumptions.append("text is UTF-8; identifiers are listed at the top level of every header only; tags without leading zeros")
    return "model_checking"
