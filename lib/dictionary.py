"""C14, C15, C16."""
import copy, json, os
import xml.etree.ElementTree as ET
from . import core

INV = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT FaultsAgree\nINVARIANT TablesAgree\nINVARIANT TablesSane\nINVARIANT Emit\n"


def el(n, a=(), c=()):
    return {"n": n, "a": [list(x) for x in a], "c": list(c)}


def F(n, r="N"):
    return el("field", [("name", n), ("required", r)])


def C(n, r="N"):
    return el("component", [("name", n), ("required", r)])


def G(n, r, *kids):
    return el("group", [("name", n), ("required", r)], kids)


def M(n, t, *kids):
    return el("message", [("name", n), ("msgcat", "app"), ("msgtype", t)], kids)


# ----------------------------------------------------------------- rendering
def esc(v, q):
    v = v.replace("&", "&amp;").replace("<", "&lt;")
    return q + (v.replace('"', "&quot;") if q == '"' else v.replace("'", "&apos;")) + q


def render(e, rng=None, ind=0):
    a = list(e["a"])
    if rng and rng.random() < 0.5:
        rng.shuffle(a)
    o = "<" + e["n"]
    for k, v in a:
        q = rng.choice("\"'") if rng else '"'
        o += (" " if not rng or rng.random() < 0.9 else "\n  ") + k + (" = " if rng and rng.random() < 0.1 else "=") + esc(v, q)
    if rng and rng.random() < 0.1 and e["n"] in ("field", "group", "component", "message"):
        o += " extra='1'"
    if not e["c"] and (not rng or rng.random() < 0.7):
        return o + "/>"
    o += ">"
    for c in e["c"]:
        if not rng or rng.random() < 0.7:
            o += "\n" + " " * ind
        if rng and rng.random() < 0.05:
            o += "<!-- <field name='x' required='Y'/> -->"
        o += render(c, rng, ind + 1)
    return o + "\n</%s>" % e["n"]


def walk(e, path=()):
    yield e, path
    for i, c in enumerate(e["c"]):
        yield from walk(c, path + (i,))


def attr(e, k):
    for x, v in e["a"]:
        if x == k:
            return v
    return None


def question(root):
    """message types and tags to ask about"""
    types, tags = set(), set()
    for e, _ in walk(root):
        if attr(e, "msgtype"):
            types.add(attr(e, "msgtype"))
        n = attr(e, "number") or ""
        if n.isdigit() and int(n) < 1 << 32:
            tags.add(int(n))
    un = next(t for t in range(5000, 100000) if t not in tags)
    return sorted(types | {"header", "trailer", "no such type"}), sorted(tags) + [un]


def command(root, rng=None):
    types, tags = question(root)
    xml = render(root, rng)
    if rng and rng.random() < 0.3:
        xml = rng.choice(["<?xml version='1.0' encoding='UTF-8'?>\n", '<?xml version="1.0"?>', "<!-- a dictionary -->\n", "\n  "]) + xml
    if rng and rng.random() < 0.2:
        xml += rng.choice(["\n", "\n<!-- end -->\n", "  "])
    c = {"op": "dict", "id": "d", "xml": xml, "types": types, "tags": tags}
    if rng and rng.random() < 0.4:
        c["file"] = 1
    return c


# ------------------------------------------------------- enumerated by TLC
BASE = el("fix", [("type", "FIX"), ("major", "4"), ("minor", "3")], [
    el("header", [], [F("BeginString", "Y"), G("Hops", "N", F("HopId", "Y"))]),
    el("trailer", [], [F("CheckSum", "Y"), C("Tail", "N")]),
    el("messages", [], [
        M("Order", "D", F("Account", "N"), C("Parties", "Y"),
          G("Allocs", "Y", F("AllocId", "Y"), C("Inner", "N"), G("Legs", "N", F("LegId", "Y"), F("LegQty", "N")))),
        M("News", "B", F("Account", "Y"), C("Parties", "N"))]),
    el("components", [], [
        el("component", [("name", "Parties")], [G("NoParties", "Y", F("PartyId", "Y"), F("PartyRole", "N"))]),
        el("component", [("name", "Inner")], [F("InnerA", "Y"), C("Tail", "Y")]),
        el("component", [("name", "Tail")], [F("TailA", "N")])]),
    el("fields", [], [
        el("field", [("number", str(100 + i)), ("name", n), ("type", ["STRING", "INT", "NUMINGROUP"][i % 3])],
           [el("value", [("enum", v), ("description", "d" + v)]) for v in (["1", "2"] if i in (2, 5) else [])])
        for i, n in enumerate(["BeginString", "HopId", "Account", "AllocId", "LegId", "LegQty", "PartyId", "PartyRole", "InnerA",
                               "TailA", "CheckSum", "Hops", "Allocs", "Legs", "NoParties"])])])


def tab_expected(t):
    g = t["g"] if isinstance(t["g"], dict) else {}
    return (sorted(t["f"]), sorted(t["q"]),
            {k: (x["delim"] or "0", x["in"]["f"], tab_expected(x["in"])) for k, x in g.items()})


def tab_got(d):
    return (sorted(d["f"]), sorted(d["q"]), {k: (x["delim"], x["order"], tab_got(x["in"])) for k, x in d["g"].items()})


def agree(d):
    return not d["disagree"] and all(agree(x["in"]) for x in d["g"].values())


def obj(x):
    return x if isinstance(x, dict) else {}


def differences(prop, want, d):
    """where the code's knowledge differs from what the specification expects"""
    out = []
    tabs = obj(want["tabs"])
    for mt, got in d["types"].items():
        e = tab_expected(tabs[mt]) if mt in tabs else ([], [], {})
        g = tab_got(got)
        if prop == "C14" and (e[:2] != g[:2] or got["known"] != (mt in tabs) or got["disagree"]):
            out.append({"type": mt, "expected": {"fields": e[0], "required": e[1]}, "got": got})
        if prop == "C15" and (e[2] != g[2] or not agree(got)):
            out.append({"type": mt, "expected groups": e[2], "got": g[2]})
    if prop == "C14":
        for k, s in (("hdr", "header"), ("trl", "trailer")):
            if sorted(d[k]) != sorted(tabs[s]["f"]):
                out.append({"section": s, "expected": tabs[s]["f"], "got": d[k]})
        if d["ft"] != obj(want["ft"]):
            out.append({"types of fields": obj(want["ft"]), "got": d["ft"]})
        if {k: sorted(v) for k, v in d["fv"].items()} != {k: sorted(v) for k, v in obj(want["fv"]).items()}:
            out.append({"values of fields": obj(want["fv"]), "got": d["fv"]})
    return out


def judge(ck, prop, want, r, cmd, part):
    if r["r"] not in ("ok", "err"):
        if prop == "C16" or not want["faults"] and r["r"] == "panic" and "file" in cmd:
            ck.violation("loading a dictionary does not return", xml=cmd["xml"], got=r, part=part)
        return
    fs = want["faults"]
    if prop == "C16":
        if (not fs and r["r"] != "ok") or (fs and (r["r"] != "err" or r["k"] not in fs)):
            ck.violation("a faulty dictionary loads" if r["r"] == "ok" else "a dictionary is refused for the wrong reason",
                         faults=fs, got={k: r[k] for k in ("r", "k") if k in r}, change=want["mut"], xml=cmd["xml"], part=part)
    elif not fs and r["r"] == "ok":
        ds = differences(prop, want, r["d"])
        if ds:
            ck.violation("the dictionary knows something else than the XML says", differences=ds[:3], xml=cmd["xml"], part=part)


def enumerated(ck, prop, mode, **opts):
    p = core.write_json("dict-%s.json" % mode, dict({"mode": mode, "big": False, "pairs": False, "second": [], "contents": [], "base": BASE}, **opts))
    t = core.tlc("DictionaryMC", INV, env={"LOG": p}, timeout=850, heap="12g")
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    rng = ck.sub(mode)
    cmds = [command(c["root"], rng) for c in cases]
    res = core.run_parallel(ck.binary, cmds)
    ok = 0
    for c, cmd, r in zip(cases, cmds, res):
        ok += not c["faults"]
        judge(ck, prop, c, r, cmd, mode)
    if not ok or ok == len(cases):
        raise core.ToolError("DictionaryMC is vacuous")
    ck.count("replayed_from_spec", len(cases))
    ck.count("faulty", len(cases) - ok)
    ck.sample({"change": cases[-1]["mut"], "faults": cases[-1]["faults"]})


# ------------------------------------------------------------------- random
TYPES = ["CHAR", "BOOLEAN", "DATA", "FLOAT", "AMT", "PERCENTAGE", "PRICE", "PRICEOFFSET", "QTY", "INT", "LENGTH", "NUMINGROUP",
         "SEQNUM", "TAGNUM", "STRING", "COUNTRY", "CURRENCY", "EXCHANGE", "LOCALMKTDATE", "MONTHYEAR", "MULTIPLEVALUESTRING",
         "UTCDATE", "UTCTIMEONLY", "UTCTIMESTAMP", "string", "OTHER"]


def rand_items(rng, pool, comps, depth, n):
    """pool: names not yet used in this scope"""
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.2 and comps:
            nm = rng.choice(sorted(comps))
            if comps[nm] <= set(pool):
                for x in comps[nm]:
                    pool.remove(x)
                out.append(C(nm, rng.choice("YNYNyn")))
                continue
        if not pool:
            break
        nm = pool.pop()
        if r > 0.75 and depth > 0:
            # inside a group the names of the scope around may occur again
            inner = list(rand_items.all)
            rng.shuffle(inner)
            out.append(G(nm, rng.choice("YN"), *rand_items(rng, inner, comps, depth - 1, rng.randint(1, 4))))
        else:
            out.append(F(nm, rng.choice("YNYNYNYNyn")))
    return out


def scope_names(items, kids):
    s = set()
    for e in items:
        s |= scope_names(kids[attr(e, "name")], kids) if e["n"] == "component" else {attr(e, "name")}
    return s


def rand_dict(rng):
    n = rng.randint(12, 40)
    names = ["N%d" % i for i in range(n)]
    for i in range(3):
        names[i] = rng.choice(["Größe", "a&b", "Sum <x>", "name", "N1x", "n0"]) + str(i)
    if rng.random() < 0.4:
        # names which differ in case, in white space or by a letter only
        a = rng.choice(["Price", "N3", "LastPx", "no", "x"])
        for x in rng.sample([a.upper(), a.lower(), a.swapcase(), a + " ", a + "s", "No" + a, a[:-1] or "xx", a + "_"], 3) + [a]:
            if x not in names:
                names[rng.randrange(3, n)] = x
    tags = rng.sample(range(1, 2000), n - 1) + [rng.choice([4294967295, 100000, 10, 9])]
    tags = list(dict.fromkeys(tags))
    while len(tags) < n:
        t = rng.randint(2001, 9999)
        if t not in tags:
            tags.append(t)
    rand_items.all = names
    kids, comps = {}, {}
    for i in range(rng.randint(0, 5)):
        pool = list(names)
        rng.shuffle(pool)
        nm = "K%d" % i if rng.random() < 0.7 else rng.choice(["k0", "k1", "K", "N3", "Price", "field", "header", "Parties "])
        if nm in comps:
            continue
        its = rand_items(rng, pool, comps if rng.random() < 0.6 else {}, 2, rng.randint(0, 4))
        kids[nm] = its
        comps[nm] = scope_names(its, kids)
    cs = [el("component", [("name", k)], v) for k, v in kids.items()]
    rng.shuffle(cs)

    def scope(k):
        pool = list(names)
        rng.shuffle(pool)
        return rand_items(rng, pool, comps, 3, k)
    msgs = [M("Msg%s" % t if rng.random() < 0.8 else {"D": "N3", "d": "msgD", "n": "K0"}.get(t, "m" + t), t, *scope(rng.randint(0, 8))) for t in rng.sample(["D", "8", "AE", "n", "d", "W", "U1", "ae", "Header", "10"], rng.randint(0, 4))]
    fields = [el("field", [("number", str(t)), ("name", x), ("type", rng.choice(TYPES))],
                 [el("value", [("enum", v)]) for v in rng.sample(["1", "2", "A", "B", "a", " ", "é", "<&>", "10", "1 0", "1 ", " A", "01", "b"],
                                                                 rng.choice([0, 0, 0, 1, 3]))])
              for t, x in zip(tags, names)]
    rng.shuffle(fields)
    secs = [el("header", [], scope(rng.randint(0, 4))), el("trailer", [], scope(rng.randint(0, 3))),
            el("messages", [], msgs), el("components", [], cs), el("fields", [], fields)]
    rng.shuffle(secs)
    if rng.random() < 0.2:
        s = rng.choice(secs)
        s["n"] = rng.choice([str.upper, str.capitalize])(s["n"])
    if rng.random() < 0.1:
        secs.insert(rng.randint(0, 5), el("other", [], [F("zz", "Y")]))
    return el("fix", [("type", "FIX"), ("major", rng.choice("45")), ("minor", rng.choice("0234"))], secs)


def change(rng, root):
    """one random change, usually a fault; never a component inside itself"""
    root = copy.deepcopy(root)
    nodes = [(e, p) for e, p in walk(root) if p or rng.random() < 0.3]
    if rng.random() < 0.6:
        nodes = [(e, p) for e, p in nodes if e["n"] != "value" and not (attr(e, "number"))] or nodes
    e, p = rng.choice(nodes)
    up = root
    for i in p[:-1]:
        up = up["c"][i]
    k = rng.choice(["drop", "empty", "bad", "swap", "remove", "repeat", "repeat", "rename", "far"])
    if k in ("drop", "empty", "bad", "swap") and not e["a"]:
        return root
    if k == "drop":
        e["a"].pop(rng.randrange(len(e["a"])))
    elif k == "empty":
        rng.choice(e["a"])[1] = ""
    elif k == "bad":
        a = rng.choice(e["a"])
        a[1] = rng.choice(["x", "-1", "1.0", "4294967296", "12a", " 5"]) if a[0] == "number" else "no such thing"
    elif k == "swap":
        a = rng.choice(e["a"])
        if e["n"] == "component" and a[0] == "name":
            return root
        sib = [attr(s, a[0]) for s in up["c"] if s is not e and s["n"] == e["n"] and attr(s, a[0])]
        if sib:
            a[1] = rng.choice(sib)
    elif not p:
        return root
    elif k == "remove":
        up["c"].pop(p[-1])
    elif k == "repeat":
        up["c"].insert(rng.randint(0, len(up["c"])), copy.deepcopy(e))
    elif k == "rename":
        e["n"] = rng.choice(["other", e["n"] + "s", "Field"])
    elif k == "far":
        if e["n"] in ("field", "group") and attr(e, "required"):
            tops = [x for x, _ in walk(root) if x["n"] in ("message", "group", "component", "header", "trailer")]
            rng.choice(tops)["c"].append(copy.deepcopy(e))
    return root


def of_xml(x):
    return {"n": x.tag, "a": [[k, v] for k, v in x.attrib.items()], "c": [of_xml(c) for c in x]}


def acyclic(root):
    """no component contains itself (changes can make one)"""
    kids = {}
    for s in root["c"]:
        if s["n"].lower() == "components":
            for c in s["c"]:
                kids[attr(c, "name")] = c
    seen = {}

    def refs(e):
        for x, _ in walk(e):
            if x["n"] == "component" and x is not e:
                yield attr(x, "name")

    def ok(nm, stack):
        if nm in stack:
            return False
        if nm not in seen and nm in kids:
            seen[nm] = all(ok(r, stack | {nm}) for r in refs(kids[nm]))
        return seen.get(nm, True)
    return all(ok(k, frozenset()) for k in list(kids))


def traces(ck, prop, n, shipped, chunk=400):
    rng = ck.sub("dict")
    roots = []
    while len(roots) < n:
        r = rand_dict(rng)
        if rng.random() < (0.7 if prop == "C16" else 0.15):
            r = change(rng, r)
            if rng.random() < 0.2:
                r = change(rng, r)
        if acyclic(r):
            roots.append(r)
    fix43 = of_xml(ET.parse(os.path.join(core.REPO, "resources", "FIX43.xml")).getroot())
    big = [fix43]
    while len(big) < 1 + shipped:
        r = change(rng, fix43)
        if acyclic(r):
            big.append(r)
    cmds = [command(r, rng) for r in roots] + [command(r) for r in big]
    cmds[len(roots)]["xml"] = open(os.path.join(core.REPO, "resources", "FIX43.xml"), encoding="utf-8").read()
    roots += big
    res = core.run_parallel(ck.binary, cmds)
    nog = {"types": {}, "hdr": [], "trl": [], "ft": {}, "fv": {}}
    groups = faulty = 0
    bounds = list(range(0, n, chunk)) + [n, len(roots)]
    for lo, hi in zip(bounds, bounds[1:]):
        part = [{"root": roots[i], "r": res[i]["r"], "k": res[i].get("k", ""), "d": res[i].get("d", nog)} for i in range(lo, hi)]
        p = core.write_json("dictlog.json", {"log": part, "prop": prop})
        t = core.tlc("DictionaryTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANT Report\n",
                     env={"LOG": p}, timeout=850, heap="10g")
        ck.states(t)
        done, bad = {}, {}
        for l in t.tagged("D"):
            a, b, c = l.split(",", 2)
            done[int(a)] = (int(b), c.strip() != '"[]"')
        for l in t.tagged("X"):
            e = json.loads(json.loads(l))
            bad[e["n"]] = e
        if len(set(done) | set(bad)) != len(part):
            raise core.ToolError("only %d of %d dictionaries were validated" % (len(set(done) | set(bad)), len(part)))
        groups += sum(x[0] for x in done.values())
        faulty += sum(x[1] for x in done.values())
        for i, e in sorted(bad.items()):
            r = res[lo + i - 1]
            ck.violation("loading a dictionary does not return" if r["r"] not in ("ok", "err") else
                         "the dictionary knows something else than the XML says" if prop != "C16" else
                         "a faulty dictionary loads" if r["r"] == "ok" else "a dictionary is refused for the wrong reason",
                         faults=e["faults"], differences=e["diff"], expected=e["want"],
                         got={k: v for k, v in r.items() if k != "d"},
                         tables={k: v for k, v in r.get("d", nog)["types"].items() if k in e["diff"]},
                         xml=cmds[lo + i - 1]["xml"][:20000], part="random" if hi <= n else "FIX43.xml")
    if not groups and prop != "C16" or (prop == "C16" and not faulty):
        raise core.ToolError("the random dictionaries are vacuous")
    ck.count("traces_validated_against_impl", len(roots))
    ck.count("groups", groups)
    ck.count("faulty", faulty)


def run(ck, prop):
    if prop == "C16":
        if ck.thorough:
            enumerated(ck, prop, "faults", pairs=True, second=["drop", "last"])
        else:
            enumerated(ck, prop, "faults")
        enumerated(ck, prop, "shapes")
    else:
        enumerated(ck, prop, "shapes", big=ck.thorough, contents=[3, 5, 8] if ck.thorough else [])
    traces(ck, prop, ck.n(1200, 8000), ck.n(3, 12) if prop == "C16" else 0)
    ck.assumptions.append("well-formed XML; components do not contain themselves; no message type is called header or trailer")
    return "model_checking"
