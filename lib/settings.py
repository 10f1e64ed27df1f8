"""C10, C11, C12."""
import json
from . import core, fixgen as fg
from .core import hx, unhx

SOH = fg.SOH
IDKEYS = ["begin_string", "sender_comp_id", "sender_sub_id", "sender_location_id",
          "target_comp_id", "target_sub_id", "target_location_id"]
NAMES = IDKEYS + ["connection_type", "socket_accept_port", "socket_connect_host", "socket_connect_port",
                  "start_time", "data_dictionary", "heartbeat_interval", "x", "Begin_string", "nothing"]


# ------------------------------------------------------------------ rendering
def quoted(rng, v):
    return '"%s"' % v if rng.random() < 0.5 or v != v.strip() else v


def render(rng, secs):
    """the text of a configuration in a random layout"""
    if rng is None:
        return "".join("[%s]\n%s" % ("Default" if s["d"] else "Session",
                                     "".join("%s=%s\n" % (k, v) for k, v in s["kv"])) for s in secs)
    nl = "\r\n" if rng.random() < 0.15 else "\n"
    ind = rng.choice(["", "", "  ", "\t"])
    o = "".join(rng.choice(["", nl, "  " + nl]) for _ in range(2))
    for s in secs:
        name = "Default" if s["d"] else rng.choice(["Session", "Session", "SESSION_1", "s"])
        o += ind + rng.choice(["[%s]", "[%s]", "[ %s ]"]) % name + rng.choice(["", " ", "\t"]) + nl
        kv = list(s["kv"])
        rng.shuffle(kv)
        for k, v in kv:
            while rng.random() < 0.15:
                o += rng.choice(["", " ", "\t "]) + nl
            o += ind + rng.choice(["", " "]) + (quoted(rng, k) if rng.random() < 0.2 else k) + rng.choice(["", " ", "  "]) \
                + "=" + rng.choice(["", " ", "\t"]) + quoted(rng, v) + rng.choice(["", " "]) + nl
        o += rng.choice(["", nl])
    if rng.random() < 0.2:
        o = o.rstrip("\r\n")
    return o


# ------------------------------------------------------------------ driver side
def opt(x):
    return [unhx(x[1])] if x and x[0] == "v" else (["<panic>"] if x else [])


def ident(d):
    o = lambda x: [unhx(y) for y in x]
    return {"begin": unhx(d["begin"]), "snd": unhx(d["snd"]), "ssub": o(d["ssub"]), "sloc": o(d["sloc"]),
            "tgt": unhx(d["tgt"]), "tsub": o(d["tsub"]), "tloc": o(d["tloc"])}


def ask_cmd(a):
    if a["k"] == "text":
        return {"raw": hx(a["s"])}
    i = a["id"]
    r = {"begin": i["begin"], "snd": i["snd"], "tgt": i["tgt"]}
    for k in ("ssub", "sloc", "tsub", "tloc"):
        if i[k]:
            r[k] = i[k][0]
    return r


def load(ck, cases, names):
    """cases: (secs, text, ask, texts) -> log entries"""
    cmds = []
    for secs, text, ask, texts in cases:
        cmds.append({"op": "cfg", "text": text, "names": names, "ask": [ask_cmd(a) for a in ask]})
        if len(cmds) % 3 == 0:
            cmds[-1]["file"] = 1
    res = core.run_parallel(ck.binary, cmds)
    every = sorted({t for c in cases for t in c[3]})
    ids = dict(zip(every, core.run_parallel(ck.binary, [{"op": "sid", "b": hx(t)} for t in every]))) if every else {}
    out = []
    for (secs, text, ask, texts), r in zip(cases, res):
        e = {"secs": secs, "r": r["r"], "names": names, "sess": [], "dflt": [], "ask": ask, "found": [], "texts": texts,
             "ids": []}
        if r["r"] == "ok":
            e["sess"] = [{"id": ident(s["id"]), **{k: [opt(x) for x in s[k]] for k in ("own", "own2", "eff", "eff2", "num")}}
                         for s in r["sessions"]]
            e["dflt"] = [opt(x) for x in r["dflt"]]
            e["found"] = [[f[0], f[1]] for f in r["found"]]
        for t in texts:
            x = ids[t]
            e["ids"].append({"fwd": ident(x["fwd"]), "rev": ident(x["rev"])} if x["r"] == "ok" else {"fwd": "none", "rev": "none"})
        out.append(e)
    return out, res


def validate(ck, prop, cases, names):
    logd, res = load(ck, cases, names)
    for lo in range(0, len(logd), 1500):
        part = logd[lo:lo + 1500]
        p = core.write_json("settings.json", {"soh": SOH, "prop": prop, "log": part})
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\nVIEW View\n"
        t = core.tlc("SettingsTrace", cfg, env={"LOG": p}, timeout=600)
        ck.states(t)
        done, bad = {}, {}
        for l in t.tagged("D"):
            n, why, hits = [x.strip().strip('"') for x in l.split(",")]
            done[int(n)] = (why, int(hits))
        for l in t.tagged("X"):
            e = json.loads(json.loads(l))
            bad[e["n"]] = e
        if len(set(done) | set(bad)) != len(part):
            raise core.ToolError("only %d of %d configurations were validated" % (len(set(done) | set(bad)), len(part)))
        by = ck.cov.setdefault("verdicts", {})
        for why, hits in done.values():
            by[why or "loads"] = by.get(why or "loads", 0) + 1
            ck.count("identities_found", hits)
        for n, e in sorted(bad.items()):
            secs, text, ask, texts = cases[lo + n - 1]
            ck.violation("the code does not do with this configuration what the specification says", text=text,
                         expected=e["why"] or "loads", expected_ids=e["sess"], got=part[n - 1], part="random")
    ck.count("traces_validated_against_impl", len(logd))


# ------------------------------------------------------------------ generation
WORDS = ["A", "B", "A/B", "B/A", "CLIENT", "a", "A->B", "X:Y", "1", "A B", "A=B", "\u00c4\u4e2d", "A/", "FIX.4.3:A"]


# values of other settings: whatever they look like, they are read as they are written
ANY = ["#1", "a#b", "x # y", ";x", "a;b", "//x", "http://h:1/p?q=1&r=2", "$HOME", "${sender_comp_id}", "%d", "[x]", "[Session]", "'q'", "a\\b",
       " lead", "trail ", " ", "\tx\t", "true", "30s", "=", "==", "a=b=c", "0", "-1", "\u4e2d", "x" * 300, "C:\\dir\\x.xml", "1,2,3", "{a}", "a\tb", "!x", "@x", "x]", "x\\", "C:\\d\\", "\\", "x,", "x+", "x-", "x_", "x;", "x:", "x#", "<x>", "x\\n", "\\u0041", "%20", "&amp;", "x..", "~", "a\"b", "say \"x\" now", "a=\"b\"c"]


def rand_kv(rng, keys, words=WORDS):
    return [[k, rng.choice(words)] for k in keys if rng.random() < 0.5]


def words_for(rng, prop):
    """identifiers, now and then long ones with long common parts"""
    if rng.random() < 0.1:
        a = fg.long_value(rng).strip(" =").replace("=", "-").replace("|", "-").strip("\"' ") or "A"
        a = "".join(c for c in a if c not in "\"'\\#;[]=") .strip() or "A"
        return list(dict.fromkeys(w.strip() for w in ["A", a, a + "A", a[:-1] + "B", "B" + a, a + "/" + a, a[:-1]] if w.strip()))
    if rng.random() < 0.1:
        return C10WORDS + [" A", "A ", " ", "A/ ", " /A"]
    return WORDS if prop != "C10" else C10WORDS


C10WORDS = ["A", "B", "A/B", "A/B/A", "a", "AB", "0", "N/A", "-", "none", "DEFAULT", "NULL", "*"]
PORTS = ["10114", "1", "65535", "9999", "255", "256", "32767", "32768", "65534", "80", "443", "1023", "1024", "7", "49152"]
HOSTS = ["localhost", "10.0.0.1", "127.0.0.1", "0.0.0.0", "::1", "fe80::1%eth0", "[::1]", "fix.example.com", "fix-1.example.com.", "h", "H_1", "a b",
         "256.1.1.1", "1", "https://x/", "h:80", "\u00fc.de", "localhost,backup"]
BADPORTS = ["65536", "65537", "131072", "4294967297", "18446744073709551617", "99999999999", "-1", "abc", "", "1.5", "10 114", "0x10"]
BEGINS = ["FIX.4.2", "FIX.4.3", "FIX.4.4"]
BADBEGINS = ["FIX.4.44", "FIX.4.20", "FIX.4.4.1", "XFIX.4.4", " FIX.4.3", "FIX.4.2 ", "FIX.4", "FIX.4.", "Fix.4.4", "FIX.5.0", "FIX.4.4/FIX.4.3", "FIX,4.4",
             "FIX.4.1", "fix.4.3", "", "FIX.4.33", "FIXT.1.1", "DEFAULT", "FIX4.3"]


MORE = ["end_time", "start_day", "end_day", "default_timezone", "reset_on_logon", "reset_on_logout", "reset_on_disconnect",
        "socket_accept_host", "file_store_path", "name", "log.level", "a b", "\u00e4", "X", "port"]


def rand_config(rng, prop, maxs=5):
    """sections; for C12 with a fault now and then, for C10 and C11 without"""
    p = 0.12 if prop == "C12" else 0.0
    bad = lambda: rng.random() < p
    ct = rng.choice(["acceptor", "initiator"])
    n = rng.randint(0, maxs) if rng.random() > 0.02 else rng.randint(20, 60)
    words = words_for(rng, prop)
    need = {"begin_string": (BEGINS, BADBEGINS), "sender_comp_id": (words, None), "target_comp_id": (words, None)}
    if ct == "acceptor":
        need["socket_accept_port"] = (PORTS, BADPORTS)
    else:
        need["socket_connect_host"] = (HOSTS, None)
        need["socket_connect_port"] = (PORTS, BADPORTS)
    where = {k: rng.choice(["d", "s", "s", "b", "b"]) for k in need}

    def pick(k):
        good, wrong = need[k]
        if good is PORTS and not bad() and rng.random() < 0.3:
            return str(rng.randint(1, 65535))
        return rng.choice(wrong) if wrong and bad() else rng.choice(good)
    dkv = [["connection_type", rng.choice(["Acceptor", "", "both", "acceptor "[:8] + "s"]) if bad() else ct]]
    if bad():
        dkv = []
    dkv += [[k, pick(k)] for k in need if where[k] in "db" and not bad()]
    opts = ["sender_sub_id", "sender_location_id", "target_sub_id", "target_location_id"]
    more = ["start_time", "data_dictionary", "heartbeat_interval", "x"] + rng.sample(MORE, 2)
    dkv += rand_kv(rng, opts, words + [""]) if rng.random() < 0.4 else []
    dkv += rand_kv(rng, more, WORDS + ANY)
    if prop == "C12" and rng.random() < 0.2:
        dkv += [["socket_accept_port" if ct == "initiator" else "socket_connect_port", rng.choice(PORTS + BADPORTS)]]
    secs = [{"d": True, "kv": dkv}]
    for _ in range(n):
        kv = [[k, pick(k)] for k in need if (where[k] == "s" or (where[k] == "b" and rng.random() < 0.5)) and not bad()]
        kv += rand_kv(rng, opts, words + [""])
        kv += rand_kv(rng, more, WORDS + ANY)
        if rng.random() < 0.2:
            kv.append(["connection_type", rng.choice(["acceptor", "initiator", "what"])])
        secs.append({"d": False, "kv": kv})
    if bad():
        secs.insert(rng.randint(0, len(secs)), {"d": True, "kv": list(dkv)})
    if bad() and len(secs) > 1:
        secs[0], secs[-1] = secs[-1], secs[0]
    if bad():
        secs = [s for s in secs if not s["d"]]
    if prop == "C12" and rng.random() < 0.01:
        secs.append({"d": False, "kv": [["begin_string", "DEFAULT"], ["sender_comp_id", ""], ["target_comp_id", ""], ["connection_type", ct]]})
    return secs


def effective_id(secs, s):
    d = dict(next((x["kv"] for x in secs if x["d"]), []))
    kv = dict(s["kv"])
    return tuple(kv.get(k, d.get(k)) or "" for k in IDKEYS)


def distinct(secs):
    ids = [effective_id(secs, s) for s in secs if not s["d"]]
    return len(set(ids)) == len(ids)


def message_of(rng, parts, incoming=True, wrap=True):
    """the text of a message with these identity fields: tag -> value or None; one of
    them may be the last field of the text"""
    ids = [(t, v) for t, v in parts.items() if t != "8" and v is not None]
    noise = [("34", "1"), ("52", "20221006-08:43:36.522"), ("115", "49=Z"), ("128", "56=Z"), ("145", "q"), ("129", "50=A")]
    hdr = ids + [x for x in noise if rng.random() < 0.5]
    rng.shuffle(hdr)
    body = [x for x in (("58", "x49=Q"), ("149", "Y"), ("150", "A"), ("256", "B"), ("1057", "B"), ("443", "A"), ("1142", "A"), ("354", "8=FIX.4.2"))
            if rng.random() < 0.4]
    trl = [("10", "000")] if rng.random() < 0.7 else []
    t = fg.text_of([("8", parts["8"]), ("9", "10"), ("35", "A")] + hdr + body + trl)
    return t[:-1] if rng.random() < 0.05 and len(t) > 1 else t


ODDBEGINS = [x for x in BADBEGINS if x] + ["X", "8", "=", "8=FIX.4.3", "\u00e9\u4e2d", "49=A", "FIX.4.3=", "F" * 300, "FIX.5.0SP2"]


def parts_for(rng, i, words):
    """identity fields of a message from the client of session i (our ids are its target),
    possibly with a change"""
    f = lambda o: o[0] if o else (rng.choice([None, None, ""]))
    p = {"8": i["begin"], "49": i["tgt"], "50": f(i["tsub"]), "142": f(i["tloc"]),
         "56": i["snd"], "57": f(i["ssub"]), "143": f(i["sloc"])}
    r = rng.random()
    if r < 0.35:
        k = rng.choice(list(p))
        p[k] = rng.choice(words if k in ("49", "56") else BEGINS + rng.sample(ODDBEGINS, 3) if k == "8" else words + [None, ""])
    elif r < 0.45:
        # nearly one of the ids
        k = rng.choice(list(p)[1:])
        v = p[k] or ""
        o = rng.choice([" ", "  ", "\t", "\u00a0", "\n", "\x00", "/", "-", "|", "=", "."])
        p[k] = rng.choice([o, v + o, o + v, v + o + v, v.lower(), v.upper(), v.swapcase(), v[:-1], v + v[-1:], v.replace("/", "//"), '"%s"' % v])
    elif r < 0.55:
        a, b = rng.choice([("49", "56"), ("50", "142"), ("57", "143"), ("50", "57")])
        p[a], p[b] = p[b], p[a]
        for k in ("49", "56"):
            p[k] = p[k] or "A"
    return p


def id_of(secs, s):
    b, ss, ssub, sloc, t, tsub, tloc = effective_id(secs, s)
    o = lambda x: [x] if x else []
    return {"begin": b, "snd": ss, "ssub": o(ssub), "sloc": o(sloc), "tgt": t, "tsub": o(tsub), "tloc": o(tloc)}


def asks(rng, secs, n, words):
    ids = [id_of(secs, s) for s in secs if not s["d"]]
    out = []
    for _ in range(n):
        i = dict(rng.choice(ids))
        if rng.random() < 0.7:
            out.append({"k": "text", "s": message_of(rng, parts_for(rng, i, words))})
        else:
            if rng.random() < 0.5:
                k = rng.choice(list(i))
                i[k] = rng.choice(BEGINS) if k == "begin" else rng.choice(words) if k in ("snd", "tgt") else rng.choice([[], [rng.choice(words)]])
            if rng.random() < 0.2:
                i["ssub"], i["sloc"] = i["sloc"], i["ssub"]
            out.append({"k": "id", "id": i})
    return out


# ------------------------------------------------------------------ enumeration
def kv(**k):
    return [[a, b] for a, b in k.items()]


def alphabet(prop):
    full = dict(begin_string="FIX.4.3", sender_comp_id="S", target_comp_id="T", socket_accept_port="1001")
    D, S = lambda **k: {"d": True, "kv": kv(**k)}, lambda **k: {"d": False, "kv": kv(**k)}
    but = lambda *ks, **m: dict({a: b for a, b in full.items() if a not in ks}, **m)
    host = dict(socket_connect_host="h", socket_connect_port="2002")
    if prop == "C12":
        return [D(connection_type="acceptor"), D(connection_type="acceptor", **full), D(connection_type="initiator", **full),
                D(connection_type="initiator", **but(**host)), D(**full), D(connection_type="Acceptor", **full),
                D(connection_type="acceptor", **but(socket_accept_port="65536")), D(connection_type="acceptor", **but(begin_string="FIX.4.1")),
                S(), S(**full), S(**but("begin_string", sender_comp_id="S1")), S(**but("sender_comp_id", target_comp_id="T1")),
                S(**but("target_comp_id", sender_comp_id="S2")), S(**but("socket_accept_port", sender_comp_id="S3")),
                S(**but(socket_accept_port="x", sender_comp_id="S4")), S(**but(begin_string="FIX.4.1", sender_comp_id="S5")),
                S(sender_comp_id="S6", begin_string="FIX.4.2"), S(sender_comp_id="S7", begin_string="FIX.4.4", socket_accept_port="65535"),
                S(sender_comp_id="S8", **host), S(sender_comp_id="S9", socket_connect_port="1"), S(sender_comp_id="S10", socket_connect_host="g"),
                S(sender_comp_id="S11", socket_connect_host="g", socket_connect_port="70000")]
    return [D(connection_type="acceptor", **full), D(connection_type="acceptor", sender_sub_id="DS", target_location_id="DL", x="d", **full),
            D(connection_type="initiator", x="d", **dict(full, **host)), D(connection_type="acceptor", sender_sub_id="", **but("sender_comp_id")),
            S(sender_comp_id="S1"), S(sender_comp_id="S1", sender_sub_id="P"), S(sender_comp_id="S1", sender_location_id="P"),
            S(sender_comp_id="S2", sender_sub_id="", x=""), S(target_comp_id="T2", sender_comp_id="S3", x="own", start_time="1"),
            S(sender_comp_id="S4", begin_string="FIX.4.4", socket_accept_port="1002", target_sub_id="U", target_location_id="V"),
            S(sender_comp_id="S5", connection_type="x", heartbeat_interval="30"), S(), S(x="S")]


def exhaustive(ck, prop):
    names = NAMES
    secs = alphabet(prop)
    p = core.write_json("smc.json", {"sections": secs, "maxsecs": ck.n(3, 4), "names": names})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT RefusesExactly\nINVARIANT NoLeak\nINVARIANT Emit\nPROPERTY FaultsStay\n"
    t = core.tlc("SettingsMC", cfg, env={"LOG": p}, timeout=800, heap="10g")
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    rng = ck.sub("layout")
    texts = [render(None if i % 2 else rng, [secs[k - 1] for k in c["s"]]) for i, c in enumerate(cases)]
    res = core.run_parallel(ck.binary, [{"op": "cfg", "text": x, "names": names, "ask": []} for x in texts])
    fine = 0
    key = lambda i: json.dumps(i, sort_keys=True)
    for c, x, r in zip(cases, texts, res):
        ok = c["why"] == ""
        fine += ok
        if prop == "C12":
            if r["r"] not in ("ok", "refused") or ok != (r["r"] == "ok"):
                ck.violation("an unusable configuration loads" if not ok else "a usable configuration is refused",
                             text=x, expected=c["why"] or "loads", got=r["r"], reason=r.get("m"), part="enumerated")
            continue
        if not ok or r["r"] != "ok":
            continue
        got = {key(ident(s["id"])): s for s in r["sessions"]}
        want = {key(s["id"]): s for s in c["sess"]}
        if set(got) != set(want):
            ck.violation("the sessions of the configuration are not the ones it states", text=x, expected=sorted(want), got=sorted(got), part="enumerated")
            continue
        for k, w in want.items():
            g = got[k]
            for a, b in (("own", "own"), ("own2", "own"), ("eff", "eff"), ("eff2", "eff")):
                if [opt(v) for v in g[a]] != w[b]:
                    ck.violation("a setting is read wrongly (%s)" % a, text=x, session=k, names=names, expected=w[b],
                                 got=[opt(v) for v in g[a]], part="enumerated")
        if [opt(v) for v in r["dflt"]] != c["dflt"]:
            ck.violation("a default is read wrongly", text=x, expected=c["dflt"], got=r["dflt"], part="enumerated")
    if not 0 < fine < len(cases):
        raise core.ToolError("SettingsMC is vacuous")
    ck.count("replayed_from_spec", len(cases))
    ck.count("usable", fine)


def identities(ck):
    """C10, enumerated: all combinations of identity fields"""
    o = [[], [""], ["A"], ["B"]]
    dom = {"8": [["FIX.4.3"], ["FIX.4.4"]], "49": [["A"], ["A/B"]], "50": o, "142": o, "56": [["A"], ["B"]],
           "57": o if ck.thorough else o[:3], "143": o if ck.thorough else o[:3]}
    p = core.write_json("imc.json", {"domains": dom})
    t = core.tlc("IdentityMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Twice\nINVARIANT Sides\nINVARIANT Emit\n", env={"LOG": p})
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    rng = ck.sub("idmc")
    # half of the identities are configured
    key = lambda i: json.dumps(i, sort_keys=True)
    ids = {}
    for c in cases:
        ids[key(c["inc"])] = c["inc"]
    conf = {k for k in ids if rng.random() < 0.5}
    text = "[Default]\nconnection_type=acceptor\nsocket_accept_port=1000\n"
    names = dict(zip(("begin", "snd", "ssub", "sloc", "tgt", "tsub", "tloc"), IDKEYS))
    for k in sorted(conf):
        text += "[Session]\n"
        for f, n in names.items():
            v = ids[k][f]
            v = v if isinstance(v, str) else (v[0] if v else None)
            if v is not None:
                text += "%s=%s\n" % (n, v)
    asked, texts = [], []
    for c in cases:
        fs = [(f["t"], f["v"]) for f in c["fs"]]
        rest = fs[1:]
        rng.shuffle(rest)
        texts.append(fg.text_of([fs[0], ("9", "1"), ("35", "A")] + rest + [("58", "49=A"), ("10", "1")]))
        asked.append({"raw": hx(texts[-1])})
    shards = 8
    parts = [range(i, len(cases), shards) for i in range(shards)]
    res = core.run_parallel(ck.binary, [{"op": "cfg", "text": text, "names": [], "ask": [asked[j] for j in pt]} for pt in parts]
                            + [{"op": "sid", "b": hx(x)} for x in texts])
    for pt, r in zip(parts, res):
        if r["r"] != "ok":
            ck.violation("a configuration of distinct sessions is refused", got=r, part="enumerated")
            continue
        sess = [key(ident(s["id"])) for s in r["sessions"]]
        if set(sess) != conf:
            ck.violation("the sessions of the configuration are not the ones it states", missing=sorted(conf - set(sess))[:3],
                         extra=sorted(set(sess) - conf)[:3], part="enumerated")
        for j, f in zip(pt, r["found"]):
            k = key(cases[j]["inc"])
            want = sess.index(k) if k in sess else -1
            if f[0] != want or f[1] != want:
                ck.violation("a message is not attributed to its session", text=texts[j].replace(SOH, "|"), expected=k if want >= 0 else None,
                             by_map=sess[f[0]] if f[0] >= 0 else None, by_equality=sess[f[1]] if f[1] >= 0 else None, part="enumerated")
    for c, x, r in zip(cases, texts, res[shards:]):
        if r["r"] != "ok" or ident(r["fwd"]) != c["out"] or ident(r["rev"]) != c["inc"]:
            ck.violation("the identity of a message is wrong", text=x.replace(SOH, "|"), expected=[c["out"], c["inc"]], got=r, part="enumerated")
    ck.count("replayed_from_spec", len(cases))
    ck.count("configured_identities", len(conf))


def run(ck, prop):
    rng = ck.sub("cfg")
    if prop == "C10":
        identities(ck)
    else:
        exhaustive(ck, prop)
    cases = []
    n = ck.n({"C10": 500, "C11": 1500, "C12": 2500}[prop], {"C10": 5000, "C11": 12000, "C12": 20000}[prop])
    while len(cases) < n:
        secs = rand_config(rng, prop, 9 if prop == "C10" else 5)
        words = C10WORDS + [v for s in secs for k, v in s["kv"] if k.endswith("_id") and len(v) > 12][:6]
        if not distinct(secs):
            continue
        ask, texts = [], []
        if prop == "C10":
            if len(secs) < 2:
                continue
            ask = asks(rng, secs, 12, words)
            texts = [a["s"] for a in ask if a["k"] == "text"][:6]
        cases.append((secs, render(rng, secs), ask, texts))
    validate(ck, prop, cases, NAMES + MORE if prop == "C11" else [])
    ck.sample({"config": cases[0][1]})
    ck.assumptions.append("sessions of one configuration have distinct identities; comp ids are not empty; no key twice in a section")
    return "model_checking"
