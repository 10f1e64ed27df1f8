"""C17-C21: the acceptor under load, with logs judged by the observer of the specification."""
import hashlib, json, os, random, resource, time
from . import core, fixgen
from .fixgen import F, G, SOH, SPECIAL

KEYS = [("ssub", "sender_sub_id", "57"), ("sloc", "sender_location_id", "143"),
        ("tsub", "target_sub_id", "50"), ("tloc", "target_location_id", "142")]


# ------------------------------------------------------------- dictionaries
def layout(rng):
    hdr = [F(t) for t in (8, 9, 35, 49, 56, 50, 142, 57, 143)]
    extra = [F(34), F(52), G(627, F(628), F(629))] + [F(int(t)) for t in SPECIAL if t not in ("34", "52")]
    rng.shuffle(extra)
    hdr += extra[:rng.randint(0, 3) if rng.random() < 0.5 else len(extra)]
    used = {int(t) for t in list(fixgen.tags_of(hdr)) + list(SPECIAL)} | {8, 9, 10, 89, 93, 11, 1, 58, 110, 210, 627, 628, 629}
    pool = [t for t in rng.sample(range(2, 900), 60) + [1010, 3510, 4910, 100010] if t not in used]
    trl = [F(93), F(89), F(10)]
    msgs = {}
    for mt in rng.sample(["D", "A", "8", "AE", "W", "0", "1", "2", "3", "4", "5", "j"], rng.randint(1, 4)):
        p = pool[:]
        rng.shuffle(p)
        its = [F(11), F(1), F(58), F(110), F(210)] + fixgen.random_items(rng, p, 2, rng.randint(0, 6))
        rng.shuffle(its)
        msgs[mt] = its
    return {"hdr": hdr, "trl": trl, "msgs": msgs}


PLAIN = {"hdr": [F(t) for t in (8, 9, 35, 49, 56, 50, 142, 57, 143)], "trl": [F(93), F(89), F(10)],
         "msgs": {"D": [F(11), F(1), F(58), G(73, F(79), F(80), G(78, F(81), F(82)))]}}


def dict_file(lay):
    x = fixgen.render(lay)
    h = hashlib.sha1(x.encode()).hexdigest()
    # whatever a dictionary is called
    name = ["%s/FIX43.xml", "dict-%s.xml", "d-%s", "%s/FIX43.xml", "my dict %s.xml", "\u00e4-%s.XML", "%s/FIX43.xml", "FIX.%s", "x" * 120 + "/%s/" + "y" * 90 + ".xml", "../%s.txt"][int(h[-4:], 16) % 10]
    p = os.path.join(core.scratch(), "dicts", name % h[:12])
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p + ".new", "w") as f:
            f.write(x)
        os.rename(p + ".new", p)
    return p


# ----------------------------------------------------------------- messages
def value(rng):
    r = rng.random()
    if r < 0.3:
        return fixgen.value(rng)
    if r < 0.5:
        return rng.choice(["10=", "10=000", "x10=1", "8=FIX.4.3", "9=0", "=", "==", "35=D", "49=C0", "\u20ac10=", "110=5", "10", "\n10=", "\r\n", "\x00", "\x02"])
    return "".join(rng.choice("abc=10|;:/ \u00e9\u4e2d\U0001f600") for _ in range(rng.randint(1, 12)))


def tree_item(rng, it, depth=0):
    if "g" not in it:
        if it["t"] in SPECIAL and rng.random() < 0.8:
            return (it["t"], rng.choice(SPECIAL[it["t"]]), None)
        return (it["t"], value(rng), None)
    insts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth < 2 else rng.choice([0, 1])):
        insts.append([tree_item(rng, x, depth + 1) for k, x in enumerate(it["g"]) if k == 0 or rng.random() < 0.6])
    return (it["t"], str(len(insts)), insts)


def flat(nodes):
    out = []
    for t, v, insts in nodes:
        out.append("%s=%s%s" % (t, v, SOH))
        for i in insts or []:
            out += flat(i)
    return out


def canon(nodes):
    def one(n):
        t, v, insts = n
        s = "%s=%s" % (t, v)
        return s if insts is None else s + "[" + "|".join(canon(i) for i in insts) + "]"
    return "{" + SOH.join(sorted(one(n) for n in nodes)) + "}"


def digest(s):
    return hashlib.sha1(s.encode() if isinstance(s, str) else s).hexdigest()[:16]


class Sess:
    def __init__(self, i, port, rng=None, lay=None):
        self.i, self.port, self.lay = i, port, lay
        self.sid = {"begin": "FIX.4.3", "snd": "SRV", "tgt": "C%d" % i}
        if rng is not None:
            if rng.random() < 0.3:
                self.sid["snd"] = "SRV%d" % rng.randint(0, 1)
            if rng.random() < 0.2:
                self.sid["begin"] = "FIX.4.4"
            for k, _, _ in KEYS:
                if rng.random() < 0.2:
                    self.sid[k] = "%s%d" % (k, rng.randint(0, 1))

    def head(self):
        """the fields that identify the session in messages of its client"""
        s = self.sid
        r = [("49", s["tgt"], None), ("56", s["snd"], None)]
        return r + [(tag, s[k], None) for k, _, tag in KEYS if k in s]

    def section(self, dictionary):
        s = self.sid
        r = ["[Session]", "begin_string=" + s["begin"], "sender_comp_id=" + s["snd"], "target_comp_id=" + s["tgt"],
             "socket_accept_port=%%P%d%%" % self.port]
        r += ["%s=%s" % (key, s[k]) for k, key, _ in KEYS if k in s]
        if dictionary:
            r.append("data_dictionary=" + dictionary)
        return r


def assemble(begin, mt, head, body, trl):
    """puts BodyLength and CheckSum in; returns text and expected content"""
    rest = "35=%s%s" % (mt, SOH) + "".join(flat(head + body + trl))
    n = str(len(rest.encode()))
    text = "8=%s%s9=%s%s" % (begin, SOH, n, SOH) + rest
    ck = "%03d" % (sum(text.encode()) % 256)
    hdr = [("8", begin, None), ("9", n, None), ("35", mt, None)] + head
    return text + "10=%s%s" % (ck, SOH), canon(hdr) + canon(body) + canon(trl + [("10", ck, None)])


class Episode:
    def __init__(self, rng, sessions, nports, threads, workers=2, patience=15000):
        self.rng, self.sessions, self.nports = rng, sessions, nports
        self.threads = [[] for _ in range(threads)]
        self.workers, self.patience = workers, patience
        self.ms, self.nm, self.nc, self.bars = {}, 0, 0, 0
        self.pending = []      # messages that must be delivered and were not waited for yet
        self.busy, self.nofile = [], None
        self.marks = 0
        self.bound = 1 << 30   # nothing may be lost: never more than 32 messages of a port are outstanding
        self.note = ""
        self.extra = random.Random(rng.random())
        self._cfg = None

    def cfg(self):
        if self._cfg is None:
            self._cfg = self.make_cfg()
        return self._cfg

    def make_cfg(self):
        out = ["[Default]", "connection_type=acceptor"]
        # settings that sessions may leave to the default section, and some that have nothing to do with it
        self.common = {}
        s0 = self.sessions[0]
        if s0.lay is not None:
            for k, v in [("socket_accept_port", "%%P%d%%" % s0.port), ("begin_string", s0.sid["begin"]), ("sender_comp_id", s0.sid["snd"])]:
                if self.extra.random() < 0.4:
                    self.common[k] = v
            out += ["%s=%s" % kv for kv in self.common.items()]
            out += self.odds()
        lays = [s.lay for s in self.sessions]
        common = dict_file(lays[0] or PLAIN)
        out.append("data_dictionary=" + common)
        for s in self.sessions:
            own = dict_file(s.lay) if s.lay and s.lay is not lays[0] else None
            sec = s.section(own)
            if s.lay is not None:
                sec = sec[:1] + [x for x in sec[1:] if not (self.common.get(x.split("=")[0]) == x.split("=")[1] and self.extra.random() < 0.8)] + self.odds()
            out += sec
        return "\n".join(out) + "\n"

    def odds(self):
        r = self.extra
        return [x for x in ("heartbeat_interval=%d" % r.choice([0, 1, 2, 30]), "reset_on_logon=" + r.choice(["true", "false"]),
                            "reset_on_logout=false", "reset_on_disconnect=false", "start_time=00:00:00\nend_time=00:00:01",
                            "data_dictionary_unused=x") if r.random() < 0.15]

    def sleeps(self):
        return sum(st["us"] for t in self.threads for st in t if st["o"] == "sleep")

    def command(self):
        d = {"op": "episode", "cfg": self.cfg(), "ports": self.nports, "workers": self.workers, "busy": self.busy,
             "sids": [s.sid for s in self.sessions], "threads": self.threads, "bars": self.bars,
             "patience": self.patience, "_stall": 120 + self.sleeps() // 1000000}
        if self.nofile is not None:
            d["nofile"] = self.nofile
        return d

    # ---- steps
    def conn(self, th, s, mute=False, late=False):
        self.nc += 1
        self.threads[th].append({"o": "connect", "c": self.nc, "p": self.sessions[s].port, "s": s, "mute": mute, "late": late})
        return self.nc

    def mid(self):
        self.nm += 1
        return "m%d" % self.nm

    def message(self, s, cmd="", size=None, rich=True):
        """a well-formed message for session s: (id, bytes)"""
        rng, se = self.rng, self.sessions[s]
        lay = se.lay or self.sessions[0].lay or PLAIN
        mid = self.mid()
        mt = rng.choice(sorted(lay["msgs"]))
        body = []
        for it in lay["msgs"][mt]:
            if it["t"] == "11":
                body.append(("11", mid, None))
            elif it["t"] == "1":
                if cmd:
                    body.append(("1", cmd, None))
            elif it["t"] == "58" and size:
                body.append(("58", (value(rng) * (1 + size // 2))[:size] or "v", None))
            elif rich and rng.random() < 0.4:
                body.append(tree_item(rng, it))
        rng.shuffle(body)
        head = se.head()
        if rich:
            for it in lay["hdr"][9:]:
                if rng.random() < 0.5:
                    head.append(tree_item(rng, it))
            rng.shuffle(head)
        trl = [("93", "4", None), ("89", value(rng), None)] if rich and rng.random() < 0.3 else []
        text, want = assemble(se.sid["begin"], mt, head, body, trl)
        self.ms[mid] = {"s": s, "x": digest(want)}
        self.pending.append(mid)
        return mid, text.encode()

    def bad(self, s, kind=None, big=True):
        """a message that must not be delivered: (id, bytes)"""
        rng, se = self.rng, self.sessions[s]
        mid = self.mid()
        kind = kind or rng.choice(["unknown"] + BAD)
        head = [("49", se.sid["tgt"], None), ("56", se.sid["snd"], None)] + se.head()[2:]
        body = [("11", mid, None), ("1", "R1", None)]
        if big and rng.random() < 0.06:
            # also big ones
            body.append(("58", value(rng)[:1] * rng.choice([300, 5000, 70000, 140000, 300000]), None))
        begin, mt = se.sid["begin"], sorted((se.lay or self.sessions[0].lay or PLAIN)["msgs"])[0]
        text, _ = assemble(begin, mt, head, body, [])
        fl = text.split(SOH)[:-1]
        if kind == "unknown":
            other = rng.choice(["C99", se.sid["tgt"] + "X", se.sid["tgt"].swapcase(), " ", se.sid["snd"]])
            text, _ = assemble(begin, mt, [("49", other, None)] + head[1:], body, [])
        elif kind == "stranger":
            text, _ = assemble(begin, mt, [("49", "stranger" + mid, None)] + head[1:], body, [])
        elif kind == "swapped":
            text, _ = assemble(begin, mt, [("56", se.sid["tgt"], None), ("49", se.sid["snd"], None)] + head[2:], body, [])
        elif kind == "noid":
            text, _ = assemble(begin, mt, head[1:], body, [])
        else:
            i = rng.randrange(3, len(fl) - 1)
            if kind in ("noeq", "utf8"):
                fl[i] = fl[i].replace("=", "")
            elif kind == "tag":
                fl[i] = "x" + fl[i]
            elif kind == "noval":
                fl[-2] = fl[-2].split("=")[0] + "="
            elif kind == "count":
                fl.insert(len(fl) - 1, None)
            elif kind == "order":
                fl[1], fl[2] = fl[2], fl[1]
            elif kind == "dup":
                fl.insert(len(fl) - 1, fl[-2])
            elif kind == "short":
                fl = [fl[-1]]
            elif kind == "junk":
                fl = ["".join(rng.choice("ab=1\u20ac") for _ in range(rng.randint(1, 9))), fl[-1]]
            elif kind == "trailer":
                fl.insert(i, "89=sig")
            elif kind == "glued":
                # the beginning of a message, and a whole one after it
                fl = fl[:rng.randint(1, len(fl) - 1)] + fl
            elif kind == "prefixed":
                fl[0] = rng.choice(["\n", "\r\n", " ", "x", "8=", "\u20ac", "\0", "FIX"]) + fl[0]
            if None in fl:
                # a group whose count is wrong, if the dictionary has one
                lay = se.lay or self.sessions[0].lay or PLAIN
                gs = [it for it in lay["msgs"][mt] if "g" in it]
                k = fl.index(None)
                fl[k:k + 1] = ["%s=%s" % (gs[0]["t"], rng.choice(["2", "x", "-1", "99999999999", "4294967295"]))] if gs else ["11"]
            text = SOH.join(fl) + SOH
        self.ms[mid] = {"s": -1, "x": ""}
        b = text.encode()
        if kind == "utf8":
            j = b.index(fl[i].encode()) + rng.randint(0, len(fl[i].encode()))
            b = b[:j] + rng.choice([b"\xff", b"\xc3", b"\xe4\xb8", b"\x80\x80"]) + b[j:]
        return mid, b

    def send(self, th, c, msgs, cuts=None, gap=None, mayfail=False, extra=b""):
        """writes the messages, split as told or at random"""
        rng = self.rng
        b = b"".join(m[1] for m in msgs) + extra
        if cuts is None:
            r = rng.random()
            if r < 0.35 or len(b) < 3:
                cuts = []
            elif r < 0.5:
                cuts = sorted({i for i, x in enumerate(b) if x == 1 and rng.random() < 0.5} - {0})
            elif r < 0.6:
                cuts = sorted({j for i in range(len(b)) if b[i:i + 4] == b"\x0110=" for j in (i + rng.randint(0, 4),) if 0 < j < len(b)})
            else:
                cuts = sorted({rng.randint(1, len(b) - 1) for _ in range(rng.choice([1, 2, 3, 8]))})
            cuts = cuts[:40]
        self.threads[th].append({"o": "send", "c": c, "b": b.hex(), "ms": [m[0] for m in msgs], "cuts": cuts,
                                 "gap": rng.choice([0, 0, 50, 300]) if gap is None else gap, "mayfail": mayfail})

    def close(self, th, c, how="close"):
        self.threads[th].append({"o": "shut", "c": c} if how == "shut" else {"o": "close", "c": c, "rst": how == "rst"})

    def step(self, th, **kw):
        self.threads[th].append(kw)

    def bar(self):
        for t in self.threads:
            t.append({"o": "bar", "k": self.bars})
        self.bars += 1

    def arrive(self, th=0):
        """waits until everything that must be delivered is"""
        self.step(th, o="delivered", ms=self.pending)
        self.pending = []

    def settle(self, c0=None, conns=(), sess=None):
        """everything sent is delivered; then a marker goes to the sessions and everybody waits for it.
        conns: (thread, connection, session)"""
        self.bar()
        self.arrive()
        if c0 is not None:
            self.marks += 1
            want = sorted({s for _, _, s in conns} if sess is None else sess)
            self.send(0, c0[0], [self.message(c0[1], ";".join("M%d:%d" % (s, self.marks) for s in want), rich=False)], cuts=[])
            self.arrive()
        self.bar()
        if c0 is not None:
            for th, c, s in conns:
                self.step(th, o="recv", c=c, tok="58=end%ds%d." % (self.marks, s), n=1)
        self.bar()


# ------------------------------------------------------------------ judging
def entry(ep, resp):
    """what the observer gets: contents are replaced by digests"""
    evs = []
    for e in resp["ev"]:
        if e["e"] in ("Timeout", "Harness"):
            continue
        e = dict(e)
        if "x" in e:
            e["x"] = digest(e["x"])
        if e["e"] == "SendErr":
            e = {"e": "Eof", "c": e["c"]}
        e.pop("rest", None)
        if e["e"] == "Refused":
            e.pop("m", None)
        evs.append(e)
    return {"ev": evs, "ms": ep.ms, "ps": [s.port for s in ep.sessions], "bound": ep.bound}


SLOW = 20          # episodes in which somebody waited in vain, before no more are run


def run_episodes(ck, eps, shards=core.CORES):
    """Runs the episodes. When many had waits in vain, or the time is over, the rest is skipped:
    in a service that works nobody waits in vain."""
    slow = []
    budget = 2400 if ck.thorough else 420

    def stop(new):
        slow.extend(1 for x in new if b'"e":"Timeout"' in x)
        return len(slow) >= SLOW or time.time() - ck.t0 > budget
    cmds = [e.command() for e in eps]
    shards = min(shards, len(cmds))
    parts = [cmds[i::shards] for i in range(shards)]
    res = [None] * len(cmds)
    from concurrent.futures import ThreadPoolExecutor
    core.scratch()
    with ThreadPoolExecutor(shards) as ex:
        fs = [ex.submit(core.run_driver, ck.binary, p, tag="e%d" % i, stall=120, mem=8 << 30, stop=stop) for i, p in enumerate(parts)]
        for i, f in enumerate(fs):
            res[i::shards] = f.result()
    skipped = sum(r["r"] == "skipped" for r in res)
    if skipped:
        ck.count("episodes_skipped", skipped)
        print("note: %d of %d episodes were skipped, in %d somebody waited in vain" % (skipped, len(eps), len(slow)))
    return res


CFG = "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n"


def judge(ck, prop, eps, resps):
    """for every episode: (kinds of violations, those of the property, deviations, list)"""
    out, log, at = [None] * len(eps), [], []
    for i, (ep, r) in enumerate(zip(eps, resps)):
        if r["r"] in ("crash", "hang", "panic"):
            out[i] = {"viol": [["driver " + r["r"], 0]], "mine": ["driver " + r["r"]], "dev": [], "nd": 0, "nr": 0}
        elif r["r"] == "skipped":
            out[i] = {"viol": [], "mine": [], "dev": [], "nd": 0, "nr": 0}
        elif r["r"] == "refused":
            out[i] = {"viol": [["not started", 0]], "mine": ["not started"], "dev": [], "nd": 0, "nr": 0}
        else:
            at.append(i)
            log.append(entry(ep, r))
    # in portions, so that the observer's states stay small
    for k in range(0, len(log), 200):
        p = core.write_json("service-%d.json" % k, {"log": log[k:k + 200], "prop": prop})
        t = core.tlc("ServiceTrace", CFG, env={"LOG": p}, timeout=800)
        os.unlink(p)
        ck.states(t)
        ck.count("trace_events", sum(len(e["ev"]) for e in log[k:k + 200]))
        for x in t.tagged("D"):
            n, nd, nr, dev = x.split(", ", 3)
            out[at[k + int(n) - 1]] = {"viol": [], "mine": [], "dev": json.loads(json.loads(dev)), "nd": int(nd), "nr": int(nr)}
        for x in t.tagged("X"):
            d = json.loads(json.loads(x))
            out[at[k + d["n"] - 1]] = {"viol": d["viol"], "mine": d["mine"], "dev": d["dev"], "nd": 0, "nr": 0}
    for o in out:
        if o is None:
            raise core.ToolError("ServiceTrace did not report every episode")
    return out


def around(resp, viol, n=12):
    ev = resp.get("ev", [])
    ks = sorted(v[1] for v in viol)
    k = ks[0] if ks else 0
    return [dict(e, x=str(e["x"])[:40]) if "x" in e else e for e in ev[max(0, k - n):k + 3]]


def episodes(ck, prop, name, eps, dev_ok=(), kinds=None):
    """runs and judges; violations of the property are reported"""
    resps = run_episodes(ck, eps)
    got = judge(ck, prop, eps, resps)
    ck.count("episodes", len(eps))
    for ep, r, g in zip(eps, resps, got):
        ck.count("delivered", g["nd"])
        ck.count("received", g["nr"])
        for d in g["dev"]:
            ck.count("deviation " + d, 1)
        if g["mine"]:
            ck.violation("%s: %s" % (name, ", ".join(sorted(set(g["mine"])))), note=ep.note, events=around(r, g["viol"]),
                         all=[v[0] for v in g["viol"]], episode=ep.command() if len(json.dumps(ep.command())) < 20000 else None)
    return got, resps


# -------------------------------------------------------------------- C17
def sessions_of(rng, n, nports, rich=True):
    lays = [layout(rng) for _ in range(rng.randint(1, n))] if rich else [None]
    out = []
    while len(out) < n:
        s = Sess(len(out), rng.randrange(nports) if len(out) >= nports else len(out), rng if rich else None, rng.choice(lays))
        if rich and out and rng.random() < 0.35:
            # differs from another session only a little
            s.sid = dict(rng.choice(out).sid)
            k = rng.choice(["begin", "snd", "tgt"] + 3 * [k for k, _, _ in KEYS])
            if k in s.sid and k in [x for x, _, _ in KEYS] and rng.random() < 0.5:
                del s.sid[k]
            else:
                s.sid[k] = rng.choice(["FIX.4.2", "FIX.4.3", "FIX.4.4"]) if k == "begin" else "%s%d" % (k, rng.randint(0, 2))
        if all(s.sid != o.sid for o in out):
            out.append(s)
    return out


def deliveries(rng, big=False):
    nports = rng.randint(1, 3)
    ss = sessions_of(rng, rng.randint(nports, nports + 2), nports)
    nth = rng.randint(1, 5)
    ep = Episode(rng, ss, nports, nth, workers=rng.choice([1, 2, 4]))
    conns = []
    for th in range(nth):
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.randrange(len(ss))
            conns.append((th, ep.conn(th, s), s))
    if rng.random() < 0.5:
        ep.bar()
    mode = rng.choice(["burst", "mixed", "mixed", "slow"])
    for th, c, s in conns:
        for _ in range(rng.randint(1, 3)):
            k = rng.choice([70, 100, 130]) if mode == "burst" and rng.random() < 0.5 else rng.randint(1, 8)
            msgs = []
            for _ in range(k):
                # a client may also write messages of another session
                s2 = s if rng.random() < 0.9 else rng.randrange(len(ss))
                size = rng.choice([None, None, None, 900, 5000, 100000 if k < 4 else 2000])
                cmd = "W%d" % rng.randint(1, 15) if mode == "slow" and rng.random() < 0.3 else ""
                msgs.append(ep.message(s2, cmd, size=size))
            if rng.random() < 0.3:
                # a client may write the same message again, at once or later
                for _ in range(rng.choice([1, 1, 2, 5])):
                    j = rng.randrange(len(msgs))
                    again = msgs[j]
                    ep.pending.append(again[0])
                    msgs.insert(j if rng.random() < 0.6 else rng.randint(j, len(msgs)), again)
            if mode == "slow" and len(msgs) > 1 and rng.random() < 0.5:
                for m in msgs:
                    ep.send(th, c, [m])
            else:
                ep.send(th, c, msgs)
        if rng.random() < 0.3:
            ep.close(th, c, "shut")
    ep.settle()
    for th, c, s in conns:
        if rng.random() < 0.5 and not any(st["o"] == "shut" and st.get("c") == c for st in ep.threads[th]):
            ep.send(th, c, [ep.message(s)])
    ep.settle()
    ep.note = "deliveries " + mode
    return ep


def giants(rng, most=None):
    """single messages of megabytes, with ordinary ones around them"""
    ss = sessions_of(rng, 2, rng.randint(1, 2))
    ep = Episode(rng, ss, 2, 2, workers=rng.choice([1, 2]))
    for th in range(2):
        s = rng.randrange(2)
        c = ep.conn(th, s)
        sizes = [1050000, most or rng.choice([2100000, 3000000, 4200000])] if th == 0 else [rng.choice([270000, 530000])]
        for size in sizes:
            msgs = [ep.message(s) for _ in range(rng.randint(0, 2))] + [ep.message(s, size=size)] + [ep.message(s) for _ in range(rng.randint(0, 2))]
            ep.send(th, c, msgs, cuts=[] if rng.random() < 0.5 else [rng.randint(1, size)])
    ep.settle()
    ep.note = "giants"
    return ep


def pauses(rng, us=None):
    """clients that take their time, also in the middle of a message"""
    ss = sessions_of(rng, 2, rng.randint(1, 2))
    ep = Episode(rng, ss, 2, 2, workers=rng.choice([1, 2]))
    us = us or rng.choice([100000, 300000, 600000, 1100000])
    for th in range(2):
        s = rng.randrange(2)
        c = ep.conn(th, s)
        if rng.random() < 0.5:
            ep.step(th, o="sleep", us=us)
        for _ in range(2):
            msgs = [ep.message(s) for _ in range(rng.randint(1, 3))]
            n = sum(len(m[1]) for m in msgs)
            r = rng.random()
            if r < 0.3:
                ep.send(th, c, msgs, cuts=[])
                ep.step(th, o="sleep", us=us)
            else:
                ep.send(th, c, msgs, cuts=[rng.randint(1, n - 1)], gap=us)
    ep.settle()
    ep.note = "pauses of %d us" % us
    return ep


def idle(rng, how="deliver", skips=(59, 61, 3600, 90000, 700000, 30000000)):
    """clients that are silent for a long time, while others are not"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, rng.randint(nports, 3), nports, rich=rng.random() < 0.5)
    ep = Episode(rng, ss, nports, 2, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    conns = [(1, ep.conn(1, s), s) for s in [rng.randrange(len(ss)) for _ in range(rng.randint(2, 5))]]
    untouched = rng.random() < 0.5
    for th, c, s in conns:
        if not untouched or rng.random() < 0.5:
            ep.send(th, c, [ep.message(s)])
    parts = {}
    for _ in range(rng.randint(1, 3)):
        ep.settle(c0, [(0, c0[0], 0)])
        for th, c, s in conns:
            # a message interrupted by the silence
            if rng.random() < 0.3 and c not in parts:
                m = ep.message(s)
                ep.pending.remove(m[0])
                i = rng.randint(1, len(m[1]) - 1)
                parts[c] = (m[0], m[1][i:])
                ep.threads[th].append({"o": "send", "c": c, "b": m[1][:i].hex(), "ms": [m[0]], "cuts": [], "gap": 0, "mayfail": False})
        ep.bar()
        ep.step(0, o="skip", s=rng.choice(skips))
        ep.bar()
        # others go on, and so the server notices what time it is
        for _ in range(3):
            ep.send(0, c0[0], [ep.message(0)])
            ep.arrive(0)
            ep.step(0, o="sleep", us=3000)
        ep.bar()
        for th, c, s in conns:
            if c in parts and rng.random() < 0.7:
                mid, rest = parts.pop(c)
                ep.threads[th].append({"o": "send", "c": c, "b": rest.hex(), "ms": [], "cuts": [], "gap": 0, "mayfail": False})
                ep.pending.append(mid)
        if how == "reply":
            for s in range(len(ss)):
                ep.send(0, c0[0], [ep.message(0, "F%d:2" % s)])
        ep.settle(c0, [(0, c0[0], 0)])
    for th, c, s in conns:
        if c in parts:
            mid, rest = parts.pop(c)
            ep.threads[th].append({"o": "send", "c": c, "b": rest.hex(), "ms": [], "cuts": [], "gap": 0, "mayfail": False})
            ep.pending.append(mid)
        ep.send(th, c, [ep.message(s, "R1")])
    # and new clients are welcome
    new = []
    for s in range(len(ss)):
        new.append((1, ep.conn(1, s), s))
        ep.send(1, new[-1][1], [ep.message(s, "R1")])
    ep.settle(c0, [(0, c0[0], 0)])
    ep.settle(c0, [(0, c0[0], 0)] + conns + new)
    ep.note = "silence"
    return ep


def endurance(rng, n, how="deliver"):
    """one connection on which very much happens, little at a time"""
    ss = sessions_of(rng, 2, rng.randint(1, 2), rich=False)
    ep = Episode(rng, ss, 2, 1, workers=rng.choice([1, 2]))
    c0 = (ep.conn(0, 0), 0)
    ep.send(0, c0[0], [ep.message(0)])
    ep.settle()
    while ep.nm < n:
        if how == "deliver":
            ep.send(0, c0[0], [ep.message(0, rich=False) for _ in range(rng.choice([1, 10, 60]))], cuts=[])
            if rng.random() < 0.1:
                ep.arrive()
        else:
            m = ep.message(0, "R%d;A1" % rng.choice([8, 20, 28]), rich=False)
            ep.send(0, c0[0], [m], cuts=[])
            ep.step(0, o="recv", c=c0[0], tok="58=re%s." % m[0], n=1)
    ep.settle(c0, [(0, c0[0], 0)])
    ep.note = "endurance %s %d" % (how, n)
    return ep


def held(rng):
    """the application takes its time while many more messages arrive"""
    nports = rng.randint(1, 3)
    ss = sessions_of(rng, rng.randint(nports, nports + 1), nports, rich=False)
    ep = Episode(rng, ss, nports, 2, workers=rng.choice([2, 4]))
    conns = [(1, ep.conn(1, s), s) for s in [rng.randrange(len(ss)) for _ in range(rng.choice([1, 2, 4]))]]
    c0 = (ep.conn(0, 0), 0)
    ep.settle()
    for _ in range(rng.randint(1, 2)):
        # more than the queues between the tasks can hold
        for th, c, s in conns:
            first = [ep.message(s, "W%d" % rng.choice([900, 1500]))]
            ep.send(th, c, first + [ep.message(s, rich=False) for _ in range(rng.choice([20, 70, 150, 300]))], cuts=[])
        ep.step(1, o="sleep", us=100000)
        ep.bar()
        if rng.random() < 0.7:
            ep.step(0, o="skip", s=rng.choice([1, 2, 11, 31, 61, 3600, 90000]))
        for _ in range(8):
            # something for the server to wake up for
            ep.send(0, c0[0], [ep.message(0)], cuts=[])
            ep.step(0, o="sleep", us=20000)
        ep.settle()
    ep.settle(c0, [(0, c0[0], 0)])
    ep.note = "held application"
    return ep


def same(rng):
    """the application sends the very same message again and again"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, rng.randint(nports, 3), nports, rich=False)
    ep = Episode(rng, ss, nports, 1, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    conns = [(0, ep.conn(0, s), s) for s in [rng.randrange(len(ss)) for _ in range(rng.randint(1, 3))]]
    for th, c, s in conns:
        ep.send(th, c, [ep.message(s)])
    ep.settle(c0, [(0, c0[0], 0)] + conns)
    for _ in range(rng.randint(1, 4)):
        left = [24] * nports
        for _ in range(rng.randint(1, 6)):
            th, c, s = rng.choice(conns)
            n = rng.choice([1, 2, 2, 3, 7])
            if left[ss[s].port] >= n + 1:
                left[ss[s].port] -= n + 1
                ep.send(th, c, [ep.message(s, rng.choice(["S%d:%d", "S%d:%d", "S%d:%d;R1"]) % (n, rng.randint(0, 2)))])
        ep.settle(c0, [(0, c0[0], 0)] + conns)
    ep.note = "same message"
    return ep


def wide(rng, how="deliver"):
    """very many sessions on many ports"""
    nports = rng.randint(5, 16)
    ss = sessions_of(rng, rng.randint(nports, 40), nports, rich=rng.random() < 0.3)
    ep = Episode(rng, ss, nports, 2, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    conns = [(rng.randrange(2), s) for s in range(len(ss))]
    rng.shuffle(conns)
    conns = [(th, ep.conn(th, s), s) for th, s in conns]
    for th, c, s in conns:
        ep.send(th, c, [ep.message(s)])
    ep.settle()
    if how == "reply":
        load = [0] * nports
        for th, c, s in conns:
            if load[ss[s].port] < 20:
                load[ss[s].port] += 2
                ep.send(th, c, [ep.message(s, rng.choice(["R1", "A1", "R2", "F%d:1" % s]))])
        ep.settle()
        ep.settle(c0, [(0, c0[0], 0)] + rng.sample(conns, min(20, len(conns))))
    else:
        for th, c, s in conns:
            ep.send(th, c, [ep.message(rng.randrange(len(ss))) for _ in range(rng.randint(1, 4))])
        ep.settle()
    ep.note = "%d sessions on %d ports" % (len(ss), nports)
    return ep


# ------------------------------------------------- scripts of the specification
SCRIPTS = """CONSTANTS
Sess = {0, 1, 2}
Depth = %d
Kinds = {%s}
Ways = {%s}
AppSends = {%s}
MaxConns = %d
Msgs <- Kinds
Siblings = FALSE
PortOf <- POf
Conns <- ConnSet
Mine <- MineOf
INIT SInit
NEXT SNext
CHECK_DEADLOCK FALSE
INVARIANT Emit InOrder Separate
PROPERTY Allowed
"""


# ------------------------------------------- the specifications themselves
SERVICE = """CONSTANTS
Sess = {0, 1}
Conns = {1, 2}
MaxSend = %d
MaxOut = %d
Siblings = %s
PortOf <- POf
Mine <- MineOf
Msgs <- MsgIds
Layout = "%s"
SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
VIEW ViewNoEv
INVARIANT InOrder Separate Quiet QuietEnd Sharp
"""
ACCEPTOR = """CONSTANTS
Sess = {0, 1}
Conns = {1, 2}
QCap = 1
Cap = %d
MaxSend = %d
MaxConn = 2
PortOf <- POf
Mine <- MineOf
Replies <- RepliesOf
SessOf <- SessOfMsg
MsgSet <- MsgIds
Layout = "%s"
Bugs = {%s}
%s
CHECK_DEADLOCK FALSE
"""
SAFE = "INIT MCInit\nNEXT MCNext\nVIEW ViewNoEv\nINVARIANT Quiet QuietEnd NoSpin NotLagging NoLinger\nPROPERTY Refines"
LIVE = "SPECIFICATION Fair\nPROPERTY Settles"
LAYOUTS = ["two ports", "one port", "same session"]
# defects of the model that must be rejected: (flag, layout, messages per connection, temporal)
DEFECTS = {"C17": [("share", "two ports", 1, False), ("drop", "same session", 1, False)],
           "C18": [("eof", "two ports", 1, False), ("unknown", "two ports", 2, False)],
           "C19": [("late", "same session", 1, False), ("nobody", "two ports", 2, False)],
           "C20": [("takeover", "one port", 1, False)],
           "C21": [("rebind", "one port", 1, False), ("linger", "two ports", 1, False), ("stopall", "two ports", 2, True)]}


def models(ck, prop):
    """The specification of the service is consistent with the observer, and the model of
    the acceptor, without defects, refines it; with a defect it does not."""
    deep = ck.tier == "thorough"

    def acceptor(layout, n, flags=(), live=False, cap=4):
        t = core.tlc("AcceptorMC", ACCEPTOR % (cap, n, layout, quoted(flags), LIVE if live else SAFE), timeout=850,
                     heap="10g", must=not flags)
        ck.states(t)
        if flags and flags != ["filter"] and not t.violated:
            raise core.ToolError("the model with the defect %s is accepted:\n%s" % (flags, t.out[-2000:]))
        if flags == ["filter"] and not t.ok:
            raise core.ToolError("the model with the remedy is not accepted")

    for layout in LAYOUTS if deep else [{"C20": "one port", "C19": "same session"}.get(prop, "two ports")]:
        # a message goes to all connections of its port: that is the known finding of C20
        ck.states(core.tlc("ServiceMC", SERVICE % (2, 2, "TRUE" if layout == "one port" else "FALSE", layout), timeout=800, heap="10g"))
        acceptor(layout, 2 if deep else 1)
        if prop == "C20":
            acceptor(layout, 1, ["filter"])
        if deep or prop in ("C17", "C21"):
            acceptor(layout, 1, live=True)
    for flag, layout, n, live in DEFECTS[prop]:
        if n == 1 or deep:
            acceptor(layout, n, [flag], live)
            ck.count("model_defects_rejected", 1)


def quoted(xs):
    return ", ".join('"%s"' % x for x in xs)


def enumerate_scripts(ck, depth, kinds, ways, apps, conns):
    t = core.tlc("ServiceScripts", SCRIPTS % (depth, quoted(kinds), quoted(ways), ", ".join(map(str, apps)), conns), timeout=800)
    ck.states(t)
    return [json.loads(json.loads(x)) for x in t.tagged("E")]


class Scripts:
    """some scripts, one after the other, in one episode"""

    def __init__(self, rng, hists, rich=True):
        lays = [layout(rng) for _ in range(3)] if rich else [None] * 3
        ss = [Sess(i, 1 if i == 2 else 0, rng if rich else None, lays[i]) for i in range(3)]
        for s in ss:
            s.sid["tgt"] = "C%d" % s.i
        self.ep = ep = Episode(rng, ss, 2, 1, workers=rng.choice([1, 2, 3]))
        ep.note = "scripts"
        self.deliver = []      # expected: (message, session)
        self.recv = {}         # connection -> numbers of the messages it must have received first
        self.nout, self.marker = 0, set()
        for h in hists:
            self.one(rng, h)

    def delivered(self, mid, s):
        self.deliver.append((mid, s))
        self.ep.arrive()

    def received(self, c, o, marker=False):
        if not marker:
            self.recv[c].append(o)
        else:
            self.marker.add(o)
        self.ep.step(0, o="recv", c=c, tok="\x0111=A%d\x01" % o, n=1)

    def one(self, rng, hist):
        ep = self.ep
        seen, hello = set(), set()
        for h in hist:
            if h["w"] == "deliver":
                seen.add(h["c"])
            elif h["w"] == "recv" and h["c"] not in seen:
                hello.add(h["c"])
        num, sess, base, last, left = {}, {}, self.nout, None, set()
        for h in hist:
            w = h["w"]
            if w == "connect":
                c = num[h["c"]] = ep.conn(0, h["s"])
                sess[h["c"]] = h["s"]
                self.recv[c] = []
                if h["c"] in hello:
                    # make sure that it receives
                    m = ep.message(h["s"])
                    ep.send(0, c, [m])
                    self.delivered(m[0], h["s"])
            elif w == "send":
                s, k = sess[h["c"]], h["k"]
                nxt = (s + 1) % 3
                size = rng.choice([4, 4, 4, 7, 3000, 40000])
                if k == "n":
                    m = ep.message(s)
                elif k == "r":
                    m = ep.message(s, "R1:%d" % size)
                elif k == "f":
                    m = ep.message(s, "F%d:1:%d" % (nxt, size))
                elif k == "o":
                    m = ep.message(nxt, "R1:%d" % size)
                else:
                    m = ep.bad(s, "unknown" if k == "u" else rng.choice([x for x in BAD if x != "unknown"]))
                last = m[0]
                ep.send(0, num[h["c"]], [m])
            elif w == "leave":
                c, s = num[h["c"]], sess[h["c"]]
                left.add(h["c"])
                how = h["k"]
                if how == "half":
                    self.half(rng, 0, c, s)
                    how = rng.choice(["shut", "close", "rst"])
                ep.close(0, c, how)
            elif w == "app":
                ep.step(0, o="appsend", s=h["s"], n=1)
            elif w == "out":
                self.nout += 1
            elif w == "deliver":
                self.delivered(last, h["s"])
            elif w == "recv":
                self.received(num[h["c"]], base + h["o"])
        # whoever is still there is still served
        for k, c in num.items():
            if k not in left:
                m = ep.message(sess[k], "R1")
                ep.send(0, c, [m])
                self.delivered(m[0], sess[k])
                self.nout += 1
                self.received(c, self.nout, True)
                ep.close(0, c, rng.choice(["shut", "close", "rst"]))

    def half(self, rng, th, c, s):
        cut_off(self.ep, rng, th, c, s)

    def differs(self, resp):
        """how the log differs from the script, if it does"""
        ev = resp.get("ev", [])
        got = [(e["m"], e["s"]) for e in ev if e["e"] == "Deliver"]
        if got != self.deliver:
            k = next((i for i, (a, b) in enumerate(zip(got, self.deliver)) if a != b), min(len(got), len(self.deliver)))
            return "deliveries", {"at": k, "got": got[k:k + 3], "want": self.deliver[k:k + 3]}
        of = {e["o"]: e["s"] for e in ev if e["e"] == "Out"}
        cs = {e["c"]: e["s"] for e in ev if e["e"] == "Connect"}
        # who has half closed may still receive for a while
        gone = {e["c"]: k for k, e in reversed(list(enumerate(ev))) if e["e"] == "Close"}
        for c, want in self.recv.items():
            mine = [e["o"] for e in ev[:gone.get(c)] if e["e"] == "Recv" and e["c"] == c and of.get(e["o"], cs[c]) == cs[c]
                    and e["o"] not in self.marker]
            if mine != want:
                return "receptions", {"c": c, "got": mine, "want": want}
        return None


BAD = ["utf8", "unknown", "noeq", "tag", "noval", "count", "order", "dup", "short", "junk", "noid", "trailer", "swapped", "glued", "prefixed"]


def cut_off(ep, rng, th, c, s):
    """a part of a message that never ends"""
    mid, b = ep.message(s, "R1")
    ep.pending.remove(mid)
    ep.ms[mid] = {"s": -1, "x": ""}
    i = rng.choice([1, len(b) - 1, b.rindex(b"\x0110=") + 1, b.rindex(b"\x0110=") + 4, rng.randint(1, len(b) - 1)])
    ep.send(th, c, [], extra=b[:i], cuts=[])


def scripts(ck, prop, depth, kinds, ways, apps, conns, limit, batch=40, report=True):
    rng = ck.sub("scripts")
    hs = enumerate_scripts(ck, depth, kinds, ways, apps, conns)
    ck.count("scripts_enumerated", len(hs))
    rng.shuffle(hs)
    hs = hs[:limit]
    ck.count("scripts_replayed", len(hs))
    ss = [Scripts(rng, hs[i:i + batch], rich=rng.random() < 0.7) for i in range(0, len(hs), batch)]
    resps = run_episodes(ck, [s.ep for s in ss])
    got = judge(ck, prop, [s.ep for s in ss], resps)
    ck.count("episodes", len(ss))
    out = []
    for s, r, g in zip(ss, resps, got):
        ck.count("delivered", g["nd"])
        ck.count("received", g["nr"])
        d = s.differs(r) if r["r"] == "ok" else None
        out.append((s.ep, r, g, d))
    return out


def report(ck, name, ep, r, g, extra=None):
    ck.violation("%s: %s" % (name, ", ".join(sorted(set(g["mine"]) or {extra[0]} if extra else set(g["mine"])))), note=ep.note,
                 events=around(r, g["viol"]), differs=extra, all=sorted({v[0] for v in g["viol"]}))


# -------------------------------------------------------------------- C17
def c17(ck):
    for ep, r, g, d in scripts(ck, "C17", ck.n(4, 5), ["n", "r", "o"], ["shut"], [0], 2, ck.n(2500, 40000)):
        if g["mine"] or (d and d[0] == "deliveries"):
            report(ck, "script", ep, r, g, d)
    if ck.bad:
        return
    rng = ck.sub("deliveries")
    eps = [deliveries(rng) for _ in range(ck.n(400, 3000))] + [wide(rng) for _ in range(ck.n(12, 80))]
    eps += [held(rng) for _ in range(ck.n(16, 100))] + [giants(rng, n) for n in ck.n([None, None, 9000000], [None] * 14 + [9000000, 17000000])]
    eps += [idle(rng) for _ in range(ck.n(24, 150))] + [endurance(rng, n) for n in ck.n([2500, 6000], [10000, 70000])]
    eps += [pauses(rng) for _ in range(ck.n(12, 60))] + [pauses(rng, t) for t in ck.n([3500000], [5500000, 11000000, 31000000])]
    got, _ = episodes(ck, "C17", "deliveries", eps)
    ck.sample({"episode": eps[0].note, "messages": eps[0].nm, "delivered": got[0]["nd"]})


# -------------------------------------------------------------------- C18
def misbehaviour(rng):
    """clients that behave and clients that do not"""
    nports = rng.randint(1, 3)
    ss = sessions_of(rng, rng.randint(max(2, nports), nports + 2), nports)
    nth = rng.randint(2, 5)
    ep = Episode(rng, ss, nports, nth, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    conns = {}          # thread -> [connection, session, bad so far]
    for th in range(nth):
        s = rng.randrange(len(ss))
        conns[th] = [ep.conn(th, s), s, False]
    rounds = rng.randint(2, 4)
    what = []
    for k in range(rounds):
        outs = 0
        for th in range(nth):
            c, s, _ = conns[th]
            for _ in range(rng.randint(1, 4)):
                act = rng.choice(["good", "good", "bad", "bad", "mix", "half", "leave", "probe", "others"])
                what.append(act)
                if act == "good":
                    cmd = "R1" if outs < 20 else ""
                    outs += 1
                    ep.send(th, c, [ep.message(s, cmd) for _ in range(rng.randint(1, 1 if cmd else 5))])
                elif act == "others" and outs < 20:
                    # the application writes to a session that perhaps nobody is connected to
                    outs += 2
                    ep.send(th, c, [ep.message(s, "F%d:2" % rng.randrange(len(ss)))])
                elif act == "bad":
                    conns[th][2] = True
                    ep.send(th, c, [ep.bad(s) for _ in range(rng.choice([1, 1, 3, 70]))])
                elif act == "mix":
                    conns[th][2] = True
                    ep.send(th, c, [rng.choice([ep.bad, ep.message])(s) for _ in range(rng.randint(2, 8))])
                elif act == "half":
                    cut_off(ep, rng, th, c, s)
                    ep.close(th, c, rng.choice(["shut", "close", "rst"]))
                    s = conns[th][1] = rng.randrange(len(ss))
                    c = conns[th][0] = ep.conn(th, s)
                elif act == "leave":
                    ep.close(th, c, rng.choice(["shut", "close", "rst"]))
                    s = conns[th][1] = rng.randrange(len(ss))
                    c = conns[th][0] = ep.conn(th, s)
                elif act == "probe":
                    x = ep.conn(th, rng.randrange(len(ss)))
                    ep.close(th, x, rng.choice(["shut", "close", "rst"]))
        # so that every connection is known to receive
        for th in range(nth):
            c, s, _ = conns[th]
            ep.send(th, c, [ep.message(s)])
        required(ep)
        ep.settle(c0, [(0, c0[0], c0[1])] + [(th, c, s) for th, (c, s, _) in conns.items()])
    # everybody can still be served
    for th in range(nth):
        c, s, _ = conns[th]
        ep.send(th, c, [ep.message(s, "R1")])
    ep.settle(c0, [(0, c0[0], c0[1])] + [(th, c, s) for th, (c, s, _) in conns.items()])
    ep.note = "misbehaviour " + " ".join(what)
    return ep


def required(ep):
    """messages written on a connection that is then broken off need not arrive: only wait for the others"""
    lost = set()
    for steps in ep.threads:
        mine = {}
        for st in steps:
            if st["o"] == "send":
                mine.setdefault(st["c"], []).extend(st["ms"])
            elif st["o"] == "close":
                lost |= {m for m in mine.get(st["c"], [])}
    ep.pending = [m for m in ep.pending if m not in lost]


def silent(rng):
    """clients that never read while a lot is sent to them"""
    ss = sessions_of(rng, 3, 2, rich=False)
    ss[0].port, ss[1].port, ss[2].port = 0, rng.randrange(2), 1
    ep = Episode(rng, ss, 2, 2, workers=rng.choice([1, 2]))
    c0 = (ep.conn(0, 0), 0)
    ep.send(0, c0[0], [ep.message(0)])
    mute = [ep.conn(1, s, mute=True) for s in (1, 1, 2)]
    for c, s in zip(mute, (1, 1, 2)):
        ep.send(1, c, [ep.message(s)])
    ep.settle(c0, [(0, c0[0], 0)])
    for _ in range(3):
        # ever more than sockets hold, never more than the queue of a port holds
        ep.send(0, c0[0], [ep.message(0, "F1:7:150000;F2:7:150000")])
        ep.settle(c0, [(0, c0[0], 0)])
        ep.send(1, mute[0], [ep.message(1)], mayfail=True)
        ep.settle(c0, [(0, c0[0], 0)])
    for c in mute:
        ep.close(1, c, rng.choice(["close", "rst", "shut"]))
    ep.settle(c0, [(0, c0[0], 0)])
    ep.note = "clients that do not read"
    return ep


def pest(rng, n, kinds=None):
    """very much bad input, a little good one"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, nports, nports, rich=False)
    ep = Episode(rng, ss, nports, 1, workers=rng.choice([1, 2]))
    c0 = (ep.conn(0, 0), 0)
    ep.send(0, c0[0], [ep.message(0)])
    kinds = kinds or rng.choice([BAD + ["unknown", "stranger"], BAD, ["stranger"], [rng.choice(BAD)]])
    cs = [(ep.conn(0, s), s) for s in [rng.randrange(nports) for _ in range(3)]]
    while ep.nm < n:
        c, s = rng.choice(cs)
        msgs = [ep.bad(s, rng.choice(kinds), big=False) for _ in range(rng.choice([1, 20, 60]))]
        if rng.random() < 0.2:
            msgs.insert(rng.randint(0, len(msgs)), ep.message(s, rich=False))
        ep.send(0, c, msgs, cuts=[])
    ep.settle(c0, [(0, c0[0], 0)])
    for s in range(nports):
        serve(ep, 0, ep.conn(0, s), s)
    ep.settle(c0, [(0, c0[0], 0)] + [(0, c, s) for c, s in cs])
    ep.note = "pest %s %d" % ("/".join(kinds), n)
    return ep


def c18(ck):
    own, other = [], []
    for ep, r, g, d in scripts(ck, "C18", ck.n(4, 5), ["n", "r", "x", "u"], ["shut", "half", "rst"], [1], 2, ck.n(2500, 40000)):
        if g["mine"]:
            own.append(("script", ep, r, g, d))
        elif g["viol"] or d:
            other.append(("script", ep, r, g, d))
    if own:
        for x in own:
            report(ck, *x)
        return
    rng = ck.sub("misbehaviour")
    eps = [misbehaviour(rng) for _ in range(ck.n(250, 2500))] + [silent(rng) for _ in range(ck.n(6, 40))]
    eps += [idle(rng, "reply") for _ in range(ck.n(16, 100))]
    eps += [pest(rng, n) for n in ck.n([500, 2000], [1000, 3000, 10000, 70000])]
    eps += [pest(rng, ck.n(7000, 20000), k) for k in ([k for k in BAD if k not in ("unknown", "noid", "swapped", "junk", "short")], ["unknown", "stranger"])]
    resps = run_episodes(ck, eps)
    got = judge(ck, "C18", eps, resps)
    ck.count("episodes", len(eps))
    for ep, r, g in zip(eps, resps, got):
        ck.count("delivered", g["nd"])
        ck.count("received", g["nr"])
        if g["mine"]:
            own.append(("misbehaviour", ep, r, g, None))
        elif g["viol"]:
            other.append(("misbehaviour", ep, r, g, None))
    for x in own:
        report(ck, *x)
    if other and not own:
        # is it the bad input? the same service without any
        rng = ck.sub("control")
        eps = [replies(rng, leave=False) for _ in range(60)] + [deliveries(rng) for _ in range(60)]
        ctl = judge(ck, "C18", eps, run_episodes(ck, eps))
        if any(g["viol"] for g in ctl):
            print("note: violations without bad input too, not this property's: %s"
                  % sorted({v[0] for x in other for v in x[3]["viol"]}))
        else:
            for name, ep, r, g, d in other:
                g["mine"] = sorted({v[0] for v in g["viol"]}) or ["as the script"]
                report(ck, name + ", bad input disturbs", ep, r, g, d)
    ck.sample({"episode": eps[0].note[:300]})


# -------------------------------------------------------------------- C19
def replies(rng, leave=True, nports=None):
    """phases of traffic in both directions; at most 30 messages per port and phase"""
    nports = nports or rng.randint(1, 3)
    ss = sessions_of(rng, rng.randint(nports, nports + 2), nports)
    nth = rng.randint(1, 4)
    ep = Episode(rng, ss, nports, nth, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    conns = [[th, ep.conn(th, s), s] for th in range(nth) for s in [rng.randrange(len(ss)) for _ in range(rng.choice([1, 1, 2]))]]
    fresh = {c for _, c, _ in conns} | {c0[0]}
    for k in range(rng.randint(1, 4)):
        load = [0] * nports
        def room(s, n):
            p = ss[s].port
            if load[p] + n > 22:
                return False
            load[p] += n
            return True
        size = lambda n: rng.choice([4, 4, 5, 6, 300, 5000] + ([200000] if n == 1 else []))
        if rng.random() < 0.7:
            # the very first message is answered
            ep.send(0, c0[0], [ep.message(0, "R1" if room(0, 1) else "")])
        for x in conns:
            th, c, s = x
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < 0.5:
                    n = rng.choice([1, 1, 1, 2, 5])
                    ep.send(th, c, [ep.message(s, "R%d:%d" % (n, size(n)) if room(s, n) else "")])
                elif r < 0.75:
                    s2, n = rng.randrange(len(ss)), rng.choice([1, 1, 3])
                    cmd = "F%d:%d:%d" % (s2, n, size(n)) if room(s2, n) else ""
                    if cmd and rng.random() < 0.4 and room(s, 1):
                        cmd += ";R1"
                    ep.send(th, c, [ep.message(s, cmd)])
                elif r < 0.85 and k > 0:
                    s2 = rng.randrange(len(ss))
                    if room(s2, 2):
                        ep.step(th, o="appsend", s=s2, n=2)
                elif leave:
                    ep.close(th, c, rng.choice(["shut", "close", "rst"]))
                    if rng.random() < 0.3:
                        x[2] = s = rng.randrange(len(ss))
                    c = x[1] = ep.conn(th, s)
        # so that every connection is known to receive before the marker is sent
        for th, c, s in conns + [[0, c0[0], 0]]:
            ep.send(th, c, [ep.message(s)])
        required(ep)
        ep.settle(c0, [(0, c0[0], 0)] + [tuple(x) for x in conns])
    ep.note = "replies"
    return ep


def burst(rng, n, mode="L"):
    """exactly n messages outstanding, because the runtime is busy"""
    ss = sessions_of(rng, 2, 1, rich=False)
    ep = Episode(rng, ss, 1, 1, workers=1, patience=3000 if n > 32 else 15000)
    if n > 32:
        ep.bound = 32
    cs = [ep.conn(0, 0) for _ in range(rng.randint(1, 3))]
    for c in cs:
        ep.send(0, c, [ep.message(0)])
    ep.settle()
    ep.send(0, cs[0], [ep.message(0, "%s%d" % (mode, n))])
    ep.arrive()
    for c in cs:
        ep.step(0, o="recv", c=c, tok="11=A%d\x01" % n, n=1)
    if n <= 32:
        ep.settle((cs[0], 0), [(0, c, 0) for c in cs])
    ep.note = "burst of %d" % n
    return ep


def late(rng, us=None):
    """clients that do not read for a while when more is sent to them than sockets hold"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, rng.randint(nports, 3), nports, rich=False)
    ep = Episode(rng, ss, nports, 2, workers=rng.choice([1, 2, 4]))
    c0 = (ep.conn(0, 0), 0)
    ep.send(0, c0[0], [ep.message(0, "R1")])
    slow = []
    for _ in range(rng.randint(1, 3)):
        s = rng.randrange(len(ss))
        slow.append((ep.conn(1, s, late=True), s))
        ep.send(1, slow[-1][0], [ep.message(s)])
    ep.settle()
    left = [26] * nports
    for c, s in slow:
        n, size = rng.choice([(1, 9000000), (2, 4500000), (9, 1000000), (20, 450000)])
        p = ss[s].port
        n = min(n, left[p])
        left[p] -= n
        if n:
            ep.send(1, c, [ep.message(s, "R%d:%d" % (n, size))])
    ep.arrive(1)
    ep.step(1, o="sleep", us=us or rng.choice([1000, 250000, 700000, 1600000]))
    # what is sent meanwhile comes after it
    for s in range(len(ss)):
        if left[ss[s].port] > 3:
            left[ss[s].port] -= 1
            ep.send(0, c0[0], [ep.message(0, "F%d:1:%d" % (s, rng.choice([4, 100000])))])
    for c, s in slow:
        ep.step(1, o="listen", c=c)
    ep.settle(c0, [(0, c0[0], 0)] + [(1, c, s) for c, s in slow])
    ep.note = "late readers"
    return ep


def first(rng):
    """many connections, each answered from its first message on"""
    ss = sessions_of(rng, 2, rng.randint(1, 2), rich=False)
    ep = Episode(rng, ss, 2, rng.randint(1, 3), workers=rng.choice([1, 2, 4]))
    for th in range(len(ep.threads)):
        for _ in range(rng.randint(5, 15)):
            s = rng.randrange(2)
            c = ep.conn(th, s)
            n = rng.choice([1, 1, 2])
            serve(ep, th, c, s, n)
            if rng.random() < 0.5:
                m = ep.message(s, "R1:%d;A1" % rng.choice([4, 70000]), rich=False)
                ep.send(th, c, [m], cuts=[])
                ep.step(th, o="recv", c=c, tok="58=re%s." % m[0], n=1)
            ep.close(th, c, rng.choice(["shut", "close", "rst"]))
    ep.note = "first replies"
    return ep


def c19(ck):
    for ep, r, g, d in scripts(ck, "C19", ck.n(4, 5), ["n", "r", "f"], ["shut", "rst"], [0, 2], 2, ck.n(2500, 40000)):
        if g["mine"] or (d and d[0] == "receptions"):
            report(ck, "script", ep, r, g, d)
    if ck.bad:
        return
    rng = ck.sub("replies")
    eps = [replies(rng) for _ in range(ck.n(250, 2500))] + [first(rng) for _ in range(ck.n(60, 600))] + \
          [burst(rng, n) for n in (31, 32) for _ in range(ck.n(4, 20))] + \
          [burst(rng, rng.randint(2, 32)) for _ in range(ck.n(12, 60))] + \
          [idle(rng, "reply") for _ in range(ck.n(24, 150))] + [same(rng) for _ in range(ck.n(40, 300))] + \
          [endurance(rng, n, "reply") for n in ck.n([150, 400], [2000, 9000])] + \
          [late(rng) for _ in range(ck.n(16, 100))] + [late(rng, t) for t in ck.n([6000000], [6000000, 12000000, 40000000])]
    got, _ = episodes(ck, "C19", "replies", eps)
    ck.sample({"episode": eps[0].note, "received": got[0]["nr"]})
    # the known finding
    eps = [burst(rng, 40), burst(rng, 33)]
    got, _ = episodes(ck, "C19", "overflow", eps)
    if any("lag" in g["dev"] for g in got):
        if not ck.known_finding("lag"):
            ck.violation("more than 32 outstanding messages are lost")


# -------------------------------------------------------------------- C20
def c20(ck):
    dev = set()
    for ep, r, g, d in scripts(ck, "C20", ck.n(4, 5), ["r", "f", "o"], ["shut"], [0, 1, 2], 2, ck.n(2500, 40000)):
        dev |= set(g["dev"])
        if g["mine"]:
            report(ck, "script", ep, r, g, d)
    if ck.bad:
        return
    rng = ck.sub("replies")
    eps = [replies(rng, nports=rng.choice([1, 2, 2, 3, 3, 4])) for _ in range(ck.n(250, 2500))]
    eps += [wide(rng, "reply") for _ in range(ck.n(12, 80))] + [idle(rng, "reply") for _ in range(ck.n(16, 100))]
    got, _ = episodes(ck, "C20", "replies", eps)
    for g in got:
        dev |= set(g["dev"])
    ck.sample({"episode": eps[0].note, "received": got[0]["nr"]})
    if "same-port" in dev and not ck.known_finding("same-port"):
        ck.violation("a client received a message of another session of its port")


# -------------------------------------------------------------------- C21
def serve(ep, th, c, s, n=1):
    m = ep.message(s, "A%d" % n, rich=False)
    ep.send(th, c, [m], cuts=[])
    ep.step(th, o="recv", c=c, tok="58=re%s." % m[0], n=n)


def storm(rng):
    """many clients at once"""
    nports = rng.randint(1, 3)
    ss = sessions_of(rng, nports + rng.randint(0, 1), nports, rich=False)
    nth = rng.choice([4, 8, 12])
    ep = Episode(rng, ss, nports, nth, workers=rng.choice([1, 2, 4]))
    ep.bar()
    c0 = ep.conn(0, 0)
    ep.send(0, c0, [ep.message(0, rich=False)])
    kept = []
    for _ in range(rng.randint(1, 5)):
        load = 0
        for th in range(nth):
            s = rng.randrange(len(ss))
            cs = [ep.conn(th, s) for _ in range(rng.randint(1, 8))]
            for c in cs:
                load += 1
                # not too many answers at once: everybody on the port may get them
                if load <= 22 and rng.random() < 0.8:
                    serve(ep, th, c, s)
                else:
                    ep.send(th, c, [ep.message(s, rich=False)])
            for c in cs:
                if rng.random() < 0.6:
                    ep.close(th, c, rng.choice(["shut", "close", "rst"]))
                else:
                    kept.append((th, c, s))
        required(ep)
        ep.settle((c0, 0), [(0, c0, 0)] + kept)
    ep.note = "storm"
    return ep


def crowd(rng, n, limit=None, nports=None):
    """very many clients one after the other, most of whom do nothing at all"""
    nports = nports or rng.randint(1, 2)
    ss = sessions_of(rng, nports, nports, rich=False)
    ep = Episode(rng, ss, nports, 1, workers=rng.choice([1, 2]))
    ep.nofile = limit
    # a reply also reveals to the service who has left
    replies = rng.choice([0, 0.1])
    rude = rng.choice([0.2, 0.6])
    for k in range(n):
        s = rng.randrange(len(ss))
        c = ep.conn(0, s)
        r = rng.random()
        if k == n - 1 or r < replies:
            serve(ep, 0, c, s)
        elif r < 0.3:
            ep.send(0, c, [ep.message(s, rich=False)])
        elif r < 0.3 + rude:
            cut_off(ep, rng, 0, c, s)
        # a half-closed socket stays open in this process too
        ep.close(0, c, rng.choice(["shut", "close", "rst"] if limit is None else ["close", "rst"]))
    for s in range(len(ss)):
        serve(ep, 0, ep.conn(0, s), s)
    ep.note = "crowd of %d" % n
    return ep


def throng(rng, n):
    """very many clients at the same time"""
    n = min(n, (resource.getrlimit(resource.RLIMIT_NOFILE)[0] - 300) // 3)
    ss = sessions_of(rng, rng.randint(1, 3), 1, rich=False)
    ep = Episode(rng, ss, 1, 2, workers=rng.choice([1, 2, 4]))
    c0 = ep.conn(0, 0)
    serve(ep, 0, c0, 0)
    cs = []
    for _ in range(n):
        s = rng.randrange(len(ss))
        th = rng.randrange(2)
        cs.append((th, ep.conn(th, s, mute=True), s))
        if rng.random() < 0.5:
            ep.send(th, cs[-1][1], [ep.message(s, rich=False)])
    ep.settle()
    # all of them are there
    for th, c, s in cs:
        if rng.random() < 0.3 or (th, c, s) == cs[-1]:
            ep.send(th, c, [ep.message(s, rich=False)])
    ep.settle()
    for s in range(len(ss)):
        serve(ep, 0, ep.conn(0, s), s)
    serve(ep, 0, c0, 0)
    gone = [x for x in cs if rng.random() < 0.5]
    for th, c, s in gone:
        ep.close(th, c, rng.choice(["close", "rst"]))
    ep.settle()
    for s in range(len(ss)):
        serve(ep, 0, ep.conn(0, s), s)
    ep.note = "throng of %d" % n
    return ep


def busy(rng, us=None):
    """a port is in use at first"""
    ss = sessions_of(rng, 2, 2, rich=False)
    ep = Episode(rng, ss, 2, 2, workers=rng.choice([1, 2]))
    b = rng.randrange(2)
    ep.busy = [b]
    c = ep.conn(0, 1 - b)
    serve(ep, 0, c, 1 - b)
    ep.step(0, o="sleep", us=us or rng.choice([10000, 1100000, 2200000]))
    ep.step(0, o="cpu", ms=60)
    serve(ep, 0, ep.conn(0, 1 - b), 1 - b)
    ep.step(0, o="free", p=b)
    for _ in range(3):
        serve(ep, 0, ep.conn(0, b), b)
        serve(ep, 0, ep.conn(0, 1 - b), 1 - b)
    ep.step(0, o="cpu", ms=30)
    ep.note = "port in use"
    return ep


def gone(rng):
    """clients leave at any point of a message"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, nports, nports, rich=False)
    ep = Episode(rng, ss, nports, 1, workers=rng.choice([1, 2, 4]))
    for _ in range(rng.randint(1, 6)):
        s = rng.randrange(len(ss))
        c = ep.conn(0, s)
        if rng.random() < 0.5:
            serve(ep, 0, c, s)
        if rng.random() < 0.7:
            cut_off(ep, rng, 0, c, s)
        ep.close(0, c, rng.choice(["shut", "close", "rst"]))
    ep.step(0, o="sleep", us=30000)
    ep.step(0, o="cpu", ms=30)
    for s in range(len(ss)):
        serve(ep, 0, ep.conn(0, s), s)
    ep.note = "clients gone"
    return ep


def exhaust(rng):
    """no file can be opened for a while, when clients come"""
    nports = rng.randint(1, 2)
    ss = sessions_of(rng, nports, nports, rich=False)
    ep = Episode(rng, ss, nports, 1, workers=rng.choice([1, 2]))
    ep.nofile = 60
    def everybody():
        for s in range(len(ss)):
            c = ep.conn(0, s)
            serve(ep, 0, c, s)
            ep.close(0, c, rng.choice(["shut", "close", "rst"]))
    everybody()
    for _ in range(rng.randint(1, 3)):
        ep.step(0, o="hog")
        # the driver takes care that there is a file for the client, but not for the server
        cs = [(ep.conn(0, s, mute=True), s) for s in [rng.randrange(len(ss)) for _ in range(rng.randint(1, 4))]]
        if rng.random() < 0.5:
            ep.step(0, o="sleep", us=rng.choice([2000, 20000]))
        ep.step(0, o="unhog")
        for c, s in cs:
            ep.send(0, c, [ep.message(s, rich=False)])
        ep.arrive()
        everybody()
    ep.note = "no files"
    return ep


def c21(ck):
    for ep, r, g, d in scripts(ck, "C21", ck.n(4, 5), ["n", "r"], ["shut", "close", "rst", "half"], [2], 3, ck.n(2000, 30000)):
        if g["mine"]:
            report(ck, "script", ep, r, g, d)
    if ck.bad:
        return
    rng = ck.sub("connections")
    eps = [storm(rng) for _ in range(ck.n(60, 600))]
    eps += [crowd(rng, rng.choice([50, 150]), None) for _ in range(ck.n(8, 40))]
    eps += [throng(rng, n) for n in ck.n([300, 1200], [600, 1200, 2500, 5000])]
    eps += [crowd(rng, n, 60, 1) for n in ck.n([2600], [5000, 20000])]
    eps += [crowd(rng, ck.n(250, 1500), 60) for _ in range(ck.n(6, 24))]
    eps += [busy(rng) for _ in range(ck.n(10, 40))] + [busy(rng, t) for t in ck.n([7200000], [7200000, 12000000, 65000000])]
    eps += [wide(rng, "reply") for _ in range(ck.n(12, 80))] + [idle(rng, "reply") for _ in range(ck.n(24, 150))]
    eps += [exhaust(rng) for _ in range(ck.n(30, 300))]
    eps += [gone(rng) for _ in range(ck.n(60, 500))]
    got, _ = episodes(ck, "C21", "connections", eps)
    ck.count("connections", sum(e.nc for e in eps))
    ck.sample({"episode": eps[0].note, "connections": eps[0].nc})


def run(ck, prop):
    models(ck, prop)
    {"C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21}[prop](ck)
    return "model_checking"
