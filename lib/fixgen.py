"""Dictionaries as layouts (nested lists of items) and texts for them."""
SOH = "\x01"

# ------------------------------------------------------------------ layouts
# item: {"t": tag} or {"t": tag, "g": [items]}


def F(t):
    return {"t": str(t)}


def G(t, *items):
    return {"t": str(t), "g": list(items)}


def tags_of(items):
    r = []
    for it in items:
        r.append(it["t"])
        if "g" in it:
            r += tags_of(it["g"])
    return r


def render(layout, begin="FIX.4.3"):
    """the XML of a layout (no components, nothing required)"""
    used = set(tags_of(layout["hdr"]) + tags_of(layout["trl"]))
    for m in layout["msgs"].values():
        used |= set(tags_of(m))

    def items(its, ind):
        o = ""
        for it in its:
            if "g" in it:
                o += '%s<group name="F%s" required="N">\n%s%s</group>\n' % (ind, it["t"], items(it["g"], ind + " "), ind)
            else:
                o += '%s<field name="F%s" required="N"/>\n' % (ind, it["t"])
        return o
    a, b, c = begin.split(".")
    x = '<fix type="%s" major="%s" minor="%s">\n<header>\n%s</header>\n<trailer>\n%s</trailer>\n<messages>\n' % (
        a, b, c, items(layout["hdr"], " "), items(layout["trl"], " "))
    for mt, its in layout["msgs"].items():
        x += '<message name="M%s" msgcat="app" msgtype="%s">\n%s</message>\n' % (mt, mt, items(its, " "))
    x += "</messages>\n<components></components>\n<fields>\n"
    for t in sorted(used, key=int):
        x += '<field number="%s" name="F%s" type="STRING"/>\n' % (t, t)
    return x + "</fields>\n</fix>\n"


def layout_of_xml(path):
    """the layout of a dictionary without faults, components expanded in place"""
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    num = {f.get("name"): f.get("number") for f in root.find("fields")}
    comps = {c.get("name"): c for c in root.find("components")}

    def items(node):
        out = []
        for x in node:
            if x.tag == "field":
                out.append(F(num[x.get("name")]))
            elif x.tag == "group":
                out.append({"t": num[x.get("name")], "g": items(x)})
            elif x.tag == "component":
                out += items(comps[x.get("name")])
        return out
    return {"hdr": items(root.find("header")), "trl": items(root.find("trailer")),
            "msgs": {m.get("msgtype"): items(m) for m in root.find("messages")}}


SMALL = {
    "hdr": [F(8), F(9), F(35), F(49), G(627, F(628), F(629))],
    "trl": [F(93), F(89), G(90, F(91), F(95)), F(10)],
    "msgs": {"D": [F(1), G(73, F(11), F(12), G(78, F(79), F(80)), F(13)), F(21)],
             "Z": []},
}


def random_items(rng, pool, depth, n):
    out = []
    for _ in range(n):
        if not pool:
            break
        t = pool.pop()
        if depth > 0 and rng.random() < 0.3 and pool:
            sub = random_items(rng, pool, depth - 1, rng.randint(1, 4))
            if sub:
                out.append(G(t, *sub))
                continue
        out.append(F(t))
    return out


def chain(rng, free, depth):
    """a group in a group in a group..."""
    it = [F(free.pop())] + ([F(free.pop())] if rng.random() < 0.3 else [])
    for k in range(depth - 1):
        inner = G(free.pop(), *it)
        it = [F(free.pop()), inner] if k == 0 or rng.random() < 0.8 else [inner]
        if rng.random() < 0.4:
            it.append(F(free.pop()))
    return G(free.pop(), *it)


def random_layout(rng, depth=3, overlaps=False):
    special = [8, 9, 35, 93, 89, 10]
    pool = [t for t in rng.sample(range(1, 400), 90) + rng.sample(range(1000, 100000), 10) if t not in special]
    rng.shuffle(pool)
    hdr = [F(8), F(9), F(35)] + [F(t) for t in (49, 56) if t in pool or True]
    pool = [t for t in pool if t not in (49, 56)]
    if rng.random() < 0.35:
        # header fields that mean something to a session
        mean = [int(t) for t in SPECIAL if rng.random() < 0.7]
        pool = [t for t in pool if t not in mean]
        hdr += [F(t) for t in mean]
    hdr += random_items(rng, pool, depth if rng.random() < 0.7 else 0, rng.randint(0, 5))
    trl = [F(93), F(89), F(10)]
    if rng.random() < 0.4:
        trl.insert(0, F(pool.pop()))
    if rng.random() < 0.4:
        trl += random_items(rng, pool, depth, rng.randint(1, 3))
    msgs = {}
    body = pool[:]
    for mt in rng.sample(["D", "A", "8", "AE", "W", "header", "n", "0", "1", "2", "3", "4", "5"], rng.randint(1, 3)):
        if mt == "header":
            mt = "H"
        p = body[:]
        rng.shuffle(p)       # the same tags, in other places of another message type
        msgs[mt] = random_items(rng, p, depth, rng.randint(0, 9))
    if rng.random() < 0.25:
        # a group whose first item is itself a group
        mt = rng.choice(sorted(msgs))
        free = [t for t in body if str(t) not in tags_of(msgs[mt])]
        if len(free) > 6:
            a, b, c, d, e = free[:5]
            msgs[mt].append(G(a, G(b, F(c), F(d)), F(e)))
    if rng.random() < 0.2:
        # groups nested deeply, in a message or the header or the trailer
        where = rng.choice([msgs[rng.choice(sorted(msgs))], msgs[rng.choice(sorted(msgs))], hdr, trl])
        have = set(tags_of(hdr) + tags_of(trl)) | {t for m in msgs.values() for t in tags_of(m)}
        free = [t for t in range(100001, 100060) if str(t) not in have]
        rng.shuffle(free)
        where.append(chain(rng, free, rng.randint(4, 9)))
    if overlaps and rng.random() < 0.4:
        overlap(rng, hdr, trl, msgs)
    if rng.random() < 0.06:
        # a group with very many fields
        n = rng.choice([40, 126, 127, 128, 129, 130, 150, 255, 256, 257, 300])
        mine = rng.sample(range(110000, 120000), n)
        g = G(109999, *[F(t) for t in mine])
        if rng.random() < 0.5:
            g["g"][rng.choice([1, n // 2, n - 1])] = G(mine[0] + 20000, F(mine[0] + 30000), F(mine[0] + 40000))
        where = msgs[rng.choice(sorted(msgs))] if rng.random() < 0.8 else rng.choice([hdr, trl])
        where.append(g)
    return {"hdr": hdr, "trl": trl, "msgs": msgs}


def overlap(rng, hdr, trl, msgs):
    """the same tag in places where different things have to happen: a header or trailer field
    which a message type or one of its groups lists too, the field of a group outside it"""
    mt = rng.choice(sorted(msgs))
    secs = [i["t"] for i in hdr[3:] if "g" not in i] + [i["t"] for i in trl if i["t"] != "10" and "g" not in i]
    have = set(tags_of(msgs[mt]))
    secs = [t for t in secs if t not in have]
    if secs and rng.random() < 0.6:
        msgs[mt].insert(rng.randint(0, len(msgs[mt])), F(rng.choice(secs)))
    groups = []

    def walk(items):
        for it in items:
            if "g" in it:
                groups.append(it)
                walk(it["g"])
    walk(msgs[mt])
    if groups:
        g = rng.choice(groups)
        inside = set(tags_of([g]))
        free = [t for t in secs if t not in inside]
        if free and rng.random() < 0.5:
            g["g"].insert(rng.randint(0, len(g["g"])), F(rng.choice(free)))
        top = {i["t"] for i in msgs[mt]}
        plain = [i["t"] for i in g["g"] if "g" not in i and i["t"] not in top and i["t"] not in {x["t"] for x in hdr + trl}]
        if plain and rng.random() < 0.5:
            msgs[mt].append(F(rng.choice(plain)))


# --------------------------------------------------------------------- texts
ALPHA = "abcXYZ019 .:-+/=|<>&\"'\\"
WIDE = "\u00e9\u00df\u20ac\u4e2d\U0001f600\u0416"


ODD = "\t\n\r\x00\x02\x0b\x1f\x7f \u00a0\u0085\ufeff\u2028\u200b\u0301"


def value(rng, style=None):
    r = rng.random()
    if r < 0.04:
        # characters code may take for no part of a value
        v = rng.choice(["", "a", "7", "xyz"])
        o = rng.choice(ODD)
        return rng.choice([o, o + v, v + o, o + v + o, v + o + v, "1=" + v, "=" + v, v + "=", "10=" + v])
    if r < 0.5:
        return str(rng.randint(0, 99999))
    if r < 0.9:
        return "".join(rng.choice(ALPHA) for _ in range(rng.randint(1, 8)))
    if r < 0.97:
        return "".join(rng.choice(WIDE + ALPHA) for _ in range(rng.randint(1, 5)))
    if r < 0.985:
        return "v" * rng.randint(20, 60)
    return long_value(rng)


def long_value(rng, sizes=(16, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300)):
    """a value around a size code may treat differently, its characters of one or several bytes"""
    n = rng.choice(sizes)
    r = rng.random()
    if r < 0.35:
        return "".join(rng.choice(ALPHA) for _ in range(n))
    if r < 0.5:
        return rng.choice(WIDE) * n
    # some characters of several bytes at random places, so that byte n may be inside one
    c = list("x" * n)
    for _ in range(rng.randint(1, 6)):
        c[rng.choice([0, n // 2, n - 1, rng.randrange(n)])] = rng.choice(WIDE)
    if r < 0.75:
        c = c[:n // 2] + [rng.choice(WIDE)] * 4 + c[n // 2:]
    return "".join(c)


# header fields that mean something to a session, and values that may mean something special
SPECIAL = {"34": ["0", "1", "1", "2", "2", "3", "99999", "-1", "x"], "43": ["Y", "Y", "N"], "97": ["Y", "Y", "N"],
           "52": ["20210101-00:00:00", "19700101-00:00:00.000", "20991231-23:59:59.999", "now"],
           "122": ["20210101-00:00:00", "now"], "115": ["C0", "C1", "SRV"], "128": ["C0", "C1", "SRV"],
           "369": ["1", "0"], "347": ["UTF-8", "ISO-2022-JP"], "90": ["3"], "91": ["a=b"], "129": ["C1"]}
# and of messages
MEANING = dict(SPECIAL, **{"98": ["0"], "108": ["0", "30"], "141": ["Y", "N"], "123": ["Y", "N"], "7": ["1"], "16": ["0"], "36": ["1", "5"],
                          "95": ["3"], "112": ["TEST"], "45": ["1"], "371": ["35"], "373": ["5"], "60": ["20210101-00:00:00"]})

ODDTAGS = ["0", "4294967295", "65536", "65535", "2147483647", "2147483648", "255", "256", "32768", "999999"]


def gen_instance(rng, items, depth=0):
    """a conformant instance: list of (tag, value) in writing order"""
    out = []
    if len(items) > 30:
        # few of very many, from both ends
        keep = {0, len(items) - 1, rng.randrange(len(items))} | {rng.randrange(len(items)) for _ in range(rng.randint(0, 4))}
        keep = {k for k in keep if k == 0 or rng.random() < 0.8}
        return [f for k in sorted(keep) for f in gen_item(rng, items[k], depth)]
    for k, it in enumerate(items):
        if k > 0 and rng.random() < (0.1 if depth > 2 and "g" in it else 0.35):
            continue
        out += gen_item(rng, it, depth)
    # subgroups may stand anywhere after the delimiter
    return out


def gen_item(rng, it, depth=0):
    if "g" not in it:
        if it["t"] in MEANING and rng.random() < 0.6:
            return [(it["t"], rng.choice(MEANING[it["t"]]))]
        return [(it["t"], value(rng))]
    n = rng.choice([0, 1, 1, 2, 2, 3]) if depth < 2 else rng.choice([0, 1, 1, 1, 1, 1, 1, 2])
    out = [(it["t"], str(n))]
    for _ in range(n):
        out += gen_instance(rng, it["g"], depth + 1)
    return out


def gen_message(rng, lay, unknown=True):
    mt = rng.choice(sorted(lay["msgs"]) + (["ZZ"] if rng.random() < 0.1 else []))
    out = [("8", "FIX.4.3"), ("9", str(rng.randint(0, 300))), ("35", mt)]
    hdr = lay["hdr"][3:]
    rng.shuffle(hdr := list(hdr))
    for it in hdr:
        if rng.random() < 0.6:
            out += gen_item(rng, it)
    body = list(lay["msgs"].get(mt, []))
    rng.shuffle(body)
    secs = {str(t) for t in tags_of(lay["hdr"]) + tags_of(lay["trl"])}
    used = set(tags_of(lay["msgs"].get(mt, [])))
    for it in body:
        if rng.random() < 0.7:
            out += gen_item(rng, it)
        if unknown and rng.random() < 0.1:
            t = str(rng.randint(5000, 5020)) if rng.random() < 0.8 else rng.choice(ODDTAGS)
            if t not in used and t not in secs:
                used.add(t)
                out.append((t, value(rng)))
    trl = list(lay["trl"])
    rng.shuffle(trl)
    for it in trl:
        if rng.random() < 0.5:
            out += gen_item(rng, it)
    return out


COUNTS = ["0", "1", "2", "3", "5", "40", "x", "1x", "-1", "1.0", " 1", "00", "02", "999", "65536",
          "2147483647", "2147483648", "4294967295", "4294967296", "99999999999999999999"]


def odd_count(rng, n):
    """the count n in a spelling that is no number, or close to it"""
    if not n.isdigit():
        return rng.choice(COUNTS)
    k = int(n)
    wide = "".join(chr(0xff10 + int(c)) for c in n)
    return rng.choice([" " + n, n + " ", " " + n + " ", "\t" + n, n + "\n", n + ".0", n + ".", "-" + n, "0" + n, "000" + n, "0x" + n,
                       n + "e0", "1_" + n, n + ",", wide, "'" + n, n + "\u00a0", n + "\u0663", str(k + 1), str(max(0, k - 1)),
                       str(k + 256), str(k + 65536), str(k + 2**32), str(k + 2**31), str(k + 2**64)])


def big_group(rng, items, n):
    """a field of the items and, after it, a group of n instances of little content (or None)"""
    gs = [it for it in items if "g" in it]
    if not gs:
        return None
    it = rng.choice(gs)
    out = [(it["t"], str(n))]
    rest = [x for x in it["g"][1:] if "g" not in x]
    if "g" in it["g"][0]:
        return None
    for k in range(n):
        out.append((it["g"][0]["t"], str(k)))
        if rest and rng.random() < 0.1:
            out.append((rest[0]["t"], "x"))
    return out


BIG = [100, 127, 128, 129, 254, 255, 256, 257, 300]


def gen_big(rng, lay, n=None):
    """a message with one group of very many instances (or None)"""
    n = n or rng.choice(BIG)
    mts = [m for m in sorted(lay["msgs"]) if any("g" in i for i in lay["msgs"][m])]
    mt = rng.choice(mts or sorted(lay["msgs"]))
    g = big_group(rng, lay["hdr"] if rng.random() < 0.2 or not mts else lay["msgs"][mt], n)
    if g is None:
        return None
    return [("8", "FIX.4.3"), ("9", "1"), ("35", mt)] + g + [("10", "000")]


def mutate(rng, fs, lay, kinds=None):
    """one structural change"""
    fs = list(fs)
    every = [t for t in tags_of(lay["hdr"]) + tags_of(lay["trl"])]
    for m in lay["msgs"].values():
        every += tags_of(m)
    groups = set()

    def walk(items):
        for it in items:
            if "g" in it:
                groups.add(it["t"])
                walk(it["g"])
    walk(lay["hdr"])
    walk(lay["trl"])
    for m in lay["msgs"].values():
        walk(m)
    k = rng.choice(kinds or ["del", "dup", "swap", "move", "count", "retag", "insert", "cut", "adj"])
    if not fs:
        return fs
    i = rng.randrange(len(fs))
    if k == "del":
        del fs[i]
    elif k == "dup":
        fs.insert(rng.randint(0, len(fs)), fs[i])
    elif k == "adj" and i + 1 < len(fs):
        fs[i], fs[i + 1] = fs[i + 1], fs[i]
    elif k == "swap":
        j = rng.randrange(len(fs))
        fs[i], fs[j] = fs[j], fs[i]
    elif k == "move":
        f = fs.pop(i)
        fs.insert(rng.randint(0, len(fs)), f)
    elif k == "count":
        gi = [j for j, f in enumerate(fs) if f[0] in groups]
        if gi:
            j = rng.choice(gi)
            fs[j] = (fs[j][0], odd_count(rng, fs[j][1]) if rng.random() < 0.5 else rng.choice(COUNTS))
    elif k == "retag":
        fs[i] = (rng.choice(every), fs[i][1])
    elif k == "insert":
        fs.insert(i, (rng.choice(every + ["5001"] + ODDTAGS[:2]), value(rng)))
    elif k == "cut":
        fs = fs[:i]
    return fs


def text_of(fs, end=True):
    return "".join("%s=%s%s" % (t, v, SOH) for t, v in fs)


def spoil(rng, text, k=None):
    """one text-level change"""
    k = k or rng.choice(["noeq", "noval", "badtag", "cutend", "doublesoh", "cut", "bigtag", "ins", "delch", "eqtag", "leadsoh", "wrap"])
    if k == "wrap":
        # something around the whole text
        o = rng.choice(["\n", "\r\n", " ", "\t", "\x00", "\x03", "\x02", "\ufeff", "\n\n", "\u2028", "\x0c"])
        return rng.choice([o + text, text + o, text[:-1] + o, o + text + o, text + o + SOH])
    fl = text.split(SOH)
    i = rng.randrange(len(fl))
    if k == "noeq":
        fl[i] = fl[i].replace("=", "")
    elif k == "noval":
        fl[i] = fl[i].split("=")[0] + "="
    elif k == "badtag":
        fl[i] = rng.choice(["x", "", "-1", "1x", " 1", "1 ", "\u0661", "0x1", "1.5"]) + "=" + rng.choice(["1", "", "a"])
    elif k == "bigtag":
        fl[i] = rng.choice(["4294967295", "4294967296", "99999999999", "0"]) + "=1"
    elif k == "cutend":
        return text.rstrip(SOH)
    elif k == "doublesoh":
        fl.insert(i, "")
    elif k == "leadsoh":
        return SOH + text
    elif k == "cut":
        return text[:rng.randint(0, len(text))]
    elif k == "ins":
        j = rng.randint(0, len(text))
        return text[:j] + rng.choice(["=", SOH, "a", "\u00e9", "1"]) + text[j:]
    elif k == "delch" and text:
        j = rng.randrange(len(text))
        return text[:j] + text[j + 1:]
    elif k == "eqtag":
        fl[i] = "=" + fl[i]
    return SOH.join(fl)


def junk(rng):
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 20, 60])
    return "".join(rng.choice([SOH, "=", "1", "0", "8", "9", "3", "5", "a", "\u20ac"]) for _ in range(n))


def has_leading_zero_or_plus(text):
    """tags written in a form the property does not speak about"""
    for f in text.split(SOH):
        t = f.split("=", 1)[0]
        if t.startswith("+") or (len(t) > 1 and t.startswith("0")):
            return True
    return False
