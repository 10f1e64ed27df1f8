"""C13."""
import calendar, datetime, json
from . import core

ZONES = {"UTC": "UTC", "GMT": "GMT", "AsiaTokyo": "Asia/Tokyo", "AsiaKolkata": "Asia/Kolkata", "AsiaKathmandu": "Asia/Kathmandu",
         "PacificHonolulu": "Pacific/Honolulu", "PacificKiritimati": "Pacific/Kiritimati",
         "AmericaNew_York": "America/New_York", "AmericaChicago": "America/Chicago", "AmericaSt_Johns": "America/St_Johns",
         "AmericaHavana": "America/Havana", "EuropeLondon": "Europe/London", "EuropeBerlin": "Europe/Berlin",
         "AtlanticAzores": "Atlantic/Azores", "AsiaBeirut": "Asia/Beirut", "AustraliaSydney": "Australia/Sydney",
         "AustraliaLord_Howe": "Australia/Lord_Howe", "PacificAuckland": "Pacific/Auckland"}
# month, nth Sunday, approximate hour UTC of the changes: only to choose instants near them
CHANGES = {"AmericaNew_York": [(3, 2, 7), (11, 1, 6)], "AmericaChicago": [(3, 2, 8), (11, 1, 7)], "AmericaSt_Johns": [(3, 2, 5), (11, 1, 4)],
           "AmericaHavana": [(3, 2, 5), (11, 1, 5)], "EuropeLondon": [(3, 5, 1), (10, 5, 1)], "EuropeBerlin": [(3, 5, 1), (10, 5, 1)],
           "AtlanticAzores": [(3, 5, 1), (10, 5, 1)], "AsiaBeirut": [(3, 5, -2), (10, 5, -3)], "AustraliaSydney": [(10, 1, -8), (4, 1, -8)],
           "AustraliaLord_Howe": [(10, 1, -8), (4, 1, -9)], "PacificAuckland": [(9, 5, -10), (4, 1, -10)]}
STD = {"UTC": 0, "GMT": 0, "AsiaTokyo": 9, "AsiaKolkata": 5.5, "AsiaKathmandu": 5.75, "PacificHonolulu": -10, "PacificKiritimati": 14,
       "AmericaNew_York": -5, "AmericaChicago": -6, "AmericaSt_Johns": -3.5, "AmericaHavana": -5, "EuropeLondon": 0, "EuropeBerlin": 1,
       "AtlanticAzores": -1, "AsiaBeirut": 2, "AustraliaSydney": 10, "AustraliaLord_Howe": 10.5, "PacificAuckland": 12}
DAYS = [("Mon", "monday", "MON"), ("Tue", "tuesday", "TUESDAY"), ("Wed", "Wednesday", "wed"), ("Thu", "Thursday", "thu"),
        ("Fri", "friday", "FRI"), ("Sat", "Saturday", "sat"), ("Sun", "SUNDAY", "sun")]


def clock(t):
    s, ns = t
    x = "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    if ns:
        x += (".%09d" % ns).rstrip("0")
    return x


def text_of(rng, o):
    """the configuration of a schedule; settings in the session or in the default section"""
    kv = []
    if o["st"]:
        kv.append(("start_time", clock(o["st"][0])))
    if o["en"]:
        kv.append(("end_time", clock(o["en"][0])))
    pick = (lambda x: rng.choice(x)) if rng else (lambda x: x[0])
    if o["sd"]:
        kv.append(("start_day", pick(DAYS[o["sd"][0]])))
    if o["ed"]:
        kv.append(("end_day", pick(DAYS[o["ed"][0]])))
    if o["zone"] != "UTC" or (rng and rng.random() < 0.5):
        kv.append(("default_timezone", ZONES[o["zone"]]))
    d = ["[Default]", "connection_type=acceptor", "begin_string=FIX.4.3", "socket_accept_port=1"]
    s = ["[Session]", "sender_comp_id=A", "target_comp_id=B"]
    for k, v in kv:
        where = d if rng and rng.random() < 0.3 else s
        where.append("%s=%s" % (k, v))
        if where is s and rng and rng.random() < 0.2:
            d.append("%s=%s" % (k, {"start_time": "01:02:03", "end_time": "04:05:06", "start_day": "Tue", "end_day": "Sat",
                                    "default_timezone": "Asia/Tokyo"}[k]))
    return "\n".join(d + s) + "\n"


def exhaustive(ck):
    """every schedule of a small universe at every stop of a clock that runs for a fortnight"""
    H = 3600
    ends = [[0, 0], [9 * H, 0], [17 * H + 30 * 60, 0]] + ([[86399, 999000000]] if ck.thorough else [])
    stops = set()
    for s, ns in ends:
        stops.add((s, ns))
        if s > 0 or ns:
            stops.add((s, ns - 1) if ns else (s - 1, 999999999))
        if (s, ns) != (86399, 999999999):
            stops.add((s, ns + 1))
    stops |= {(86399, 999999999), (12 * H, 0), (3 * H, 5)}
    times = [list(x) for x in sorted(stops)]
    p = core.write_json("sched.json", {"times": times, "ends": ends, "days": ck.n([0, 2, 6], [0, 1, 2, 3, 4, 5, 6])})
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT SwitchAgrees\nINVARIANT Weekly\nINVARIANT Emit\n"
    t = core.tlc("ScheduleMC", cfg, env={"LOG": p}, timeout=800, heap="10g")
    ck.states(t)
    cases = [json.loads(json.loads(l)) for l in t.tagged("E")]
    day0 = calendar.timegm((2021, 6, 7, 0, 0, 0))
    inst = [[day0 + d * 86400 + x[0], x[1]] for d in range(7) for x in times]
    rng = ck.sub("layout")
    cmds = [{"op": "sched", "text": text_of(rng, c["o"]), "times": inst} for c in cases]
    res = core.run_parallel(ck.binary, cmds)
    some = 0
    for c, cmd, r in zip(cases, cmds, res):
        if c["refused"] != (r["r"] == "refused") or r["r"] not in ("ok", "refused"):
            ck.violation("a schedule with only one end is created" if c["refused"] else "a schedule is refused",
                         text=cmd["text"], got=r, part="enumerated")
            continue
        if c["refused"]:
            continue
        want = set(c["open"])
        some += 0 < len(want) < len(inst)
        for j, g in enumerate(r["in"]):
            if g != (1 if j + 1 in want else 0):
                ck.violation("session time is wrong", text=cmd["text"], utc=inst[j],
                             weekday=DAYS[j // len(times)][0], time=clock(times[j % len(times)]), expected=j + 1 in want,
                             got={0: False, 1: True}.get(g, "panic"), part="enumerated")
                break
    if not some:
        raise core.ToolError("ScheduleMC is vacuous")
    ck.count("replayed_from_spec", len(cases) * len(inst))
    ck.count("schedules", len(cases))


def sunday(y, m, n):
    ds = [d for d in range(1, calendar.monthrange(y, m)[1] + 1) if calendar.weekday(y, m, d) == 6]
    return ds[-1] if n == 5 else ds[n - 1]


def rand_case(rng):
    z = rng.choice(list(ZONES) + list(CHANGES) * 2)
    round_ = lambda: [rng.choice([0, 30, 60, 90, 120, 150, 180, 540, 1020, 1380, 1439, rng.randint(0, 1439)]) * 60 + rng.choice([0, 0, 0, 59, rng.randint(0, 59)]),
                      rng.choice([0, 0, 0, 500000000])]
    o = {"st": [round_()], "en": [round_()], "sd": [], "ed": [], "zone": z}
    r = rng.random()
    if r < 0.6:
        o["sd"], o["ed"] = [rng.randint(0, 6)], [rng.randint(0, 6)]
        if rng.random() < 0.3:
            o["ed"] = list(o["sd"])
        if z in CHANGES and rng.random() < 0.5:
            o[rng.choice(["sd", "ed"])] = [rng.choice([6, 6, 5, 0])]
    elif r > 0.96:
        o["st"], o["en"] = [], []
    if rng.random() < 0.05 and o["st"]:
        o[rng.choice(["st", "en"])] = []
        if rng.random() < 0.5:
            o["sd"], o["ed"] = [], []
    if rng.random() < 0.05 and o["sd"]:
        o[rng.choice(["sd", "ed"])] = []
    times = []
    for _ in range(25):
        y = rng.randint(2013, 2021)
        if z in CHANGES and rng.random() < 0.7:
            m, n, h = rng.choice(CHANGES[z])
            base = calendar.timegm((y, m, sunday(y, m, n), 0, 0, 0)) + h * 3600
            k = rng.random()
            if k < 0.35:
                base += rng.choice([-3600, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 7200]) + rng.randint(-1, 1)
            else:
                base += rng.randint(-30, 30) * 3600 + rng.choice([0, 0, 1800, rng.randint(0, 3599)])
        else:
            base = calendar.timegm((y, rng.randint(1, 12), rng.randint(1, 28), 0, 0, 0)) + rng.randint(0, 86399)
        ns = rng.choice([0, 0, 1, 499999999, 500000000, 999999999])
        if (o["st"] or o["en"]) and rng.random() < 0.6:
            # near a start or an end, on the wall clock of standard or daylight saving time
            b = (o["st"] + o["en"])[0] if rng.random() < 0.5 else (o["st"] + o["en"])[-1]
            off = int(STD[z] * 3600) + rng.choice([0, 0, 3600, 1800] if z in CHANGES else [0])
            day = (base + off) // 86400
            if o["sd"] and rng.random() < 0.5:
                wd = (o["sd"] + (o["ed"] or o["sd"]))[rng.randint(0, 1)]
                day += (wd - (day + 3) % 7 + 3) % 7 - 3
            base = day * 86400 + b[0] - off + rng.choice([-1, 0, 0, 0, 1, rng.choice([-3600, 3600])])
            ns = rng.choice([b[1], b[1], 0, max(0, b[1] - 1), b[1] + 1])
        times.append([base, ns])
    return o, times


def traces(ck, n):
    rng = ck.sub("sched")
    cases = [rand_case(rng) for _ in range(n)]
    cmds = [{"op": "sched", "text": text_of(rng, o), "times": ts} for o, ts in cases]
    res = core.run_parallel(ck.binary, cmds)
    for lo in range(0, n, 2000):
        part = [{"o": o, "times": ts, "r": r["r"], "got": r.get("in", [])} for (o, ts), r in zip(cases[lo:lo + 2000], res[lo:lo + 2000])]
        p = core.write_json("schedlog.json", {"log": part})
        t = core.tlc("ScheduleTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n", env={"LOG": p}, timeout=800)
        ck.states(t)
        done, bad = {}, {}
        for l in t.tagged("D"):
            a, b = l.split(",")
            done[int(a)] = int(b)
        for l in t.tagged("X"):
            e = json.loads(json.loads(l))
            bad[e["n"]] = e
        if len(set(done) | set(bad)) != len(part):
            raise core.ToolError("only %d of %d schedules were validated" % (len(set(done) | set(bad)), len(part)))
        ck.count("instants_open", sum(done.values()))
        for i, e in sorted(bad.items()):
            x = part[i - 1]
            if not e["bad"]:
                ck.violation("a schedule with only one end is created" if e["refused"] else "a schedule is refused",
                             text=cmds[lo + i - 1]["text"], got=res[lo + i - 1], part="random")
                continue
            j = e["bad"][0] - 1
            ck.violation("session time is wrong", text=cmds[lo + i - 1]["text"], utc=x["times"][j], wall=e["wall"][0],
                         got={0: False, 1: True}.get(x["got"][j], "panic"), expected=x["got"][j] == 0, part="random")
    ck.count("traces_validated_against_impl", n)
    ck.count("instants", 25 * n)
    ck.sample({"text": cmds[0]["text"], "times": cases[0][1][:3]})


def run(ck, prop):
    exhaustive(ck)
    traces(ck, ck.n(2000, 20000))
    ck.assumptions.append("time zone rules of 2013-2021 for 18 zones, written in Schedule.tla; schedules with days but no times are not considered")
    return "model_checking"
