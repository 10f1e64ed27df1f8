"""Shared machinery: build the driver from /repo, run it, run TLC, report."""
import hashlib, json, os, random, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FIX_VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    """The check could not do its work: exit 2, never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ build
def source_hash():
    h = hashlib.sha256()
    for top in ("src", "build", "resources", "Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, top)
        names = []
        if os.path.isfile(p):
            names = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = [x for x in ds if x != "target"]
                names += [os.path.join(d, f) for f in fs]
        for n in sorted(names):
            h.update(n.encode())
            with open(n, "rb") as f:
                h.update(f.read())
    with open(os.path.join(VERIF, "harness", "driver.rs"), "rb") as f:
        h.update(f.read())
    return h.hexdigest()


def build():
    """Builds the driver from the working tree of /repo; returns the binary."""
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp")
    binary = os.path.join(target, "debug", "fix-rs")
    want = source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(binary):
        return binary
    # contents decide, not time stamps: force the crate itself to be rebuilt
    fp = os.path.join(target, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("fix-rs-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if os.path.exists(stamp):
        os.unlink(stamp)
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
        FIX_VERIF_DRIVER=os.path.join(VERIF, "harness", "driver.rs"),
        CARGO_TARGET_DIR=target,
        CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_INCREMENTAL="0",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        RUSTC_WRAPPER="",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
    )
    t = time.time()
    r = subprocess.run(
        ["cargo", "rustc", "--offline", "--bin", "fix-rs", "--", "--cfg", "fix_verif"],
        cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(binary):
        raise ToolError("build failed:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    log("built in %.1fs" % (time.time() - t))
    return binary


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(BUILD, "tmp")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(dir=base)
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


# ----------------------------------------------------------------- driver
def _limits(mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def _read_lines(path, pos, buf):
    with open(path, "rb") as f:
        f.seek(pos)
        b = f.read()
    buf += b
    *lines, rest = buf.split(b"\n")
    return [l for l in lines], pos + len(b), rest


def run_driver(binary, cmds, setup=(), stall=20.0, mem=3 << 30, tag="d", stop_on_death=False, stop=None):
    """Runs the commands in order, the setup commands before them (again after a
    restart). Returns one response per command. A command during which the
    process died or stopped responding is answered {"r": "crash"/"hang"}. When
    stop(new responses) says so, the rest is answered {"r": "skipped"}."""
    out = []
    hangs, stopped = 0, False
    setup = list(setup)
    d = scratch()
    k = 0
    while len(out) < len(cmds):
        todo = setup + list(cmds[len(out):])
        name = os.path.join(d, "%s-%d-%d" % (tag, os.getpid(), k))
        k += 1
        with open(name + ".in", "w") as f:
            for c in todo:
                f.write(json.dumps(c, ensure_ascii=False) + "\n")
        open(name + ".out", "w").close()
        env = dict(os.environ, FIX_VERIF_IN=name + ".in", FIX_VERIF_OUT=name + ".out", MALLOC_ARENA_MAX="4",
                   TZ="Asia/Tokyo")   # nothing may depend on the local time zone
        with open(os.devnull, "w") as null, open(name + ".err", "w") as err:
            p = subprocess.Popen([binary], env=env, stdout=null, stderr=err, cwd=REPO,
                                 preexec_fn=_limits(mem))
        got, pos, rest = [], 0, b""
        last = time.time()
        dead = None
        while True:
            rc = p.poll()
            new, pos, rest = _read_lines(name + ".out", pos, rest)
            if new:
                got += new
                last = time.time()
            if stop is not None and stop(new):
                stopped = True
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
            if rc is not None:
                new, pos, rest = _read_lines(name + ".out", pos, rest)
                got += new
                if len(got) < len(todo):
                    dead = {"r": "crash", "rc": rc,
                            "m": open(name + ".err", errors="replace").read()[-500:]}
                break
            cur = todo[len(got)] if len(got) < len(todo) else {}
            # a process that has hung again and again is given less time
            if time.time() - last > cur.get("_stall", stall) / (1 if hangs < 3 else 8 if hangs < 10 else 30):
                hangs += 1
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                new, pos, rest = _read_lines(name + ".out", pos, rest)
                got += new
                if len(got) < len(todo):
                    dead = {"r": "hang"}
                break
            time.sleep(0.005 if time.time() - last < 1 else 0.05)
        try:
            resp = [json.loads(x) for x in got]
        except ValueError as e:
            raise ToolError("driver wrote garbage: %s" % e)
        for s, r in zip(setup, resp):
            if r.get("r") != "ok":
                raise SetupFailed(s, r)
        if stopped:
            out += resp[len(setup):]
            out += [{"r": "skipped"}] * (len(cmds) - len(out))
            break
        if dead is not None and len(resp) < len(setup):
            raise SetupFailed(setup[len(resp)], dead)
        out += resp[len(setup):]
        for e in (".in", ".out", ".err"):
            try:
                os.unlink(name + e)
            except FileNotFoundError:
                pass
        if dead is not None:
            if dead.get("rc") == 70:
                raise ToolError("driver thread panicked: " + dead["m"])
            out.append(dead)
            if stop_on_death:
                break
    for r in out:
        if isinstance(r, dict) and (r.get("r") == "harness" or "harness:" in str(r.get("m", ""))):
            raise ToolError("driver: %s" % r)
    return out


class SetupFailed(Exception):
    def __init__(self, cmd, resp):
        Exception.__init__(self, "setup command failed: %s" % resp)
        self.cmd, self.resp = cmd, resp


def run_parallel(binary, cmds, setup=(), shards=CORES, **kw):
    if len(cmds) < 4 * shards:
        shards = 1
    parts = [cmds[i::shards] for i in range(shards)]
    res = [None] * len(cmds)
    scratch()
    with ThreadPoolExecutor(shards) as ex:
        fs = [ex.submit(run_driver, binary, p, setup, tag="s%d" % i, **kw) for i, p in enumerate(parts)]
        for i, f in enumerate(fs):
            res[i::shards] = f.result()
    return res


# -------------------------------------------------------------------- tlc
class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.generated = self.distinct = self.depth = 0
        for l in out.splitlines():
            if "states generated" in l and "distinct states found" in l and l[:1].isdigit():
                w = l.replace(",", "").split()
                self.generated, self.distinct = int(w[0]), int(w[3])
            if l.startswith("The depth of the complete state graph search is"):
                self.depth = int(l.split()[-1].rstrip("."))

    @property
    def ok(self):
        return self.rc == 0 and "Model checking completed. No error has been found" in self.out

    @property
    def violated(self):
        """an invariant, property or assertion of the specification is violated"""
        return self.rc in (10, 11, 12, 13) and not self.ok

    def tagged(self, tag):
        """values printed by PrintT(<<tag, ToJson..>>) as JSON strings"""
        r = []
        pre = '<<"%s", ' % tag
        for l in self.out.split("\n"):
            if l.startswith(pre) and l.endswith(">>"):
                r.append(l[len(pre):-2])
        return r


def tlc(module, cfg, env=None, workers=CORES, timeout=600, heap="6g", extra=(), must=True):
    """Runs TLC on spec/<module>.tla with the text of a configuration."""
    d = tempfile.mkdtemp(dir=scratch())
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-DTLA-Library=" + SPEC,
           "-cp", TLAJAR, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
           "-config", os.path.join(d, module + ".cfg"), "-noGenerateSpecTE"] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    with open(os.path.join(d, "out"), "w") as o:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise ToolError("tlc %s: timeout after %ss" % (module, timeout))
    t = Tlc(rc, open(os.path.join(d, "out"), errors="replace", newline="\n", encoding="utf-8").read())
    shutil.rmtree(d, ignore_errors=True)
    if must and not t.ok:
        raise ToolError("tlc %s failed (rc %d):\n%s" % (module, rc, t.out[-6000:]))
    return t


def write_json(name, obj, lines=False):
    p = os.path.join(scratch(), name)
    with open(p, "w") as f:
        if lines:
            for x in obj:
                f.write(json.dumps(x, ensure_ascii=False) + "\n")
        else:
            json.dump(obj, f, ensure_ascii=False)
    return p


# ---------------------------------------------------------------- verdict
class Check:
    """One run of the check of one property."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.bad = []
        self.cov = {"samples": []}
        self.assumptions = []
        self.known = []
        self._seen_known = []
        self._binary = None
        kf = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(kf):
            for l in open(kf):
                if l.startswith("KNOWN-FINDING: property=%s " % prop):
                    self.known.append(l.strip())

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def binary(self):
        if self._binary is None:
            self._binary = build()
        return self._binary

    def sub(self, name):
        return random.Random("%s/%d/%s" % (self.prop, self.seed, name))

    def count(self, k, v):
        self.cov[k] = self.cov.get(k, 0) + v

    def states(self, t):
        self.count("states", t.distinct)
        self.count("transitions", t.generated)

    def sample(self, x, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def violation(self, what, **data):
        self.bad.append(dict(what=what, **data))

    def known_finding(self, key):
        """reports the listed finding with this key; False if it is not listed"""
        for l in self.known:
            if "[%s]" % key in l:
                if l not in self._seen_known:
                    self._seen_known.append(l)
                return True
        return False

    def finish(self, level):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for l in self._seen_known:
            print(l)
        if not self.bad:
            print("property %s held on everything explored (%.1fs)" % (self.prop, time.time() - self.t0))
            return 0
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, self.seed))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed,
                       "count": len(self.bad), "violations": self.bad[:50]}, f, indent=1, ensure_ascii=False)
        for b in self.bad[:5]:
            print("  " + json.dumps(b, ensure_ascii=False)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


def unhx(s):
    return bytes.fromhex(s).decode("utf-8")
