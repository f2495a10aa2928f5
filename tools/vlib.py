"""Shared machinery of every check: building, running TLC, running the real code, evidence."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery (not the code under test) failed: exit 2."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_TARGET_DIR=REPO + "/target",
             PATH="/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def sh(cmd, cwd=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build(lib=False):
    """(Re)build the cdx binary, the runner and, on request, the library driver."""
    if not os.path.exists(REPO + "/Cargo.lock") and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", REPO + "/Cargo.lock")
    # cargo decides by mtime: make sure a working tree whose files were replaced by older ones is rebuilt
    stamp_sources()
    rc, out = sh(["cargo", "build", "--offline", "--bin", "cdx"], cwd=REPO)
    if rc != 0:
        raise ToolError("cargo build failed:\n" + out[-3000:])
    bdir = VERIF + "/build"
    os.makedirs(bdir, exist_ok=True)
    src = VERIF + "/runner/runner.rs"
    exe = bdir + "/runner"
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        rc, out = sh(["rustc", "--edition", "2021", "-O", "-o", exe + ".tmp%d" % os.getpid(), src])
        if rc != 0:
            raise ToolError("rustc runner failed:\n" + out[-3000:])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    if lib:
        lock = VERIF + "/driver/Cargo.lock"
        if not os.path.exists(lock):
            txt = open(REPO + "/Cargo.lock").read()
            open(lock, "w").write(txt)
        rc, out = sh(["cargo", "build", "--offline"], cwd=VERIF + "/driver")
        if rc != 0:
            raise ToolError("driver build failed:\n" + out[-3000:])


def stamp_sources():
    """touch the sources if their content differs from what the last build by us saw"""
    h = hashlib.sha256()
    for base in ("src",):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    digest = h.hexdigest()
    sp = REPO + "/target/.verif_src_stamp"
    try:
        old = open(sp).read()
    except OSError:
        old = ""
    if old != digest:
        for f in ("src/lib.rs", "src/bin/cdx/main.rs"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                os.utime(p)
        os.makedirs(REPO + "/target", exist_ok=True)
        open(sp, "w").write(digest)


CDX = REPO + "/target/debug/cdx"
DRV = REPO + "/target/debug/cdxdrv"


def b(x):
    return x if isinstance(x, bytes) else str(x).encode("utf-8")


class Result:
    __slots__ = ("status", "out", "err", "files")

    def __init__(self, status, out, err, files):
        self.status, self.out, self.err, self.files = status, out, err, files

    @property
    def panicked(self):
        return self.status == 101 or b"panicked at" in self.err


class Job:
    """one run of a real executable: argv (cdx subcommand first), files written to its private cwd"""

    def __init__(self, argv, files=None, stdin=None, outs=(), exe=None):
        self.argv = [b(exe or CDX)] + [b(a) for a in argv]
        self.files = {b(k): b(v) for k, v in (files or {}).items()}
        self.stdin = None if stdin is None else b(stdin)
        self.outs = [b(o) for o in outs]

    def describe(self):
        return {"argv": [a.decode("utf-8", "backslashreplace") for a in self.argv],
                "files": {k.decode(): v.decode("latin-1") if len(v) < 4000 else v[:4000].decode("latin-1") + "..."
                          for k, v in self.files.items()},
                "stdin": None if self.stdin is None else self.stdin.decode("latin-1")}

    def shell(self):
        return " ".join(a.decode("utf-8", "backslashreplace") for a in self.argv)


def run_jobs(jobs, scratch, timeout_ms=20000, nthreads=None):
    o = bytearray(struct.pack("<I", len(jobs)))

    def put(s):
        o.extend(struct.pack("<I", len(s)))
        o.extend(s)
    for j in jobs:
        o.extend(struct.pack("<I", len(j.argv)))
        for a in j.argv:
            put(a)
        o.extend(struct.pack("<I", len(j.files)))
        for k, v in j.files.items():
            put(k)
            put(v)
        if j.stdin is None:
            o.extend(struct.pack("<I", 0))
        else:
            o.extend(struct.pack("<I", 1))
            put(j.stdin)
        o.extend(struct.pack("<I", len(j.outs)))
        for n in j.outs:
            put(n)
    d = tempfile.mkdtemp(dir=scratch)
    p = subprocess.run([VERIF + "/build/runner", d, str(nthreads or NCPU), str(timeout_ms)],
                       input=bytes(o), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode != 0:
        raise ToolError("runner failed: " + p.stderr.decode("utf-8", "replace")[-2000:])
    data = p.stdout
    pos = 0
    res = []

    def u():
        nonlocal pos
        v = struct.unpack_from("<I", data, pos)[0]
        pos += 4
        return v

    def s():
        nonlocal pos
        n = u()
        v = data[pos:pos + n]
        pos += n
        return v
    for j in jobs:
        st = struct.unpack_from("<i", data, pos)[0]
        pos += 4
        out = s()
        err = s()
        n = u()
        files = []
        for _ in range(n):
            ex = u()
            c = s()
            files.append(c if ex else None)
        res.append(Result(st, out, err, files))
    return res


def run_lib(reqs, timeout=600, nthreads=None):
    """reqs: list of lists of bytes (op, args...). returns list of (kind, [bytes]) kind ok|err|panic"""
    o = bytearray(struct.pack("<I", len(reqs)))
    for r in reqs:
        o.extend(struct.pack("<I", len(r)))
        for x in r:
            x = b(x)
            o.extend(struct.pack("<I", len(x)))
            o.extend(x)
    p = subprocess.run([DRV, str(nthreads or NCPU)], input=bytes(o), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        raise ToolError("driver failed rc=%d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-2000:]))
    data = p.stdout
    pos = 0
    res = []
    for _ in reqs:
        kind = data[pos]
        pos += 1
        n = struct.unpack_from("<I", data, pos)[0]
        pos += 4
        v = []
        for _ in range(n):
            m = struct.unpack_from("<I", data, pos)[0]
            pos += 4
            v.append(data[pos:pos + m])
            pos += m
        res.append((("ok", "err", "panic", "hang", "skipped")[kind], v if v or kind < 3 else [b""]))
    return res


class TLCResult:
    def __init__(self):
        self.states = self.distinct = 0
        self.prints = []
        self.ok = False
        self.text = ""


def tlc(module, cfg, scratch, workers=None, extra=None, timeout=700, heap="6g", flags=()):
    """Run TLC on spec/<module>.tla with the given cfg text. extra: files put beside the specs."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    for k, v in (extra or {}).items():
        with open(os.path.join(d, k), "wb") as fh:
            fh.write(b(v))
    with open(os.path.join(d, "run.cfg"), "w") as fh:
        fh.write(cfg)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", TLA_CP, "tlc2.TLC",
           "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-workers",
           str(workers or "auto"), "-noGenerateSpecTE", *flags, module + ".tla"]
    e = dict(os.environ)
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    txt = p.stdout.decode("utf-8", "replace")
    r = TLCResult()
    r.text = txt
    keep = []
    for line in txt.split("\n"):
        if line.startswith('"{') or line.startswith('"['):
            try:
                r.prints.append(json.loads(json.loads(line)))
                continue
            except ValueError:
                pass
        keep.append(line)
    r.log = "\n".join(keep)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    r.ok = "Model checking completed. No error has been found." in txt
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_ok(module, cfg, scratch, **kw):
    r = tlc(module, cfg, scratch, **kw)
    if not r.ok:
        raise ToolError("TLC did not accept %s:\n%s" % (module, r.log[-4000:]))
    return r


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[-1] in ("quick", "thorough"):
            self.tier = sys.argv[-1]
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.known = load_known(pid)
        self.known_hit = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.detail = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_tlc(self, r, name=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states
        if name:
            self.detail[name] = {"distinct": r.distinct, "generated": r.states}

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def count(self, name, n=1):
        self.detail[name] = self.detail.get(name, 0) + n

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n

    def violation(self, what, replay):
        """what: short stable key text; replay: dict written out"""
        for k in self.known:
            if k["match"] in what:
                self.known_hit[k["match"]] = k
                return
        self.viol.append((what, replay))

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov, detail=self.detail), "wall_s": round(wall, 2),
              "violations": len(self.viol)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.pid, "w") as fh:
            json.dump(ev, fh, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            os.makedirs(VERIF + "/replays", exist_ok=True)
            path = VERIF + "/replays/%s.json" % self.pid
            with open(path, "w") as fh:
                json.dump([{"what": w, "replay": r} for w, r in self.viol[:25]], fh, indent=1, default=repr)
            print("%s: %d violations; first: %s" % (self.pid, len(self.viol), self.viol[0][0]))
            for w, _ in self.viol[1:8]:
                print("   also: " + w)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("%s ok tier=%s %.1fs %s" % (self.pid, self.tier, wall,
              {k: v for k, v in self.cov.items() if k != "samples"}))
        return 0


def load_known(pid):
    p = VERIF + "/KNOWN_FINDINGS.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("open", []) if k["property"] == pid]


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = c.finish()
    except ToolError as e:
        print("TOOL ERROR (%s): %s" % (pid, e), file=sys.stderr)
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        shutil.rmtree(c.scratch, ignore_errors=True)
        rc = 2
    sys.exit(rc)
