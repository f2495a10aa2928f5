"""P23: reading does not depend on how the bytes arrive"""
from common import *
import array, fcntl, termios, threading
from concurrent.futures import ThreadPoolExecutor

TOK = {1: b" ", 2: b"C", 3: b"D", 4: b"X", 5: b"\n", 7: b"\t", 8: b"\x1f", 9: b"\x8b", 10: b"\x08"}
LETTERS = [b"a", b"b", b"zz", "é".encode(), b"0", b"q" * 9]


def concrete(rng, k):
    """bytes of the tokens, and the pieces they are delivered in"""
    src = k["src"]
    big = rng.random() < 0.06
    out, bounds = bytearray(), []      # bounds[i]: where a cut after token i may fall
    if k["zip"] == "yes":
        i = 0
        content = bytearray()
        while i < len(src):
            j = i + 3
            part = bytearray()
            at = []
            while j < len(src) and src[j] != 11:
                part += letter(rng, src[j], big)
                j += 1
                at.append(len(part))
            content += part
            z = gzip.compress(bytes(part), rng.choice([0, 1, 6, 9]), mtime=0)
            ended = j < len(src)
            base = len(out)
            if not ended:
                z = z[:rng.randint(3, len(z) - 1)]
            for t in range(i, min(j + 1, len(src))):
                p = t - i + 1
                bounds.append(base + (p if p <= 3 else len(z) if t == j else rng.randint(min(3, len(z)), len(z))))
            out += z
            i = j + 1
        return bytes(content), bytes(out), bounds
    for t in src:
        out += letter(rng, t, big)
        bounds.append(len(out))
    return bytes(out), bytes(out), bounds


def letter(rng, t, big):
    if t != 6:
        return TOK[t]
    if big and rng.random() < 0.3:
        return rng.choice([b"L", b"m"]) * rng.choice([4090, 8191, 8192, 8193, 70000])
    return rng.choice(LETTERS)


def pieces(rng, data, cuts, bounds):
    at = sorted({bounds[x - 1] for x in cuts if x <= len(bounds)} | ({rng.randint(1, len(data)) for _ in range(rng.choice([0, 0, 1, 3]))} if data else set()))
    at = sorted(set(x for x in at if 0 < x < len(data)))
    return [data[a:b_] for a, b_ in zip([0] + at, at + [len(data)])]


hangs = []


def feed(argv, cwd, parts):
    if len(hangs) >= 16:               # enough to report
        return Result(-3, b"", b"", [])
    p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
    res = {}

    def rd(n, f):
        res[n] = f.read()
    ts = [threading.Thread(target=rd, args=x) for x in (("o", p.stdout), ("e", p.stderr))]
    for t in ts:
        t.start()
    buf = array.array("i", [0])
    dead = time.time() + 20
    try:
        for x in parts:
            p.stdin.write(x)
            while p.poll() is None and time.time() < dead:   # until the reader has taken this piece
                fcntl.ioctl(p.stdin, termios.FIONREAD, buf)
                if buf[0] == 0:
                    break
                time.sleep(0.0002)
    except (BrokenPipeError, ConnectionResetError):
        pass
    try:
        p.stdin.close()
    except OSError:
        pass
    try:
        p.wait(timeout=20)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        for t in ts:
            t.join()
        hangs.append(1)
        return Result(-2, b"", b"", [])
    for t in ts:
        t.join()
    return Result(p.returncode, res["o"], res["e"], [])


# commands whose output is the content, and commands whose output must not depend on the arrival
ALL = [["cat"], ["sample", "-s", "100000"], ["sample", "--range", "1-9999"], ["cgrep", "-p", "1,glob,*"]]
OTHER = [["cut", "-f", "1"], ["sort", "-k", "1"], ["sort", "-k", "1", "-u"], ["uniq", "-k", "1"], ["uniq", "-k", "1", "-c", "n"], ["wc", "-l", "-b", "-c", "-w"],
         ["cat", "-b"], ["cat", "-e"], ["cgrep", "-p", "1,length,1,1"], ["transpose"], ["verify"], ["sort", "-c"],
         ["sort", "-m", "-k", "1", "-", "one"], ["paste", "-", "one"], ["join", "-", "one"], ["join", "one", "-"], ["cat", "one", "-"], ["cut", "-f", "1", "-", "one"], ["wc", "-l", "--total", "yes", "-"]]


def given(rng):
    def content():
        s = []
        if rng.random() < 0.6:
            s += [1, 2, 3, 4][:rng.choice([1, 2, 3, 4, 4, 4, 4, 4])]
            if len(s) == 4 and rng.random() < 0.9:
                s += [7, 6, 5]
        for _ in range(rng.randint(0, 5)):
            s += [rng.choice([6, 6, 6, 1]) for _ in range(rng.randint(0, 3))] + [5]
        if rng.random() < 0.3 and s and s[-1] == 5:
            s.pop()
        return s
    s = content()
    if rng.random() < 0.5:
        ends = sorted(rng.sample(range(1, len(s)), rng.randint(0, min(3, len(s) - 1)))) if len(s) > 1 else []
        z = []
        for a, e in zip([0] + ends, ends + [len(s)]):
            z += [8, 9, 10] + s[a:e] + [11]
        s = z[:-1] if rng.random() < 0.08 else z
    elif rng.random() < 0.1:
        s = rng.choice([[8], [8, 9], [8, 9, 6], [8, 5], [8, 9, 5], [9, 8, 10]]) + s
    cuts = sorted(rng.sample(range(1, len(s)), rng.randint(0, len(s) - 1))) if len(s) > 1 else []
    if rng.random() < 0.4:
        cuts = [x for x in cuts if x < 8]
    return {"src": s, "cuts": cuts}


CHAR = {1: "n", 2: "t", 3: "s", 4: "\\", 5: "\n", 6: "\t", 7: " "}


def in_place(c, rng):
    """the content is given on the command line"""
    def text(n):
        return [rng.choice([1, 2, 3, 4, 4, 4, 5, 6, 7, 8, 9, 10, 11]) for _ in range(n)]

    def encode(t):
        return [y for x in t for y in ([4, x - 4] if x in (5, 6, 7) and rng.random() < 0.7 else [4, x] if x == 4 or x > 7 and rng.random() < 0.1 else [x])]
    head = [7, 12, 13, 14, 6, 8, 6, 9, 5]
    given = []
    for _ in range(c.pick(1500, 10000)):
        t = text(rng.choice([0, 1, 5, 9, 30]))
        given.append({"src": t if rng.random() < 0.3 else encode((head if rng.random() < 0.5 else []) + t)})
    cases = behaviours(c, "Inline", {"MaxLen": c.pick(4, 5), "Chars": "{1, 2, 3, 4, 5, 6, 7, 8}"}, ["Right", "Complete", "Shorter", "Emit"], given, props=["Terminates"])
    more = {8: ["a", "k", "é", "0"], 9: ["b", "zz"], 10: ["r", "N", '"'], 11: ["<", "-", ",", "x" * 20], 12: ["C"], 13: ["D"], 14: ["X"]}
    jobs, plans = [], []
    for k in cover(rng, cases, c.pick(2500, 20000)):
        m = {**CHAR, **{x: rng.choice(v) for x, v in more.items()}}
        src, out = ("".join(m[x] for x in k[w]) for w in ("src", "out"))
        a = rng.choice(ALL + OTHER)
        f = {"f": out.encode(), "one": b"b\nzz\n" if not out.startswith(" CDX") else b" CDX\tother\n" if a[0] in ("paste", "join") else (out.split("\n")[0] + "\nb\nzz\n").encode()}
        for name in ("f", "<<" + src):
            jobs.append(Job([x if x != "-" else name for x in a] + ([] if "-" in a else [name]), f))
        plans.append((a, src, out))
    rs = run_jobs(jobs, c.scratch)
    for n, (a, src, out) in enumerate(plans):
        b0, r = rs[2 * n], rs[2 * n + 1]
        bad = None
        if b0.status == -3 or r.status == -3:
            continue
        if r.status < 0 or r.panicked:
            bad = "crashed or did not end"
        elif (r.status == 0) != (b0.status == 0) or r.status == 0 and r.out != b0.out:
            bad = "not the same as from a file with that content"
        elif r.status == 0 and a in ALL and r.out.decode() != (out if out.endswith("\n") or not out else out + "\n"):
            bad = "output is not the content"
        if bad:
            c.violation("reading from the command line: %s: cdx %s %r" % (bad, " ".join(a), src),
                        {"argv": a, "text": src, "content": out, "got": lat(r.out, 1000), "file": lat(b0.out, 1000), "status": r.status, "stderr": lat(r.err, 500)})
    c.traces(len(plans))
    c.count("given_in_place", len(plans))


def p23(c):
    build()
    rng = c.rng
    in_place(c, rng)
    consts = {"MaxPlain": c.pick(4, 5), "MaxZip": c.pick(3, 5), "PlainTokens": "{1, 2, 3, 4, 5, 6}", "ZipTokens": "{1, 2, 5, 6}"}
    invs = ["Right", "FailRight", "Settled"]
    cases = behaviours(c, "Reading", consts, invs + ["Emit"], [given(rng) for _ in range(c.pick(1500, 10000))], props=["Terminates"])
    small = {"MaxPlain": c.pick(3, 4), "MaxZip": 2, "PlainTokens": "{1, 2, 3, 4, 5, 6, 8}", "ZipTokens": "{1, 5}"}
    behaviours(c, "Reading", small, invs, [g for g in (given(rng) for _ in range(c.pick(150, 1500))) if len(g["src"]) < 14], spec="FreeSpec", name="ReadingFree")
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if len(k["src"]) > 5]
    zips = [k for k in cases if k["zip"] == "yes"]
    n = c.pick(700, 8000)
    pick = cover(rng, big, n) + cover(rng, zips, n // 3) + cover(rng, cases, n // 2)
    plans = []
    for k in pick:
        content, data, bounds = concrete(rng, k)
        plans.append((k, content, data, pieces(rng, data, k["cuts"], bounds), rng.choice(ALL + OTHER if rng.random() < 0.8 else ALL)))
    def one(content, argv):
        """a companion file with the same header, or lack of one"""
        rows = b"b\nzz\n"
        if content.startswith(b" CDX"):
            return (b" CDX\tother\n" if argv[0] in ("paste", "join") else content.split(b"\n")[0] + b"\n") + rows
        return rows
    # as an uncompressed file
    base = run_jobs([Job([x if x != "-" else "f" for x in a] + ([] if "-" in a else ["f"]), {"f": content, "one": one(content, a)}) for _, content, _, _, a in plans], c.scratch)
    # the same content as a file, compressed where it is
    zipped = run_jobs([Job([x if x != "-" else "f" for x in a] + ([] if "-" in a else ["f"]), {"f": data, "one": one(content, a)}) for _, content, data, _, a in plans], c.scratch)
    d = tempfile.mkdtemp(dir=c.scratch)
    for n, q in enumerate(plans):
        open(d + "/one%d" % n, "wb").write(one(q[1], q[4]))
    with ThreadPoolExecutor(NCPU) as ex:
        piped = list(ex.map(lambda nq: feed([CDX] + [x if x != "one" else "one%d" % nq[0] for x in nq[1][4]], d, nq[1][3]), enumerate(plans)))
    shutil.rmtree(d, ignore_errors=True)
    for (k, content, data, parts, argv), b0, z, p in zip(plans, base, zipped, piped):
        want = None
        if not k["ok"]:
            want = "fail"
        for how, r in (("as a file", z), ("in pieces", p)):
            if r.status == -3 or b0.status == -3:
                continue
            bad = None
            if r.status < 0 or r.panicked:
                bad = "crashed or did not end"
            elif want == "fail":
                if r.status == 0:
                    bad = "a truncated input was accepted"
            elif (r.status == 0) != (b0.status == 0):
                bad = "status %d, as a plain file %d" % (r.status, b0.status)
            elif r.status == 0 and r.out != b0.out:
                bad = "output differs from that for a plain file"
            elif r.status == 0 and argv in ALL:
                # and is what the model says
                text = content if not content or content.endswith(b"\n") else content + b"\n"
                if r.out != text:
                    bad = "output is not the content"
            if bad:
                c.violation("reading %s: %s: cdx %s < %d pieces" % (how, bad, " ".join(argv), len(parts)),
                            {"argv": argv, "pieces": [lat(x, 300) for x in parts], "content": lat(content, 1000), "got": lat(r.out, 1000), "plain": lat(b0.out, 1000),
                             "status": r.status, "plain_status": b0.status, "stderr": lat(r.err, 500)})
    c.traces(2 * len(plans))
    c.count("replayed_in_pieces", len(plans))
    k, content, data, parts, argv = plans[len(plans) // 2]
    c.sample({"argv": argv, "pieces": [lat(x, 100) for x in parts], "content": lat(content, 200)})


if __name__ == "__main__":
    go({"P23": p23})
