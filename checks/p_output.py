"""P30: status 0 means that all input was read and all output arrived (spec/Output.tla)."""
from common import *

U = 2048                 # bytes per unit of the model: its buffer of 4 is the real one of 8192
LIMITED = "trap '' XFSZ; exec prlimit --fsize=%d -- \"$0\" \"$@\" > out 2> /dev/null"
PIPED = "trap '' XFSZ; prlimit --fsize=%d -- \"$0\" \"$@\" 2> /dev/null %s | cat; exit ${PIPESTATUS[0]}"
GONE = "exec 3> >(exit 0); wait $!; exec \"$0\" \"$@\" >&3"
HEADED = "\"$0\" \"$@\" | head -c %d > out; exit ${PIPESTATUS[0]}"


def lines_of(rng, pieces, unit):
    o = []
    for i, p in enumerate(pieces):
        left = p * unit
        k = 0
        whole = rng.random() < 0.5
        while left > 0:
            n = left if whole or left < 60 else min(left, rng.choice([20, 40, 200, 1000]))
            if 0 < left - n < 20:
                n = left
            key = b"k%03d_%05d" % (i, k)
            o.append(key + b"\t" + b"x" * (n - len(key) - 2) + b"\n")
            left -= n
            k += 1
    return o


# name: (lines -> argv, files), reads all of its input
def one(*argv):
    return lambda rng, ls: (list(argv) + ["f"], {"f": b"".join(ls)})


def two(*argv):
    return lambda rng, ls: (list(argv) + ["f", "g"], {"f": b"".join(ls[:len(ls) // 2]), "g": b"".join(ls[len(ls) // 2:])})


def both(*argv):
    return lambda rng, ls: (list(argv) + ["f", "g"], {"f": b"".join(ls), "g": b"".join(ls)})


def header(t):
    def f(rng, ls):
        argv, files = t(rng, ls)
        return argv, {k: b" CDX\ta%s\tb%s\n" % (k.encode(), k.encode()) + v for k, v in files.items()}
    return f


def sums(rng, ls):
    return ["calc", "f"], {"f": b"".join(b"%d+%d\n" % (len(x), i) for i, x in enumerate(ls))}


def many(rng, ls):
    n = sum(len(x) for x in ls) // 16 + 1
    return ["filegen", "-n", str(n), "-c", "count,1000000", "-c", "grid"], {}


def search(rng, ls):
    return ["binsearch", "-H", "none", "--context", "100000,100000", "--", ls[len(ls) // 2].split(b"\t")[0].decode(), "f"], {"f": b"".join(ls)}


TOOLS = {
    "cat": (one("cat"), True), "cat numbered": (one("cat", "-n", "num,1,begin"), True), "cat two": (two("cat"), True), "cat checked": (header(one("cat")), True),
    "cut": (one("cut", "-f", "2,1"), True), "cut named": (header(one("cut", "-f", "bf,af")), True),
    "cgrep": (one("cgrep", "-p", "1,prefix,k"), True), "cgrep not": (one("cgrep", "-v", "-p", "1,prefix,z"), True),
    "sort": (one("sort"), True), "sort key": (one("sort", "-k", "2"), True), "sort unique": (one("sort", "-u"), True),
    "sort two": (two("sort"), True), "merge": (two("sort", "-m"), True), "sort header": (header(one("sort")), True),
    "uniq": (one("uniq", "-k", "1"), True), "uniq counted": (one("uniq", "-k", "1", "-c", "x,begin"), True),
    "uniq last": (one("uniq", "-k", "1", "-w", "last"), True), "uniq aggregated": (one("uniq", "-k", "1", "-a", "2,min"), True),
    "uniq header": (header(one("uniq")), True),
    "transpose": (one("transpose"), True), "paste": (both("paste"), True), "join": (both("join"), True), "join header": (header(both("join")), True),
    "sample": (one("sample", "-s", "100000"), True), "sample range": (one("sample", "-r", "1-100000"), True), "sample for": (one("sample", "-f", "1,1,100000"), True),
    "wc": (one("wc"), True), "wc two": (two("wc", "-lwcb"), True), "tabs": (one("tabs"), False), "tabs two": (two("tabs"), False),
    "calc": (sums, True), "filegen": (many, False), "binsearch": (search, False), "verify": (one("verify"), True),
}


def prefix_of(ref):
    return lambda x: None if x is not None and ref.startswith(x) else "the output is no prefix of what was to be written"


def status_judge(verdict, extra, loud=True):
    def judge(r):
        if verdict == "1" and r.status == 0:
            return "succeeded"
        if verdict == "1" and loud and not r.err:
            return "failed without a message"
        if verdict == "0" and r.status != 0:
            return "failed (status %d)" % r.status
        if verdict == "0" and r.err:
            return "complained"
        return extra(r)
    return judge


def damage(rng, data):
    """a compressed file which cannot be read to its end"""
    z = bytearray(gzip.compress(data, rng.choice([1, 9]), mtime=0))
    how = rng.choice(["cut", "cut", "crc", "size", "junk"])
    if how == "cut":
        z = z[:rng.randint(4, len(z) - 1)]
    elif how == "crc":
        z[-8 + rng.randint(0, 3)] ^= 1 << rng.randint(0, 7)
    elif how == "size":
        z[-4 + rng.randint(0, 3)] ^= 1 << rng.randint(0, 7)
    else:
        z += b"\x1f\x8b\x08" + bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 9)))
    return bytes(z)


def plain_case(rng, k, name):
    """-> (reference job, function from its output to the (job, want) of this behaviour)"""
    make, reads = TOOLS[name]
    if not k["pieces"] and name in ("join", "join header", "binsearch", "tabs", "tabs two", "verify", "wc", "wc two"):
        return None
    ls = lines_of(rng, k["pieces"], U if rng.random() < 0.7 else rng.choice([24, 100, 300, 5 * U]))
    argv, files = make(rng, ls)
    if "verify" in name and k["lim"][0] < k["size"][0]:
        return None                   # nothing to be written
    sound = k["src"] >= len(k["pieces"])
    if not sound:
        if not reads or not files:
            return None
        if k["gone"]:
            return None
        n = rng.choice(sorted(files))
        bad = dict(files)
        how = rng.random()
        if how < 0.75:
            bad[n] = damage(rng, files[n])
            return Job(argv, files), lambda ref: (Job(argv, bad), {"judge": status_judge("1", lambda r: None)})
        lost = [("nosuch" if how < 0.87 else ".") if a == n else a for a in argv]
        return Job(argv, files), lambda ref: (Job(lost, files), {"judge": status_judge("1", lambda r: None)})
    whole, lim = k["size"][0], k["lim"][0]

    def finish(ref):
        N = len(ref)
        wrap = lambda script, outs: Job(["-c", script, CDX] + argv, files, exe="/bin/bash", outs=outs)
        if k["gone"]:
            if lim == 0 or rng.random() < 0.3:
                return wrap(GONE, []), {"judge": status_judge("0", lambda r: None)}
            m = lim * N // max(whole, 1)
            return wrap(HEADED % m, ["out"]), {"judge": status_judge("0", lambda r: None if r.files[0] == ref[:m] else "the reader got something else")}
        if lim >= whole:
            K = N + rng.choice([0, 0, 1, (lim - whole) * U])
            return (wrap(LIMITED % K, ["out"]),
                    {"judge": status_judge("0", lambda r: None if r.files[0] == ref else "the output is not complete")})
        if N == 0:
            return None
        if lim == 0 and rng.random() < 0.5:
            return wrap("exec \"$0\" \"$@\" > /dev/full", []), {"judge": status_judge("1", lambda r: None)}
        K = max(0, min(N - 1, lim * N // whole + rng.choice([-1, 0, 1, N])))
        return wrap(LIMITED % K, ["out"]), {"judge": status_judge("1", lambda r: prefix_of(ref)(r.files[0]), loud=False)}
    return Job(argv, files), finish


def split_case(rng, k):
    """join: what matches to standard output, what does not to a file"""
    if k["src"] < len(k["pieces"]):
        return None
    ls = lines_of(rng, k["pieces"], rng.choice([24, 100, U]))
    if not ls:
        return None
    odd = [x for x in ls if int(x[1:4]) % 2 == 0]
    rest = b"".join(x for x in ls if int(x[1:4]) % 2)
    second = rng.random() < 0.5
    files = {"f": b"".join(ls), "g": b"".join(x.split(b"\t")[0] + b"\n" for x in odd)}
    argv = ["join", "f", "g"]
    if second:
        argv = ["join", "g", "f"]
    argv += ["--also", "%d,rest" % (2 if second else 1)]
    want = b"".join(odd)
    fits = [k["lim"][i] >= k["size"][i] for i in (0, 1)]
    wrap = lambda script: Job(["-c", script, CDX] + argv, files, exe="/bin/bash", outs=["rest"])
    if k["gone"]:
        if not fits[1]:
            return None
        return wrap(GONE), {"judge": status_judge("0", lambda r: prefix_of(rest)(r.files[0]))}
    out = "" if fits[0] else "> /dev/full"
    K = len(rest) if fits[1] else min(len(rest) - 1, max(0, k["lim"][1] * len(rest) // k["size"][1] + rng.choice([-1, 0, len(rest)])))
    if not fits[1] and not rest or not fits[0] and not want:
        return None

    if rng.random() < 0.4:            # both to files
        argv += ["-f", "matched"]
        short = [min(len(x) - 1, k["lim"][i] * len(x) // k["size"][i]) for i, x in enumerate((want, rest)) if not fits[i]]
        K = min(short) if short else max(len(want), len(rest))
        job = Job(["-c", PIPED % (K, ""), CDX] + argv, files, exe="/bin/bash", outs=["rest", "matched"])
        return job, {"judge": status_judge(k["verdict"], lambda r: (None if short or (r.files[0], r.files[1]) == (rest, want) else "the output is not complete")
                                           or prefix_of(rest)(r.files[0]) or prefix_of(want)(r.files[1]), loud=False)}

    def arrived(r):
        if fits[0] and fits[1] and (r.files[0] != rest or r.out != want):
            return "the output is not complete"
        return prefix_of(rest)(r.files[0]) or (None if not fits[0] else prefix_of(want)(r.out))
    return wrap(PIPED % (K, out)), {"judge": status_judge(k["verdict"], arrived, loud=False)}


def spool(c, cases, n):
    rng = c.rng
    reqs, meta = [], []
    for k in cover(rng, cases, n):
        # up to lines which do not fit the buffer
        ls = lines_of(rng, k["pieces"], rng.choice([24, 100, U, 5 * U]))
        if not ls:
            continue
        total = sum(len(x) for x in ls)
        want = b"".join(ls)
        rng.shuffle(ls)
        K = total if k["lim"][1] >= k["size"][1] else k["lim"][1] * total // k["size"][1]
        longest = max(len(x) for x in ls)
        budget = 2 * rng.choice([longest, 2 * longest, longest + rng.randint(0, total), total // 2 + 1, total // 3 + 1])
        reqs.append([b"sorterlim", b"%d" % K, b"%d" % budget, b"0", b"1", b"".join(ls)])
        meta.append((K, total, want))
    done = {"ok": 0, "err": 0}
    for q, (kind, v), (K, total, want) in zip(reqs, run_lib(reqs, nthreads=1), meta):
        info = {"limit": K, "max_alloc": q[2].decode(), "file": q[5].decode()[:3000]}
        if kind not in done:
            c.violation("sort with temporary files limited to %d: %s" % (K, kind), info)
            continue
        done[kind] += 1
        if kind == "ok" and v[0] != want:
            c.violation("sort with temporary files limited to %d bytes succeeded, but its output is wrong" % K, dict(info, got=v[0].decode("latin-1")[:3000]))
        if kind == "err" and K >= total:
            c.violation("sort with room for its temporary files failed: " + v[0].decode(), info)
    c.traces(len(reqs))
    c.count("spools_ok", done["ok"])
    c.count("spools_failed", done["err"])


def p30(c):
    build(lib=True)
    rng = c.rng
    consts = {"Cap": 4, "MaxPieces": c.pick(3, 4), "MaxPiece": c.pick(3, 3), "Flushing": "TRUE"}
    cases = behaviours(c, "Output", consts, ["Honest", "Works", "Leaves", "Prefix", "Judged", "Emit"], props=["Terminates"])
    # the specification tells the tool that does not flush from the one that does
    r = tlc("Output", "SPECIFICATION Spec\nCONSTANTS\nCap = 4\nMaxPieces = 2\nMaxPiece = 3\nFlushing = FALSE\nINVARIANTS Honest\nCHECK_DEADLOCK FALSE\n",
            c.scratch, extra={"given.ndjson": ""})
    if "Invariant Honest is violated" not in r.text:
        raise ToolError("the unflushed variant is not refused:\n" + r.log[-2000:])
    c.count("abstract_cases", len(cases))
    plain = [k for k in cases if k["kind"] == "plain"]
    names = sorted(TOOLS)
    todo = []
    for i, k in enumerate(cover(rng, plain, c.pick(6000, 40000))):
        x = plain_case(rng, k, names[i % len(names)])
        if x:
            todo.append(x)
    refs = run_jobs([j for j, _ in todo], c.scratch)
    items = []
    for (j, finish), r in zip(todo, refs):
        if r.status != 0 or r.panicked:
            c.violation("failed with room for everything: " + j.shell()[:300], {"job": j.describe(), "status": r.status, "stderr": lat(r.err)})
            continue
        x = finish(r.out)
        if x:
            items.append(x)
    replay(c, items, "limited")
    split = [k for k in cases if k["kind"] == "split"]
    replay(c, [x for x in (split_case(rng, k) for k in cover(rng, split, c.pick(2500, 16000))) if x], "split")
    spool(c, [k for k in cases if k["kind"] == "spool" and k["src"] >= len(k["pieces"]) and not k["gone"]], c.pick(1500, 10000))


if __name__ == "__main__":
    go({"P30": p30})
