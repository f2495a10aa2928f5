"""P16: verify"""
from common import *
from flavors import KEYED, PLAIN

SYM = {"LT": "<", "GT": ">", "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!="}


def usable(v):
    try:
        v.decode()
    except UnicodeDecodeError:
        return False
    return v != b"" and not any(ch in v for ch in b"<>=!,")


def pick(rng, n, whole):
    """n ascending classes, each with a member that can be written as a demanded value"""
    while True:
        f = rng.choice(PLAIN if whole else KEYED)
        cl = [c for c in f[2] if any(usable(v) for v in c)]
        if len(cl) >= n:
            idx = sorted(rng.sample(range(len(cl)), n))
            return f[1], [cl[i] for i in idx]


def demand(rng, ds, classes):
    vals = [rng.choice([v for v in classes[d["v"] - 1] if usable(v)]).decode() for d in ds]
    if rng.random() < 0.5:
        return "".join(SYM[d["op"]] + v for d, v in zip(ds, vals))
    return ",".join(d["op"] + "," + v for d, v in zip(ds, vals))


PATS = [("prefix,ok", [b"ok", b"okay"], [b"no", b"", b"ko"]), ("exact,good", [b"good"], [b"bad", b"goo", b"goods"]),
        ("not.exact,bad", [b"x", b"", b"badly"], [b"bad"]), ("regex,^[0-9]+$", [b"0", b"123"], [b"", b"12a"]),
        ("infix,mm", [b"mm", b"amma"], [b"mam", b"m"]), ("length,3", [b"abc"], [b"ab", b""])]


def case(rng, k, times=1):
    fs = k["files"]
    top = max([1] + [r["k"] for x in fs for r in x["rows"]] + [d["v"] for d in k["first"] + k["last"]])
    pats = any(not r["ok"] for x in fs for r in x["rows"]) or rng.random() < 0.4
    ragged = any(r["w"] != x["w"] for x in fs for r in x["rows"])
    whole = not pats and not ragged and rng.random() < 0.25
    method, classes = pick(rng, top, whole)
    rev = not whole and rng.random() < 0.25
    ranked = classes[::-1] if rev else classes
    argv = ["verify"]
    opts = []
    keycol, patcol = 0, 1
    if k["sort"] == "sort":
        opts.append([rng.choice(["-s", "--sort"])])
    elif k["sort"] == "unique":
        opts.append([rng.choice(["-u", "--unique"])])
    if not whole:
        m = ".".join(x for x in ([method] if method else []) + (["rev"] if rev else []))
        opts.append([rng.choice(["-k", "--key"]), "1" + ("," + m if m else "")])
    if k["first"]:
        opts.append([rng.choice(["-f", "--first"]), demand(rng, k["first"], ranked)])
    if k["last"]:
        opts.append([rng.choice(["-l", "--last"]), demand(rng, k["last"], ranked)])
    if k["limit"] != 5 or rng.random() < 0.2:
        opts.append([rng.choice(["-r", "--report"]), str(k["limit"])])
    ps = []
    if pats:
        ps = [rng.choice(PATS)]
        opts.append([rng.choice(["-p", "--pattern"]), "2," + ps[0][0]])
        if rng.random() < 0.4:
            ps.append(rng.choice(PATS))
            opts.append([rng.choice(["-p", "--pattern"]), "3," + ps[1][0]])
    # order among keys and patterns does not matter here
    rng.shuffle(opts)
    for o in opts:
        argv += o
    ncol = 1 if whole else 1 + len(ps) + rng.randint(0 if ps or not ragged else 1, 2)
    if ragged and ncol <= 1 + len(ps):
        ncol += 1
    files = {}
    for n, x in enumerate(fs):
        rows = []
        for j, r in enumerate(x["rows"]):
            row = [b"f%d" % y for y in range(ncol)]
            row[0] = rng.choice(ranked[r["k"] - 1])
            wrong = None if r["ok"] else rng.randrange(len(ps))
            for y, p in enumerate(ps):
                row[1 + y] = rng.choice(p[2] if wrong == y else p[1])
            if r["w"] != x["w"]:
                # too short (never cutting into a pattern) or too long
                row = row[:-1] if rng.random() < 0.5 and len(row) > 1 + len(ps) else row + [b"more"]
            rows += [b"\t".join(row)] * times
        head = (x["rows"] and x["rows"][0]["w"] != x["w"]) or rng.random() < 0.5
        if rows and rows[0] == b"" and not head:
            head = True
        d = ((" CDX\t" + "\t".join("n%d" % y for y in range(ncol)) + "\n").encode() if head else b"") + b"".join(r + b"\n" for r in rows)
        if rows and rows[-1] and not rows[-1].endswith(b"\t") and rng.random() < 0.15:
            d = d[:-1]
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.05 else d
        argv.append("f%d" % n)
    if rng.random() < 0.04:         # the same files again and again
        argv += list(files) * rng.choice([3, 8, 12, 40])
    if pats:
        # a pattern cannot be resolved against an empty file
        pass
    return Job(argv, files), {"status": 0 if k["ok"] else "fail", "out": b""}


def given(rng):
    top = rng.randint(1, 5)
    files = []
    srt = rng.choice(["no", "sort", "sort", "unique"])
    good = rng.random() < 0.5
    for _ in range(rng.choice([1, 1, 2, 3])):
        ks = [rng.randint(1, top) for _ in range(rng.randint(0, 12))]
        if srt != "no" and rng.random() < 0.8:
            ks.sort()
            if srt == "unique":
                ks = sorted(set(ks))
            if ks and rng.random() < 0.4:
                ks[rng.randrange(len(ks))] = rng.randint(1, top)
        files.append({"w": 1, "rows": [{"k": x, "ok": good or rng.random() < 0.9, "w": 1 if good or rng.random() < 0.93 else 2} for x in ks]})
    ops = list(SYM)

    def dem():
        return [{"op": rng.choice(ops), "v": rng.randint(1, top)} for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    return {"files": files, "sort": srt, "first": dem(), "last": dem(), "limit": rng.choice([0, 1, 2, 5, 100])}


def p16(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Verify", {"MaxLines": c.pick(2, 3), "Ranks": "{1, 2, 3}", "Ops": '{"LT", "LE", "GT", "GE", "EQ", "NE"}'},
                       ["Right", "Emit"], [given(rng) for _ in range(c.pick(2500, 20000))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    yes = [k for k in cases if k["ok"]]
    no = [k for k in cases if not k["ok"]]
    n = c.pick(3500, 30000)
    replay(c, [case(rng, k) for k in cover(rng, yes, n) + cover(rng, no, n)], "verify")
    scale_laws(c)
    some = [k for k in cases if k["sort"] != "unique" and len(k["files"]) < 3]
    some = [dict(k, limit=rng.choice([k["limit"], 10 ** 5])) for k in some]
    # as many faults as a small counter can count before it is back at zero
    bad = [dict(k, limit=10 ** 5) for k in no if k["sort"] == "no" and not k["first"] and not k["last"] and len(k["files"]) == 1]
    replay(c, [case(rng, k, 256) for k in cover(rng, bad, 30)], "verify with many faults")
    replay(c, [case(rng, k, factor(rng, sum(len(x["rows"]) for x in k["files"]))) for k in cover(rng, some, c.pick(100, 800))], "verify of long files")


if __name__ == "__main__":
    go({"P16": p16})
