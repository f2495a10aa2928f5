"""P13: paste.  P19: transpose"""
from common import *


def nm(n):
    return LETTERS[n[0] - 1] + "".join(str(x) for x in n[1:])


def head_line(names):
    return (" CDX\t" + "\t".join(names) + "\n").encode()


def paste_case(rng, k):
    argv = ["paste"]
    if k["mode"] != "exact" or rng.random() < 0.3:
        m = k["mode"]
        argv += [rng.choice(["-e", "--end"]), m.capitalize() if rng.random() < 0.5 else m]
    if k["last"]:
        argv += [rng.choice(["-l", "--last"])]
    if k["dups"] != "fail":
        argv += [rng.choice(["-D", "--dups"]), k["dups"].capitalize()]
    rs = [nm(r["from"]) + "." + nm(r["to"]) for r in k["ren"]]
    while rs:
        n = rng.randint(1, len(rs))
        argv += [rng.choice(["-r", "--rename"]), ",".join(rs[:n])]
        rs = rs[n:]
    if k["sloppy"]:
        argv += [rng.choice(["-R", "--rename-sloppy"])]
    fs = k["files"]
    widths = [len(x["names"]) for x in fs]
    # an empty file has no columns
    widths = [0 if not x["h"] and x["n"] == 0 else w for w, x in zip(widths, fs)]
    total = sum(widths)
    dflt = [b""] * total
    wrong = False
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        if not total:
            break
        v = rng.choice(["", "-1", "none", "NA x", "é"])
        if v == "" or rng.random() < 0.5:
            a = rng.randint(1, total)
            z = rng.randint(a, total)
            spec = rng.choice(["%d" % a, "%d-%d" % (a, z), "%d-" % a])
            cols = {"%d" % a: range(a - 1, a), "%d-%d" % (a, z): range(a - 1, z), "%d-" % a: range(a - 1, total)}[spec]
            if k["head"] and k["dups"] != "allow" and rng.random() < 0.3:
                spec, cols = nm(k["head"][a - 1]), range(a - 1, a)
            if v == "":
                continue
            val = v + "," + spec
        else:
            cols = range(total)
            val = v
        for x in cols:
            dflt[x] = v.encode()
        if rng.random() < 0.03:
            # a column that is not there
            val = (v or "x") + "," + rng.choice(["%d" % (total + rng.choice([1, 1, 2, 30])), "nosuch", "1,%d" % (total + 1), "0"])
            wrong = True
        argv += ["--default=" + val]
    files = {}
    rows = []
    for n, x in enumerate(fs):
        ls = []
        for i in range(x["n"]):
            w = len(x["names"])
            if rng.random() < 0.1 and (i or x["h"]):
                w = max(1, w + rng.choice([-1, 1]))
            r = b"\t".join(rng.choice([b"v%d.%d.%d" % (n, i, j), b"", b"some text"]) for j in range(w))
            ls.append(r if r or i else b"q")
        rows.append(ls)
        d = (head_line([nm(c) for c in x["names"]]) if x["h"] else b"") + b"".join(r + b"\n" for r in ls)
        if ls and ls[-1] and rng.random() < 0.1:
            d = d[:-1]
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.05 else d
        argv.append("f%d" % n)
    out = head_line([nm(x) for x in k["head"]]) if k["head"] else b""
    for r in k["rows"]:
        cells = []
        base = 0
        for n, v in enumerate(r):
            if v:
                cells.append(rows[n][v - 1])
            else:
                cells.append(b"\t".join(dflt[base:base + widths[n]]))
            base += widths[n]
        out += b"\t".join(cells) + b"\n"
    return Job(argv, files), ({"status": 0, "out": out} if k["ok"] and not wrong else {"status": "fail"})


def paste_given(rng):
    n = rng.randint(1, 5)
    allhead = rng.random() < 0.75
    base = rng.randint(0, 6)
    eq = rng.random() < 0.5
    files = []
    for i in range(n):
        h = allhead or rng.random() < 0.3
        w = rng.randint(1, 4)
        pool = range(1, 7) if rng.random() < 0.5 else range(1 + i * 4, 5 + i * 4)
        names = [[x] for x in rng.sample([x for x in pool if x <= 24], w)]
        if rng.random() < 0.1:
            names[-1] = [names[0][0], 1] if len(names) > 1 else names[-1]
        k = base if eq else max(0, base + rng.choice([-2, -1, 0, 0, 1, 2]))
        files.append({"h": h, "names": names, "n": k})
    ren = []
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 3)):
            ren.append({"from": [rng.randint(1, 6)], "to": [rng.randint(20, 26)]})
    return {"files": files, "mode": rng.choice(["exact", "early", "late", "late"]), "last": rng.random() < 0.4,
            "dups": rng.choice(["fail", "numeric", "numeric", "allow"]), "ren": ren, "sloppy": rng.random() < 0.6}


def paste_many(rng):
    """many files with the same names"""
    files = [{"h": True, "names": rng.sample([[1], [2], [3]], rng.randint(1, 3)), "n": 1} for _ in range(rng.randint(8, 30))]
    if rng.random() < 0.5:
        for f in files:
            f["n"] = rng.choice([0, 1, 1, 2])
    if rng.random() < 0.7:            # a name that is in the way
        files[0]["names"].append([rng.randint(1, 3), rng.randint(1, 12)])
    return {"files": files, "mode": rng.choice(["exact", "early", "late", "late"]), "last": rng.random() < 0.2,
            "dups": rng.choice(["numeric", "numeric", "numeric", "allow"]), "ren": [], "sloppy": False}


def p13(c):
    build()
    rng = c.rng
    given = [paste_given(rng) for _ in range(c.pick(3000, 25000))] + [paste_many(rng) for _ in range(c.pick(60, 400))]
    cases = behaviours(c, "Paste", {"MaxFiles": 3, "MaxLines": c.pick(2, 3)}, ["RowsRight", "FailRight", "ExactRight", "HeadRight", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    replay(c, [paste_case(rng, k) for k in cover(rng, cases, c.pick(7000, 60000)) + 3 * [k for k in cases if len(k["files"]) > 7]], "paste")


def trans_case(rng, k):
    f = k["file"]
    argv = ["transpose"]
    head = rng.random() < 0.4
    if head:
        argv.append(rng.choice(["--head"]))
    if k["limit"] <= len(f["rows"]) or rng.random() < 0.3:
        argv += [rng.choice(["-n", "--lines"]), str(k["limit"])]
    names = ["h%d" % i for i in range(1, f["w"] + 1)]
    rows = [[rng.choice([b"v%d.%d" % (r, j), b"", b"a b"]) for j in range(w)] for r, w in enumerate(f["rows"])]
    for r in rows:
        if r == [b""]:
            r[0] = b"e"
    d = (head_line(names) if f["h"] else b"") + b"".join(b"\t".join(r) + b"\n" for r in rows)
    if rows and rows[-1][-1] and rng.random() < 0.1:
        d = d[:-1]
    out = b" CDX\t" if head else b""
    for line in k["out"]:
        out += b"\t".join(b"" if not c else names[c[1] - 1].encode() if c[0] == 0 else rows[c[0] - 1][c[1] - 1] for c in line) + b"\n"
    if rng.random() < 0.3:
        return Job(argv, stdin=d), {"status": 0, "out": out}
    return Job(argv + ["f"], {"f": gzip.compress(d, 1, mtime=0) if rng.random() < 0.06 else d}), {"status": 0, "out": out}


def p19(c):
    build()
    rng = c.rng
    given = []
    for _ in range(c.pick(1500, 10000)):
        w = rng.randint(1, 12) if len(given) > c.pick(5, 30) else rng.choice([255, 256, 257, 300])
        rs = [max(1, w + rng.choice([0, 0, 0, 0, -1, 1, -3, 4])) for _ in range(rng.randint(0, 15))]
        h = rng.random() < 0.6 or not rs
        if not h:
            rs[0] = w
        given.append({"file": {"h": h, "w": w, "rows": rs}, "limit": rng.choice([100, 100, rng.randint(0, 16)])})
    for n in c.pick([257, 700, 1100, 2050], [255, 256, 1000, 1023, 1024, 1025, 2100, 4100]):      # long files
        given.append({"file": {"h": rng.random() < 0.5, "w": 2, "rows": [2] + [rng.choice([1, 2, 2, 3]) for _ in range(n - 1)]}, "limit": rng.choice([10 ** 6, n, n - 1, n + 1])})
    cases = behaviours(c, "Transpose", {"MaxW": 3, "MaxLines": c.pick(3, 4)}, ["Right", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    replay(c, [trans_case(rng, k) for k in cover(rng, cases, c.pick(4000, 30000)) + [k for k in cases if len(k["file"]["rows"]) > 200]], "transpose")


if __name__ == "__main__":
    go({"P13": p13, "P19": p19})
