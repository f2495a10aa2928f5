"""P17: wc"""
from common import *

CH = {1: [b"a", b"Z", b"0", b".", b"-"], 2: ["é".encode(), "ß".encode()], 3: ["€".encode(), "→".encode()], 4: ["😀".encode()]}


def nm(n):
    return LETTERS[n[0] - 1]


def text(rng, cell, col):
    return b"".join(b" " if x == 0 else rng.choice(CH[x]) for x in cell)


def num(v):
    """the default number format"""
    if isinstance(v, float) and v != int(v):
        if v < 1000:
            return repr(v).encode()
        s = repr(v).replace(".", "")
        return (s[0] + "." + s[1:] + "e%d" % (len(str(int(v))) - 1)).encode()
    v = int(v)
    if 1 <= v < 1000:
        return b"%d" % v
    s = str(v).rstrip("0")
    return b"0e0" if v == 0 else (s[0] + ("." + s[1:] if len(s) > 1 else "") + "e%d" % (len(str(v)) - 1)).encode()


OPTS = {"lines": ["-l", "--lines", "-a", "count"], "bytes": ["-b", "--bytes", "-a", "asum,chars"],
        "chars": ["-c", "--chars", "-a", "asum,utf8.chars"], "words": ["-w", "--words", "-a", "asum,swords"]}


# per line or cell; what their totals would be is not claimed
EACH = {"least": "amin,utf8.chars", "most": "amax,utf8.chars", "mean": "%s,utf8.chars"}


def tri(rng, v):
    return {"yes": rng.choice(["yes", "Yes", "on", "1", "true"]), "no": rng.choice(["no", "No", "off", "0", "false"]), "maybe": "maybe"}[v]


def case(rng, k, times=1):
    cols = k["kind"] == "columns"
    fs = k["files"]
    argv = ["wc"]
    what = rng.sample(["lines", "bytes", "chars", "words"], rng.randint(0, 4))
    names = []
    opts = []
    for n, w in enumerate(what):
        o = OPTS[w]
        if rng.random() < 0.7:
            opts.append([rng.choice(o[:2])])
            names.append(w)
        else:
            names.append("n%d" % n)
            opts.append(["-a", "n%d,%s" % (n, o[3])])
    if not what:
        what = ["bytes"] if cols else ["lines"]
        names = list(what)
    each = [w for w in rng.sample(list(EACH), rng.randint(1, 3)) if all(r["c"]["lines"] for r in k["rows"])] if rng.random() < 0.25 else []
    for w in each:
        if not opts:
            what, names = [], []
        n = rng.randint(0, len(what))
        what.insert(n, w)
        names.insert(n, "m_" + w)
        opts.insert(n, ["-a", "m_" + w + "," + EACH[w].replace("%s", rng.choice(["amean", "aavg"]))])
    plain = rng.random() < 0.5
    extra = []
    if plain:
        extra.append([rng.choice(["-F", "--format"]), "plain"])
    fmt = (lambda v: b"%d" % v if v == int(v) else repr(v).encode()) if plain else num
    nrows = len(k["rows"]) if cols else len(fs)
    show, head, tot = (rng.choice(["maybe", "maybe", "yes", "no"]) for _ in range(3))
    if each:
        tot = "no"
    fcol = "file"
    only = rng.random() < 0.15 and not each
    if cols and (nrows < 2 or only):
        # whether a lone column, or the total alone, is labelled is not claimed
        show = rng.choice(["yes", "no"])
    if show != "maybe":
        v = tri(rng, show)
        if rng.random() < 0.3 and not cols:
            fcol = "From"
            v += "," + fcol
        extra.append([rng.choice(["-f", "--file"]), v])
    if head != "maybe":
        extra.append(["--with-header", tri(rng, head)])
    if tot != "maybe":
        extra.append([rng.choice(["-t", "--total"]), tri(rng, tot)])
    if only:
        extra.append(["--total", rng.choice(["only", "Only"])])
    if cols:
        extra.append([rng.choice(["-C", "--columns"])])
    rng.shuffle(extra)
    ts = [n for n, o in enumerate(extra) if o[0] in ("-t", "--total")]
    if len(ts) == 2 and extra[ts[1]][1].lower() != "only":       # the last counts
        extra[ts[0]], extra[ts[1]] = extra[ts[1]], extra[ts[0]]
    # counters keep their order, the rest goes anywhere
    cut = rng.randint(0, len(extra))
    for o in extra[:cut] + opts + extra[cut:]:
        argv += o
    sf = show == "yes" or (show == "maybe" and nrows > 1 and not only)
    st = tot == "yes" or (tot == "maybe" and nrows > 1) or only
    sh = head == "yes" or (head == "maybe" and (len(what) > 1 or sf))
    files = {}
    for n, x in enumerate(fs):
        rows = [b"\t".join(text(rng, cl, cols) for cl in r) for r in x["rows"] for _ in range(times)]
        d = ((" CDX\t" + "\t".join(nm(y) for y in x["names"]) + "\n").encode() if x["h"] else b"") + b"".join(r + b"\n" for r in rows)
        if rows and rows[-1] and rng.random() < 0.15:
            d = d[:-1]
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.06 else d
        argv.append("f%d" % n)
    out = b""
    some = any(x["h"] or x["rows"] for x in fs)
    if sh and (cols or some):
        out += (" CDX\t" + "\t".join(([("column" if cols else fcol)] if sf else []) + names) + "\n").encode()
    if not only:
        for r in k["rows"]:
            label = [nm(r["name"]).encode() if cols else b"f%d" % (r["of"] - 1)] if sf else []
            out += b"\t".join(label + [fmt(r["c"]["chars"] / r["c"]["lines"] if w == "mean" else r["c"][w] if w in EACH else r["c"][w] * times) for w in what]) + b"\n"
    if st:
        out += b"\t".join(([b"totals"] if sf else []) + [fmt(k["tot"][w] * times) for w in what]) + b"\n"
    return Job(argv, files), {"status": 0, "out": out}


def given(rng):
    kind = rng.choice(["lines", "columns"])
    files = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        h = kind == "columns" or rng.random() < 0.4
        w = rng.randint(1, 4)
        names = [[x] for x in rng.sample(range(1, 8), w)]
        rows = []
        for _ in range(rng.randint(0, 6)):
            ww = max(1, min(6, w + rng.choice([0, 0, 0, -1, 1])))
            rows.append([[rng.choice([0, 0, 1, 1, 1, 2, 3, 4]) for _ in range(rng.choice([0, 1, 2, 3, 6]))] for _ in range(ww)])
        files.append({"h": h, "names": names, "rows": rows})
    if kind == "lines" and rng.random() < 0.1:
        files[0]["rows"] = [[[1] * 40] for _ in range(12)]
    return {"files": files, "kind": kind}


def p17(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Wc", {"MaxLines": 2, "MaxCell": c.pick(3, 4), "Chars": "{0, 1, 2}"}, ["LinesRight", "ColumnsRight", "TotalRight", "Emit"],
                       [given(rng) for _ in range(c.pick(2000, 15000))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if len(k["files"]) > 1 or len(k["files"][0]["rows"]) > 2]
    n = c.pick(3500, 30000)
    replay(c, [case(rng, k) for k in cover(rng, big, n) + cover(rng, cases, n)], "wc")
    scale_laws(c)
    replay(c, [case(rng, k, factor(rng, sum(len(x["rows"]) for x in k["files"]))) for k in cover(rng, big, c.pick(120, 1000))], "wc of long files")


if __name__ == "__main__":
    go({"P17": p17})
