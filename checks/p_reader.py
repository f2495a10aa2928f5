"""P34: the library's Reader (spec/Reader.tla)"""
from common import *


def given(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    files = [{"head": rng.choice([0, 0, 9, 12, 40]), "lens": [rng.choice([1, 1, 2, 3, 5, 8, 20, 300]) for _ in range(rng.choice([0, 1, 2, 3, 6, 12]))]} for _ in range(n)]
    if rng.random() < 0.02:
        files[-1]["lens"] += [rng.choice([8191, 8192, 8193, 70000]), 3, 4]
    return {"files": files, "reads": [rng.randint(0, len(f["lens"]) + 1) if rng.random() < 0.5 else len(f["lens"]) for f in files], "keep": rng.choice([0, 1, 1, 2, 3, 7])}


def line(rng, n, m):
    """a line of n bytes with its break, and its columns"""
    d, q, eol = m["delim"], m["quote"], m["eol"]
    n -= 1
    cols, out = [], b""
    while True:
        left = n - len(out)
        k = left if rng.random() < 0.6 else rng.randint(0, left)
        if 0 < left - k < 1:
            k = left
        raw = val = bytes(rng.choice(b"abcXY019 .") for _ in range(k))
        if q == "q" and k >= 2 and rng.random() < 0.5:
            inner = bytes(rng.choice(b"ab9 " + d + eol) for _ in range(k - 2))
            raw, val = b'"' + inner + b'"', inner
        elif q == "b" and k >= 2 and rng.random() < 0.5:
            x, y = rng.choice([(b"\\\\", b"\\"), (b"\\n", b"\n"), (b"\\t", b"\t"), (b"\\" + d, b"\t" if d == b"t" else d)])
            raw, val = x + raw[2:], y + raw[2:]
        out += raw
        cols.append(val)
        if len(out) == n:
            return out + eol, cols
        out += d


def text(rng, f, m):
    head = b""
    names = []
    if f["head"]:
        head = b" CDX" + m["delim"]
        rest = f["head"] - len(head) - 1
        cut = rng.randint(1, rest - 2) if rest >= 3 else rest
        names = ["a" * cut] + (["b" * (rest - cut - 1)] if rest > cut else [])
        head += m["delim"].join(x.encode() for x in names) + m["eol"]
        assert len(head) == f["head"]
    ls = [line(rng, n, m) for n in f["lens"]]
    if ls and not f["head"]:
        while ls[0][0].startswith(b" CDX"):
            ls[0] = line(rng, f["lens"][0], m)
        names = ["c%d" % (i + 1) for i in range(len(ls[0][1]))]
    data = head + b"".join(x for x, _ in ls)
    if rng.random() < 0.3 and data and (f["lens"][-1] > 1 if ls else True):
        data = data[:-1]           # the break is added
    return head, names, ls, data


def located(rng, k, m, mode, fs, full=False):
    """cgrep --location writes where the chosen lines of the first file are"""
    head, _, ls, data = fs[0]
    f, d = k["files"][0], m["delim"]
    items = rng.choice([["bytes"], ["line"], ["bytes", "line"], ["line", "at:bytes", "name"], ["BYTES", "Line", "where:name.1"]])
    pat, want = b"1,glob,*", lambda cols: True
    if full:
        items = rng.choice([["bytes", "line"], ["line", "at:bytes", "name"]])
    elif ls and rng.random() < 0.5:
        key = rng.choice(ls)[1][0]
        if key.isalnum() and len(key) < 200:
            pat, want = b"1,exact," + key, lambda cols: cols[0] == key
    dflt = {"bytes": "bytes", "line": "line", "name": "filename"}
    out = b""
    if head:
        out = b" CDX" + d + d.join((x.split(":")[0] if ":" in x else dflt[x.lower()]).encode() for x in items) + d + head[5:]
    off = f["head"]
    for i, (raw, cols) in enumerate(ls):
        off += f["lens"][i - 1] if i else 0
        if want(cols):
            v = {"bytes": b"%d" % off, "line": b"%d" % (i + 1), "name": b"in", "name.1": b"in"}
            out += b"".join(v[x.split(":")[-1].lower()] + d for x in items) + raw
    argv = ["cgrep", "-p", pat] + (["--text-in", mode] if mode else []) + (["-l", ",".join(items)] if rng.random() < 0.5 else [y for x in items for y in ("--location", x)])
    return Job(argv + ["in"], {"in": data}), {"status": 0, "out": out, "note": mode}


def p34(c):
    build(lib=True)
    rng = c.rng
    ks = behaviours(c, "Reader", {"MaxLines": 2, "MaxKeep": c.pick(2, 3), "MaxOpens": 2, "Lengths": c.pick("{1, 3}", "{1, 2, 4}")}, ["Right", "InOrder", "Emit"],
                    [given(rng) for _ in range(c.pick(1200, 8000))] + [{"files": [{"head": 0, "lens": [5, 1100000, 3, 4]}], "reads": [4], "keep": 2}, {"files": [{"head": 9, "lens": [1100000, 6]}], "reads": [1], "keep": 1}], props=["Terminates"])
    c.count("abstract_cases", len(ks))
    reqs, wants, places = [], [], []
    d = os.path.join(c.scratch, "reader")
    os.makedirs(d)
    many = sorted(ks, key=lambda k: len(k["files"]) + sum(len(f["lens"]) for f in k["files"]))
    pick = cover(rng, ks, c.pick(2500, 12000)) + many[-c.pick(800, 6000):] + 2 * [k for k in ks if any(n > 10 ** 6 for f in k["files"] for n in f["lens"])]
    for no, k in enumerate(pick):
        m = {"delim": rng.choice([b"\t", b"\t", b",", b"|"]), "quote": rng.choice("pppqb"), "eol": rng.choice([b"\n", b"\n", b"\n", b";"])}
        mode = "m" + m["delim"].decode() + m["quote"] + "." + m["eol"].decode()
        if m["delim"] == b"\t":
            mode = "mt" + m["quote"] + "." + m["eol"].decode()
        if m["eol"] == b"\n":
            mode = mode[:-1] + "n"
        if m["delim"] == b"\t" and m["quote"] == "p" and m["eol"] == b"\n" and rng.random() < 0.5:
            mode = ""
        fs = [text(rng, f, m) for f in k["files"]]
        names = []
        for i, f in enumerate(fs):
            names.append(os.path.join(d, "%d_%d" % (no, i)))
            with open(names[-1], "wb") as o:
                o.write(gzip.compress(f[3], 1, mtime=0) if rng.random() < 0.15 else f[3])
        split = rng.random() < 0.85
        req = ["reader", mode, str(k["keep"]), "1" if split else "0", rng.choice(["open", "new"])]
        for n, r in zip(names, k["reads"]):
            req += [n, str(r)]
        want, first = [], None
        for v in k["log"]:
            head, cn, ls, data = fs[v["file"] - 1]
            first = (v["file"] != first) and v["file"]
            show = lambda i: ls[i - 1][0] if i else b""
            w = [head, ("%s %s %s %d" % (str(bool(head)).lower(), str(not data).lower(), str(v["done"]).lower(), v["line"])).encode(),
                 b"%d|%d|%s|" % (v["bytes"], v["line"], names[v["file"] - 1].encode()), "|".join(cn).encode(), show(v["text"]),
                 b"\0".join(ls[v["text"] - 1][1]) if v["text"] and split else b"", show(v["text"])[:-1]]
            for p in v["prev"]:
                w += [show(p), show(p)[:-1], b"\0".join(ls[p - 1][1]) if p and split else b""]
            want.append(w)
        if len(places) < c.pick(1200, 8000):
            places.append(located(rng, k, m, mode, fs))
        reqs.append([x.encode() if isinstance(x, str) else x for x in req])
        wants.append((want, [lat(f[3], 200) for f in fs], k))
    n = 0
    for (r, (want, data, k)) in zip(run_lib(reqs), wants):
        i = reqs[n]
        n += 1
        flat = [y for w in want for y in w]
        if r[0] != "ok" or r[1] != flat:
            step = next((j for j, (x, y) in enumerate(zip(r[1], flat)) if x != y), min(len(r[1]), len(flat))) if r[0] == "ok" else 0
            per = 7 + 3 * k["keep"]
            c.violation("reader: step %d item %d is not what the file has: mode %r" % (step // per, step % per, i[1]),
                        {"request": [lat(x, 200) for x in i], "files": data, "result": r[0], "got": [lat(x, 300) for x in r[1][step:step + 1]] or [lat(x, 300) for x in r[1]], "want": [lat(x, 300) for x in flat[step:step + 1]], "log": k["log"]})
    c.traces(len(reqs))
    c.count("library_calls", len(reqs))
    for no in range(c.pick(12, 80)):      # the same meaning for long files
        f = {"head": rng.choice([0, 9]), "lens": [rng.choice([1, 2, 5, 9, 30, 40]) for _ in range(80000 if no < 2 else rng.choice([1100, 4200, 5300, 9000]))]}
        m = {"delim": b"\t", "quote": "p", "eol": b"\n"}
        places.append(located(rng, {"files": [f]}, m, "", [text(rng, f, m)], no < 2))
    replay(c, places, "places of lines")


if __name__ == "__main__":
    go({"P34": p34})
