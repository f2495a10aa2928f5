"""P11: cut / column selection"""
from common import *


def nm(n):
    return LETTERS[n[0] - 1] + "".join(str(x) for x in n[1:])


def end(e):
    return str(e["v"]) if e["k"] == "num" else "+%d" % e["v"] if e["k"] == "end" else nm(e["v"])


def item(it, none=False):
    """none: instead of a column that does not exist, none at all"""
    k = it["kind"]
    if none and k == "one" and it["a"]["v"] == [8]:
        return ("~" if it["neg"] else "") + (nm(it["as"]) + ":" if it["as"] else "abc"[len(it["a"]["v"]) - 1] + ":" if it["neg"] else "")
    s = {"one": lambda: end(it["a"]), "span": lambda: end(it["a"]) + "-" + end(it["b"]), "from": lambda: end(it["a"]) + "-",
         "upto": lambda: "-" + end(it["b"]), "all": lambda: "-", "match": lambda: "(prefix," + nm(it["a"]["v"]) + ")"}[k]()
    if it["as"]:
        s = nm(it["as"]) + ":" + s
    return ("~" if it["neg"] else "") + s


LITS = ["", "", "x", "a-b ", "é", "(", ".", "ab", "_", "="]


def case(rng, k):
    if k["ok"] and any(p["kind"] == "f" and not r["cells"][i] for r in k["res"] for i, p in enumerate(k["pieces"])):
        return None
    argv = ["cut"]
    lits = []
    delims = []
    for p in k["pieces"]:
        lits.append(None)
        delims.append(None)
        if p["kind"] == "f":
            v = ",".join(item(x, not k["ok"] and rng.random() < 0.4) for x in p["items"])
            # a value that starts with '-' would be taken for an option
            argv += ["--fields=" + v] if v.startswith("-") else [rng.choice(["-f", "--fields"]), v]
        elif p["kind"] == "g":
            delims[-1] = rng.choice([",", ".", "|", " ", ";", "+"])
            argv += [rng.choice(["-g", "--group"]), delims[-1] + nm(p["name"]) + ":" + ",".join(item(x) for x in p["items"])]
        else:
            parts = [rng.choice(LITS) for _ in range(len(p["items"]) + 1)]
            s = ""
            for x, l in zip(p["items"], parts):
                e = end(x["a"])
                s += l + ("^{%s}" % e)
            s += parts[-1]
            if rng.random() < 0.2:
                s += "^^"
                parts[-1] += "^"
            lits[-1] = parts
            argv += [rng.choice(["-c", "--composite"]), nm(p["name"]) + ":" + s]
    if k["dups"] != "fail" or rng.random() < 0.2:
        at = rng.choice([1, len(argv)])
        argv[at:at] = [rng.choice(["-D", "--dups"]), rng.choice([k["dups"].capitalize()])]
    files = {}
    out = b""
    names = []
    for n, cols in enumerate(k["files"]):
        rows = []
        for r in range(rng.choice([0, 1, 2, 3]) if k["heads"] else rng.choice([1, 2, 3])):
            w = len(cols)
            if (r or k["heads"]) and rng.random() < 0.3:
                w = max(1, w + rng.choice([-2, -1, 1, 2]))
            row = [rng.choice([b"v%d.%d.%d" % (n, r, x), b"", b"long value %d" % x]) for x in range(w)]
            if row == [b""]:
                row = [b"z"]
            rows.append(row)
        data = b"".join(b"\t".join(r) + b"\n" for r in rows)
        if rows and rng.random() < 0.15:
            data = data[:-1] if rows[-1] != [b""] and not (len(rows[-1]) > 0 and rows[-1][-1] == b"") else data
        if k["heads"]:
            data = (" CDX\t" + "\t".join(nm(c) for c in cols) + "\n").encode() + data
        fn = "f%d" % n
        files[fn] = gzip.compress(data, 1, mtime=0) if rng.random() < 0.05 else data
        names.append(fn)
        if k["ok"]:
            res = k["res"][n]
            if k["heads"] and n == 0:
                out += (" CDX\t" + "\t".join(nm(c) for c in res["head"]) + "\n").encode()
            for row in rows:
                cells = []
                get = lambda c: row[c - 1] if c - 1 < len(row) else b""
                for i, p in enumerate(k["pieces"]):
                    vals = [get(c) for c in res["cells"][i]]
                    if p["kind"] == "f":
                        cells += vals
                    elif p["kind"] == "g":
                        # plain text mode: a delimiter inside a value becomes a space
                        d = delims[i].encode()
                        cells.append(d.join(v.replace(d, b" ") for v in vals))
                    else:
                        s = b""
                        for l, v in zip(lits[i], vals):
                            s += l.encode() + v
                        cells.append(s + lits[i][-1].encode())
                out += b"\t".join(cells) + b"\n"
    stdin = None
    if len(names) == 1 and rng.random() < 0.2:
        stdin = files.pop("f0")
        names = ["-"] if rng.random() < 0.5 else []
    elif rng.random() < 0.1:
        # an empty file contributes nothing
        files["e"] = b""
        names.insert(rng.randint(0, len(names)), "e")
    return Job(argv + names, files, stdin=stdin), ({"status": 0, "out": out} if k["ok"] else {"status": "fail"})


def given(rng, wide=False):
    heads = rng.random() < 0.75
    w = rng.randint(1, 6)
    if wide:
        heads, w = rng.random() < 0.5, rng.choice([255, 256, 257, 300])
    if heads and wide:
        files = [[[rng.choice([1, 3]), i] for i in range(1, w + 1)]]
        if rng.random() < 0.5:
            files.append(rng.sample(files[0], w))
    elif heads:
        cols = [[x] for x in rng.sample(range(1, 7), w)]
        for c in cols[1:]:
            if rng.random() < 0.25:
                c[:] = [cols[0][0], rng.randint(1, 3)]
        seen = []
        for c in cols:
            while c in seen:
                c.append(rng.randint(1, 9))
            seen.append(list(c))
        files = [cols]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            c2 = list(cols)
            rng.shuffle(c2)
            if rng.random() < 0.3:
                c2.insert(rng.randint(0, len(c2)), [9])
            files.append(c2)
    else:
        files = [[[3, i] for i in range(1, w + 1)]]
        for _ in range(rng.choice([0, 0, 1])):
            files.append([[3, i] for i in range(1, w + rng.choice([0, 0, 1]) + 1)])
    wmin = min(len(x) for x in files)

    def ep():
        k = rng.choice(["num", "num", "end", "name", "name"])
        if k == "name":
            return {"k": k, "v": rng.choice(files[0]) if rng.random() < 0.95 else [8]}
        return {"k": k, "v": 0 if k == "end" and rng.random() < 0.03 else rng.randint(1, wmin + (1 if k == "end" and rng.random() < 0.1 else 0))}
    one = {"k": "num", "v": 1}

    def it(kinds, neg=True):
        kind = rng.choice(kinds)
        a, b = ep(), one
        if kind == "span":
            b = ep()
        if kind == "upto":
            a, b = one, ep()
        if kind == "all":
            a = one
        if kind == "match":
            a = {"k": "name", "v": rng.choice(files[0])[:1]}
        return {"neg": neg and rng.random() < 0.2, "kind": kind, "a": a, "b": b,
                "as": [rng.randint(14, 26)] if rng.random() < 0.12 and kind == "one" else []}
    allk = ["one", "one", "one", "span", "from", "upto", "all", "match"]
    pieces = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["f", "f", "g", "c"])
        if kind == "c":
            items = [dict(it(["one"], False), **{"as": []}) for _ in range(rng.randint(1, 3))]
        else:
            items = [it(allk) for _ in range(rng.randint(1, 4))]
        pieces.append({"kind": kind, "name": [] if kind == "f" else [rng.randint(10, 13)], "items": items})
    return {"files": files, "pieces": pieces, "dups": rng.choice(["fail", "numeric", "numeric", "allow"]), "heads": heads}


def p11(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Columns", {"Widths": c.pick("{1,2}", "{1,2,3}"), "MaxItems": 2, "Negs": c.pick("{FALSE,TRUE}", "{FALSE,TRUE}")},
                       ["CellsRight", "NamesRight", "FailsRight", "Emit"], [given(rng, x < c.pick(6, 40)) for x in range(c.pick(4000, 30000))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if len(k["pieces"]) > 1 or len(k["files"]) > 1 or len(k["files"][0]) > 3]
    n = c.pick(3500, 40000)
    items = [x for x in (case(rng, k) for k in cover(rng, big, n) + cover(rng, cases, n)) if x]
    replay(c, items, "cut")
    scale_laws(c)
    replay(c, blocks(c, items, c.pick(120, 1000)), "cut of long files")


if __name__ == "__main__":
    go({"P11": p11})
