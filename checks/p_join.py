"""P07: join"""
from common import *
from flavors import KEYED


def table(rng, ranks, cls, cls2, ncol, keycols, tag, ragged):
    """lines (without newline) of one file: key columns hold the rank's value, the rest a unique tag"""
    out = []
    for n, k in enumerate(ranks):
        v = [b"%s%d.%d" % (tag, n, x) for x in range(ncol)]
        v[keycols[0]] = rng.choice(cls[k - 1])
        if cls2 is not None:
            v[keycols[1]] = rng.choice(cls2)
        if ragged and rng.random() < 0.2 and ncol - 1 not in keycols:
            v = v[:-1]
        out.append(v)
    return out


def concretize(rng, case):
    ranks = sorted(set(case["f1"]) | set(case["f2"]) | {1})
    top = max(ranks)
    for _ in range(100):
        f = rng.choice(KEYED)
        if len(f[2]) >= top:
            break
    else:
        f = ("gen", "numeric", [[b"%d" % (x * 7)] for x in range(top)])
    if len(f[2]) < top:
        f = ("gen", "numeric", [[b"%d" % (x * 7)] for x in range(top)])
    idx = sorted(rng.sample(range(len(f[2])), top))
    cls = [f[2][i] for i in idx]
    meth = f[1]
    if rng.random() < 0.25:
        cls = cls[::-1]
        meth = meth + ".rev" if meth else "rev"
    two = rng.random() < 0.25
    cls2 = [b"same"] if two else None
    nc = [rng.randint(2, 4), rng.randint(2, 4)]
    kc = [rng.sample(range(n), 2) for n in nc]
    if rng.random() < 0.3:
        kc[1] = kc[0] if max(kc[0]) < nc[1] else kc[1]
    header = rng.random() < 0.5
    ragged = rng.random() < 0.3
    rows = [table(rng, case["f1"], cls, cls2, nc[0], kc[0], b"l", ragged),
            table(rng, case["f2"], cls, cls2, nc[1], kc[1], b"r", ragged)]
    names = colnames(rng, nc[0] + nc[1])
    names = [names[:nc[0]], names[nc[0]:]]
    if not header and (not case["f1"] or not case["f2"]):
        # the width of a file without header is that of its first line
        if not case["f1"] and not case["f2"]:
            header = True
    data = []
    if not header:
        for f_ in range(2):
            if rows[f_] and len(rows[f_][0]) < nc[f_]:
                rows[f_][0].append(b"full")
    for f_ in range(2):
        h = (" CDX\t" + "\t".join(names[f_]) + "\n").encode() if header else b""
        data.append(h + b"".join(b"\t".join(v) + b"\n" for v in rows[f_]))

    def keyspec(which):
        m = meth if which == 0 else "plain"
        a, b_ = kc[0][which], kc[1][which]
        if a == b_ and m.split(".")[0] == "float" and (not header or "c%d" % (a + 1) not in names[0] + names[1]) and rng.random() < 0.5:
            return "," + m.replace("float", "expr") + ",c%d" % (a + 1)
        # a file without any line has no columns to name
        if header and rng.random() < 0.5:
            n1, n2 = names[0][a], names[1][b_]
            s = "%s.%s" % (n1, n2)
        elif a == b_ and rng.random() < 0.6:
            s = str(a + 1)
        else:
            s = "%d.%d" % (a + 1, b_ + 1)
        return s + ("," + m if m else "")
    used = [{kc[0][0]} | ({kc[0][1]} if two else set()), {kc[1][0]} | ({kc[1][1]} if two else set())]
    argv = ["join"]
    order = [1, 0] if two and rng.random() < 0.5 else ([0, 1] if two else [0])
    for w in order:
        argv += ["-k", keyspec(w)]
    if not two and meth == "" and kc[0][0] == 0 and kc[1][0] == 0 and rng.random() < 0.7:
        argv = ["join"]
    wrong = False
    width = [nc[0] if header or rows[0] else 0, nc[1] if header or rows[1] else 0]
    if rng.random() < 0.3 and all(width):
        spec = []
        cols = []
        for _ in range(rng.randint(1, 4)):
            f_ = rng.randint(0, 1)
            x = rng.randrange(nc[f_])
            byname = header and rng.random() < 0.4
            spec.append("%d.%s" % (f_ + 1, names[f_][x] if byname else x + 1))
            cols.append((f_, x))
        if header and len(set(cols)) != len(cols):
            cols = list(dict.fromkeys(cols))
            spec = ["%d.%d" % (a + 1, x + 1) for a, x in cols]
        heads = [names[f_][x] for f_, x in cols]
        for i in range(len(cols)):
            if rng.random() < 0.2:
                heads[i] = "New%d" % i
                spec[i] = spec[i].replace(".", ".%s:" % heads[i], 1)
        for i in range(len(cols) - 1, 0, -1):
            if cols[i][0] == cols[i - 1][0] and rng.random() < 0.5:
                spec[i] = spec[i].split(".", 1)[1]       # of the same file as the one before
        if rng.random() < 0.15:
            # all columns of a file, or all but one
            f_ = rng.randint(0, 1)
            x = rng.randrange(nc[f_])
            more = [(f_, y) for y in range(nc[f_])]
            part = "%d.-" % (f_ + 1)
            if nc[f_] > 1 and rng.random() < 0.6:
                more.remove((f_, x))
                part += ",~" + (names[f_][x] if header and rng.random() < 0.5 else str(x + 1))
            if not header or not {h for h in heads} & {names[a][y] for a, y in more}:
                cols = cols + more
                heads += [names[a][y] for a, y in more]
                spec.append(part)
        argv += ["-o", ",".join(spec)]
        if rng.random() < 0.02:
            argv[-1] = argv[-1].split(".", 1)[1] if rng.random() < 0.5 else "0" + argv[-1][1:]
            wrong = True
    else:
        cols = [(0, x) for x in range(width[0])] + [(1, x) for x in range(width[1]) if x not in used[1]]
        if not cols:
            return None
        heads = [names[f_][x] for f_, x in cols]
    out = b""
    if header:
        out = (" CDX\t" + "\t".join(heads) + "\n").encode()

    def cell(f_, n, x):
        v = rows[f_][n]
        return v[x] if x < len(v) else b""
    for n, m in case["out"]:
        out += b"\t".join(cell(f_, (n - 1, m - 1)[f_], x) for f_, x in cols) + b"\n"
    unm = []
    for f_ in range(2):
        h = (" CDX\t" + "\t".join(names[f_]) + "\n").encode() if header else b""
        unm.append(h + b"".join(b"\t".join(rows[f_][n - 1]) + b"\n" for n in case[("no1", "no2")[f_]]))
    for f_ in range(2):
        if data[f_].endswith(b"\n") and rows[f_] and rng.random() < 0.2 and not data[f_].endswith(b"\n\n"):
            data[f_] = data[f_][:-1]
    zipped = [gzip.compress(d, 1, mtime=0) if rng.random() < 0.08 else d for d in data]
    files = {"f1": zipped[0], "f2": zipped[1]}
    outs, want = [], []
    stdout = out
    if rng.random() < 0.15:
        argv += ["-f", "res"]
        outs.append("res")
        want.append(out)
        stdout = b""
        if rng.random() < 0.5:
            files["res"] = b"stale content of an earlier run\n" * 40
    for f_ in rng.sample([0, 1], 2):
        if rng.random() < 0.7:
            argv += ["--also" if rng.random() < 0.5 else "-a", "%d,u%d" % (f_ + 1, f_)]
            outs.append("u%d" % f_)
            want.append(unm[f_])
            if rng.random() < 0.3:
                files["u%d" % f_] = b"old unmatched lines\n" * 30
    argv += ["f1", "f2"]
    if wrong:
        return Job(argv, files), {"status": "fail", "out": b""}
    if rng.random() < 0.02:
        # join is of two files
        more = rng.choice([["f1"], ["f2"], ["f1", "f2"]])
        return Job(argv + more, files), {"status": "fail", "out": b""}
    if rng.random() < 0.01:
        return Job(argv[:-1], files), {"status": "fail", "out": b""}
    return Job(argv, files, outs=outs), {"status": 0, "out": stdout, "files": want}


def long(rng):
    """long groups, and many of them"""
    r = rng.choice([2, 3, 9, 70, 400])
    f1 = sorted([rng.randint(1, r) for _ in range(rng.choice([20, 260, 300]))] + [rng.randint(1, r)] * rng.choice([0, 260, 400]))
    return {"f1": f1, "f2": sorted(rng.sample(range(1, r + 1), rng.randint(1, r))) if r < 400 else sorted(rng.sample(range(1, r + 1), 390))}


def big(rng):
    r = rng.randint(2, 9)
    f1 = sorted(rng.randint(1, r) for _ in range(rng.randint(0, 24)))
    f2 = sorted(rng.sample(range(1, r + 1), rng.randint(0, r)))
    return {"f1": f1, "f2": f2}


def p07(c):
    build()
    given = [big(c.rng) for _ in range(c.pick(400, 3000))]
    given += [long(c.rng) for _ in range(c.pick(14, 100))]
    cases = behaviours(c, "Join", {"MaxLen": c.pick(4, 5), "Ranks": c.pick("{1,2,3,4}", "{1,2,3,4,5}")},
                       ["Matches", "Unmatched", "Partition", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    items = [x for x in (concretize(c.rng, k) for k in cover(c.rng, cases, c.pick(6000, 50000)) + 3 * [k for k in cases if len(k["f1"]) > 100]) if x]
    replay(c, items, "join")


if __name__ == "__main__":
    go({"P07": p07})
