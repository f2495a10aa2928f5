"""P24: transforms"""
from common import *

PIECES = ["a", "B", "zz", "Q", " ", "  ", "\x01", "\x0b", "é", "É", "à", "À", "ß", "ẞ", "ω", "Ω", "\u00a0", "\u2003", "\u0085", "0", "_", "~", "M9", "\ufffd"]


def value(rng, chain):
    v = "".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))).encode()
    if chain and chain[0]["k"] == "from_base64" and rng.random() < 0.9:
        import base64
        v = base64.b64encode(v)
        if rng.random() < 0.06:
            v = rng.choice([v[:-1], v + b"=", v + b"A", b"=" + v, v.replace(b"=", b""), b" " + v, v[:-1] + b"*", b"YR==", b"Y===", b"YWJ="])
    elif rng.random() < 0.12:
        n = rng.randint(0, len(v))
        if b"".join([v[:n], b"x", v[n:]]).decode("utf8", "replace").count("\ufffd") == v.decode("utf8", "replace").count("\ufffd"):
            v = v[:n] + bytes([rng.choice([248, 250, 254, 255])]) * rng.choice([1, 1, 2]) + v[n:]
    elif rng.random() < 0.1:
        v = bytes(x for x in (rng.randrange(256) for _ in range(rng.randint(1, 9))) if x not in (9, 10))
    return list(v)


def trans(rng):
    k = rng.choice(["lower", "upper", "normspace", "bytes", "to_base64", "from_base64"])
    r = []
    if k == "bytes":
        for _ in range(rng.randint(1, 3)):
            a = rng.randint(1, 6)
            r.append([a, rng.choice([a, a, a + 1, a + 3, 50])])
    return {"k": k, "u": rng.random() < 0.5 and k in ("lower", "upper", "normspace"), "r": r}


def given(rng):
    chain = [trans(rng) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
    # something to decode
    for n in range(1, len(chain)):
        if chain[n]["k"] == "from_base64" and chain[n - 1]["k"] != "to_base64" and rng.random() < 0.8:
            chain[n - 1] = {"k": "to_base64", "u": False, "r": []}
    return {"chain": chain, "vals": [value(rng, chain) for _ in range(rng.choice([1, 2, 3, 5]))]}


def spell(rng, t):
    name = t["k"]
    if name in ("lower", "upper") and rng.random() < 0.3:
        name += "case"
    if t["u"]:
        u = rng.choice(["utf8", "UTF8", "Utf8"])
        name = u + "." + name if rng.random() < 0.7 else name + "." + u
    elif name in ("to_base64", "from_base64") and rng.random() < 0.1:
        name = "utf8." + name
    if t["r"]:
        name += "," + ",".join(str(a) if a == e and rng.random() < 0.7 else "%d-%d" % (a, e) for a, e in t["r"])
    return name


def case(rng, ks):
    """several chains, each for some columns of the same lines"""
    ks = [k for k in ks if len(k["vals"]) == len(ks[0]["vals"])]
    n = len(ks[0]["vals"])
    if any(not k["ok"] for k in ks):
        ks = [next(k for k in ks if not k["ok"])]
    cols, argv, heads, outs = [], ["cut"], [], []
    names = rng.sample(NAMES, 9)
    ok = all(k["ok"] for k in ks)
    for k in ks:
        start = len(cols)
        w = rng.choice([1, 1, 2]) if ok else 1
        # rotated, so that the columns of a line differ
        for s in range(w):
            cols.append((k["vals"][s:] + k["vals"][:s], (k["out"][s:] + k["out"][:s]) if ok else None))
        plus = "+" + "+".join(spell(rng, t) for t in k["chain"])
        sel = names[start:start + w] if rng.random() < 0.5 else [str(start + x + 1) for x in range(w)]
        if w == 2 and rng.random() < 0.5:
            sel = [sel[0] + "-" + sel[1]]
        hd = names[start:start + w]
        if w == 1 and rng.random() < 0.2:
            hd = ["New%d" % start]
            sel = [hd[0] + ":" + sel[0]]
        if rng.random() < 0.15:
            g = "G%d" % start
            argv += ["--group", ",%s:%s%s" % (g, ",".join(sel), plus)]
            heads.append([g])
            outs.append([[b",".join(x.replace(b",", b" ") for x in row)] for row in rows(cols[start:], n)] if ok else None)
        else:
            argv += [rng.choice(["-f", "--fields"]), ",".join(sel) + plus]
            heads.append(hd)
            outs.append(rows(cols[start:], n) if ok else None)
    # an untouched column
    cols.append(([list(b"P l%d" % x) for x in range(n)], None))
    order = list(range(len(ks)))
    pre = rng.random() < 0.5
    if pre:
        argv += ["-f", str(len(cols))]
        heads.append([names[len(cols) - 1]])
        outs.append([[b"P l%d" % x] for x in range(n)])
    head = rng.random() < 0.6
    if not head:
        argv = [a if not any(x in a for x in names) else None for a in argv]
        if None in argv:
            head = True
            return case(rng, ks)
    data = b""
    if head:
        data += (" CDX\t" + "\t".join(names[:len(cols)]) + "\n").encode()
    for x in range(n):
        data += b"\t".join(bytes(c[0][x]) for c in cols) + b"\n"
    if not ok:
        return Job(argv + ["f"], {"f": data}), {"status": "fail"}
    want = (" CDX\t" + "\t".join(h for hs in heads for h in hs) + "\n").encode() if head else b""
    for x in range(n):
        want += b"\t".join(v for o in outs for v in o[x]) + b"\n"
    return Job(argv + ["f"], {"f": data}), {"status": 0, "out": want}


def excluded(rng, k):
    """a list that leaves columns out, with a chain for those that stay"""
    n, ok = len(k["vals"]), k["ok"]
    w = rng.randint(1, 3)
    kinds = [True] * w + [False] * rng.randint(1, 2)
    rng.shuffle(kinds)
    names = rng.sample(NAMES, len(kinds))
    plus = "+" + "+".join(spell(rng, t) for t in k["chain"])
    head = rng.random() < 0.6
    byname = head and rng.random() < 0.5
    sel = ["~" + (names[i] if byname else str(i + 1)) for i, keep in enumerate(kinds) if not keep]
    if rng.random() < 0.5:
        sel = [rng.choice(["1-%d" % len(kinds), "-", "1-", "-%d" % len(kinds)])] + sel
    cols, outs = [], []
    for i, keep in enumerate(kinds):
        s = i % n if n else 0
        cols.append(k["vals"][s:] + k["vals"][:s])
        outs.append((k["out"][s:] + k["out"][:s]) if ok else None)
    data = (" CDX\t" + "\t".join(names) + "\n").encode() if head else b""
    want = (" CDX\t" + "\t".join(x for x, keep in zip(names, kinds) if keep) + "\n").encode() if head else b""
    data += b"".join(b"\t".join(bytes(c[x]) for c in cols) + b"\n" for x in range(n))
    job = Job(["cut", "--fields=" + ",".join(sel) + plus, "f"], {"f": data})
    if not ok:
        return job, {"status": "fail"}
    want += b"".join(b"\t".join(plain(o[x]) for o, keep in zip(outs, kinds) if keep) + b"\n" for x in range(n))
    return job, {"status": 0, "out": want}


def joined(rng, ks):
    """chains for the output columns of join"""
    ks = [k for k in ks if len(k["vals"]) == len(ks[0]["vals"]) and not any(t["r"] for t in k["chain"])]
    if not ks or not ks[0]["vals"]:
        return None
    n, ok = len(ks[0]["vals"]), all(k["ok"] for k in ks)
    side = [[], []]
    spec, outs, heads = [], [], []
    names = rng.sample(NAMES, len(ks) + 3)
    head = rng.random() < 0.5
    for j, k in enumerate(ks):
        f_ = rng.randint(0, 1)
        side[f_].append((names[j], k["vals"]))
        ref = names[j] if head and rng.random() < 0.5 else str(len(side[f_]) + 1)
        spec.append("%d.%s+%s" % (f_ + 1, ref, "+".join(spell(rng, t) for t in k["chain"])))
        outs.append([plain(v) for v in k["out"]] if k["ok"] else None)
        heads.append(names[j])
    # an untouched column
    if rng.random() < 0.7:
        side[1].append((names[len(ks)], [list(b"P l%d" % x) for x in range(n)]))
        spec.append("2.%d" % (len(side[1]) + 1))
        outs.append([b"P l%d" % x for x in range(n)])
        heads.append(names[len(ks)])
    files = {}
    for f_ in range(2):
        d = (" CDX\t" + "\t".join([names[len(ks) + 1 + f_]] + [x for x, _ in side[f_]]) + "\n").encode() if head else b""
        files["f%d" % f_] = d + b"".join(b"\t".join([b"k%04d" % x] + [bytes(v[x]) for _, v in side[f_]]) + b"\n" for x in range(n))
    job = Job(["join", "-o", ",".join(spec), "f0", "f1"], files)
    if not ok:
        return job, {"status": "fail"}
    want = (" CDX\t" + "\t".join(heads) + "\n").encode() if head else b""
    want += b"".join(b"\t".join(o[x] for o in outs) + b"\n" for x in range(n))
    return job, {"status": 0, "out": want}


def plain(v):
    return bytes(v).replace(b"\t", b" ").replace(b"\n", b" ")


def rows(cols, n):
    return [[plain(c[1][x]) for c in cols] for x in range(n)]


BAD = ["1+nosuch", "1+lower+", "1+lower+nosuch", "1+bytes,0", "1+bytes,3-2", "1+bytes,", "1+bytes", "1+bytes,a", "1+bytes,1-", "1+utf8", "1+utf8.", "9x+lower", "nocol+lower", "1+lowercases", "1+bytes,1,0", "1+bytes,2-x"]


def p24(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Trans", {"MaxChain": c.pick(3, 4)}, ["Composed", "Single", "Emit"],
                       [given(rng) for _ in range(c.pick(3000, 20000))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    n = c.pick(4000, 30000)
    few = [k for k in cases if k["ok"]]
    by = {}
    for k in few:
        by.setdefault(len(k["vals"]), []).append(k)
    items = [case(rng, [k] + [rng.choice(by[len(k["vals"])]) for _ in range(rng.choice([0, 0, 1, 2]) if len(k["vals"]) in by else 0)]) for k in cover(rng, cases, n)]
    items += [excluded(rng, k) for k in cover(rng, cases, n // 6)]
    items += [x for x in (joined(rng, [k] + [rng.choice(by[len(k["vals"])]) for _ in range(rng.choice([0, 1, 2]) if len(k["vals"]) in by else 0)]) for k in cover(rng, cases, n // 6)) if x]
    items += [(Job(["cut", "-f", s, "f"], {"f": " CDX\ta\tb\nx\ty\n"}), {"status": "fail"}) for s in BAD]
    replay(c, items, "transforms")
    scale_laws(c)
    replay(c, blocks(c, items, c.pick(100, 800)), "transforms of long files")


if __name__ == "__main__":
    go({"P24": p24})
