"""P08: binsearch"""
from common import *
from flavors import KEYED

EXTRA = [("numeric-blank", "numeric", [[b"-12"], [b"-5"], [b"", b"0"], [b"3"], [b"7"], [b"11"], [b"400"]]),
         ("float-blank", "float", [[b"-12"], [b"-5.5"], [b"0", b"0.0"], [b"3"], [b"7"], [b"11"], [b"400"]]),
         ("plain-one", "plain", [[x] for x in (b"", b"a", b"b", b"c", b"d", b"e", b"f", b"g", b"h", b"i", b"j", b"k", b"l", b"m")]),
         ("num-many", "numeric", [[b"%d" % (x * 3 - 30)] for x in range(60)])]


def utf8(x):
    try:
        x.decode()
        return True
    except UnicodeDecodeError:
        return False


def concretize(rng, group, lib, times=1):
    """group: cases with the same pattern rank, ctx; one file each"""
    p = group[0]["p"]
    need = sorted({l["k"] for g in group for l in g["file"]} | {p})
    for _ in range(40):
        f = rng.choice(KEYED + EXTRA * 3)
        if len(f[2]) >= len(need) and rng.random() < 2:
            break
    if len(f[2]) < len(need):
        f = EXTRA[-1]
    idx = sorted(rng.sample(range(len(f[2])), len(need)))
    meth = f[1]
    cl = f[2]
    if rng.random() < 0.3:
        cl = cl[::-1]
        meth = meth + ".rev" if meth else "rev"
    val = {k: cl[i] for k, i in zip(need, idx)}
    pats = [x for x in val[p] if utf8(x) and b"\0" not in x]
    if not pats:
        return None
    pat = rng.choice(pats).decode()
    header = rng.random() < 0.5
    ncol = rng.choice([1, 1, 2, 3])
    kc = rng.randrange(ncol)
    two = ncol > 1 and rng.random() < 0.3
    kc2 = rng.choice([x for x in range(ncol) if x != kc]) if two else None
    names = colnames(rng, ncol)
    argv = ["binsearch"]
    keys = []
    for col, m in ([(kc, meth)] if not two else ([(kc2, "plain"), (kc, meth)] if rng.random() < 0.5 else [(kc, meth), (kc2, "plain")])):
        n = names[col] if header and rng.random() < 0.5 else rng.choice([str(col + 1)] * 3 + (["+%d" % (ncol - col)] if header or all(g["file"] for g in group) else []))
        if m.split(".")[0] == "float" and (not header or "c%d" % (col + 1) not in names) and rng.random() < 0.4:
            keys.append("," + m.replace("float", "expr") + ",c%d" % (col + 1))
            continue
        keys.append(n + ("," + m if m else ""))
    order2first = two and keys[0].endswith("plain") and keys[0].split(",")[0] in (str(kc2 + 1), names[kc2], "+%d" % (ncol - kc2))
    if two:
        sd = rng.choice([":", "/", "@"])
        if sd in pat:
            return None
        full = "same" + sd + pat if order2first else pat + sd + "same"
        argv += [rng.choice(["-s", "--sub-delim"]), sd]
    else:
        full = pat
    if not (kc == 0 and meth in ("", "plain") and not two and rng.random() < 0.5):
        for k in keys:
            argv += ["-k", k]
    ctx = group[0]["ctx"]
    if any(ctx):
        n = max(len(g["file"]) for g in group)
        # more lines than there are: how many more does not matter
        ctx = [x * times for x in ctx]
        bm, bn, am, an = [rng.choice([10 ** 9, 2 ** 62, 2 ** 64 - 1]) if x > n * times and rng.random() < 0.5 else x for x in ctx]
        if bm == am and bn == an:
            argv += ["-C", str(bm) if bm == bn else "%d.%d" % (bm, bn)]
        else:
            argv += ["--context", "%d.%d,%d.%d" % (bm, bn, am, an)]
    fname = rng.random() < 0.15
    if fname:
        argv += ["-H", "fn:1"]
    head = (" CDX\t" + "\t".join(names) + "\n").encode() if header else b""
    out = b""
    if header:
        out = (" CDX\t" + ("fn\t" if fname else "") + "\t".join(names) + "\n").encode()
    files = {}
    pad = rng.choice([3, 3, 3, 3, 45]) if rng.random() > 0.004 * (times == 1) else 7500       # now and then long lines
    for g, case in enumerate(group):
        rows = []
        for n, l in enumerate(case["file"]):
            v = [b"p%d" % (7 * n % 5) + b"x" * (l["n"] * pad) for _ in range(ncol)]
            v[kc] = rng.choice(val[l["k"]])
            if two:
                v[kc2] = b"same"
            rows += [b"\t".join(v)] * times
        data = head + b"".join(x + b"\n" for x in rows)
        # the last line cannot be both empty and unterminated
        if not case["nl"] and rows and rows[-1]:
            data = data[:-1]
        if not header and data.startswith(b" CDX"):
            return None
        nm = "d%d/f%d.txt" % (g, g) if fname and rng.random() < 0.0 else "f%d.txt" % g
        files[nm] = data
        if g == 0 and not two and not any(ctx) and "expr" not in keys[0] and rng.random() < 0.5:
            hit = [x + b"\n" for x in rows[(case["first"] - 1) * times:(case["stop"] - 1) * times]]
            if hit and (case["stop"] - 1) * times == len(rows) and not data.endswith(b"\n"):
                hit[-1] = hit[-1][:-1]
            lib.append(([b"bound", "%d,%s" % (kc + 1, meth or "plain"), "\t".join(names), data[len(head):], pat], [hit[0] if hit else b"", b"".join(hit)]))
        for x in rows[(case["first"] - 1) * times:(case["stop"] - 1) * times]:
            out += (nm.encode() + b"\t" if fname else b"") + x + b"\n"
    argv += ["--", full] + list(files)
    return Job(argv, files), {"status": 0, "out": out}


def big(rng):
    r = rng.randint(1, 12)
    n = rng.randint(1, 40)
    ks = sorted(2 * rng.randint(1, r) for _ in range(n))
    return {"file": [{"k": k, "n": rng.choice([1, 1, 2, 3, 5, 9])} for k in ks], "p": rng.randint(1, 2 * r + 1), "nl": rng.random() < 0.7,
            "ctx": [rng.randint(0, 3) for _ in range(4)] if rng.random() < 0.5 else [0, 0, 0, 0]}


def small_ctx(rng):
    n = rng.randint(0, 5)
    ks = sorted(2 * rng.randint(1, 3) for _ in range(n))
    c = [rng.randint(0, 3) for _ in range(4)]
    if rng.random() < 0.4:
        c = [c[0], c[1], c[0], c[1]] if rng.random() < 0.5 else [c[0]] * 4
    return {"file": [{"k": k, "n": rng.choice([1, 2, 3])} for k in ks], "p": rng.randint(1, 7), "nl": rng.random() < 0.7, "ctx": c}


def p08(c):
    build(lib=True)
    given = [big(c.rng) for _ in range(c.pick(150, 1500))] + [small_ctx(c.rng) for _ in range(c.pick(1200, 8000))]
    cases = behaviours(c, "BinSearch", {"MaxLines": c.pick(4, 5), "MaxLen": c.pick(2, 3), "Ranks": 3},
                       ["OnLines", "Loop", "ExactRange", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    by = {}
    for k in cases:
        by.setdefault((k["p"], tuple(k["ctx"])), []).append(k)
    items, lib = [], []
    for k in cover(c.rng, cases, c.pick(9000, 60000)):
        g = [k]
        while c.rng.random() < 0.2:
            g.append(c.rng.choice(by[(k["p"], tuple(k["ctx"]))]))
        x = concretize(c.rng, g, lib)
        if x:
            items.append(x)
    # RangeLaw of spec/Scale.tla: every line, and the lines of context, many times over
    scale_laws(c)
    for k in cover(c.rng, cases, c.pick(150, 1000)):
        if sum(l["n"] for l in k["file"]) < 60:
            x = concretize(c.rng, [k], lib, factor(c.rng, len(k["file"])))
            if x:
                items.append(x)
    replay(c, items, "binsearch", timeout_ms=10000)
    for (q, w), (kind, v) in zip(lib, run_lib([x[0] for x in lib])):
        if kind != "ok" or v != w:
            c.violation("lower_bound and equal_range of %r in %r: got %s %r, specified %r" % (q[4], q[3], kind, v, w), {"request": [repr(x) for x in q]})
    c.traces(len(lib))


if __name__ == "__main__":
    go({"P08": p08})
