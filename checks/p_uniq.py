"""P09: uniq groups, counts and choice of line.  P10: aggregators."""
from common import *
from flavors import KEYED


def header(names):
    return (" CDX\t" + "\t".join(names) + "\n").encode()


def pick(rng, n, pool=KEYED, blank=False):
    """an ordering with at least n classes, one of them blank: (method, n ascending classes)"""
    fits = [f for f in pool if len(f[2]) >= n and (not blank or f[2][0] == [b""])]
    if not fits:
        return "numeric", [[b"%d" % (x * 3)] for x in range(n)]
    f = rng.choice(fits)
    idx = sorted(rng.sample(range(len(f[2])), n))
    if blank:
        idx = sorted({0} | set(idx[1:]))
    return f[1], [f[2][i] for i in idx]


def key_columns(rng, ks, blank=False):
    """key cells per line and the key specs: [(cells...)], [spec per key column]"""
    top = max(ks + [1])
    if not blank and rng.random() < 0.3:
        m1, c1 = pick(rng, (top + 1) // 2)
        m2, c2 = pick(rng, 2)
        pair = {k: ((k - 1) // 2, (k - 1) % 2) for k in range(1, top + 1)}
        return [(rng.choice(c1[pair[k][0]]), rng.choice(c2[pair[k][1]])) for k in ks], [m1, m2]
    m, c = pick(rng, top, blank=blank)
    order = list(range(top))
    rng.shuffle(order)    # uniq needs equality only
    return [(rng.choice(c[order[k - 1]]),) for k in ks], [m]


def lay(rng, ks, blank=False):
    """columns of a file: key cells placed at random positions among filler; returns rows, nkey, positions, methods"""
    cells, meths = key_columns(rng, ks, blank)
    ncol = len(meths) + rng.randint(1, 3)
    pos = rng.sample(range(ncol), len(meths))
    rows = []
    for n, cs in enumerate(cells):
        r = [b"t%d.%d" % (n, x) for x in range(ncol)]
        for p, v in zip(pos, cs):
            r[p] = v
        rows.append(r)
    return rows, ncol, pos, meths


def keyargs(rng, names, pos, meths):
    argv = []
    for p, m in zip(pos, meths):
        col = names[p] if names and rng.random() < 0.5 else str(p + 1)
        if m == "float" and not (names and "c%d" % (p + 1) in names) and rng.random() < 0.3:
            argv += [rng.choice(["-k", "--key"]), ",expr,c%d" % (p + 1)]
            continue
        argv += [rng.choice(["-k", "--key"]), col + ("," + m if m else "") if rng.random() < 0.8 or m != "plain" else col]
    return argv


# whole lines that are easily taken for each other, or for nothing
ODD = [b"", b"a", b"A", b"aa", b"\t", b"a\t", b"\ta", b" ", b"a ", b" a", b"0", b"1", b"00", b"\t\t", b"\r", b"a\r"]


def finish(rng, argv, data, nrows):
    if nrows and data.endswith(b"\n") and not data.endswith(b"\n\n") and data != b"\n" and rng.random() < 0.15:
        data = data[:-1]
    if rng.random() < 0.06:
        data = gzip.compress(data, 1, mtime=0)
    if rng.random() < 0.3:
        return Job(argv + (["-"] if rng.random() < 0.5 else []), stdin=data)
    return Job(argv + ["in"], {"in": data})


def uniq_case(rng, case, times=1):
    ks = [x["k"] for x in case["lines"]]
    vs = [x["v"] for x in case["lines"]]
    whole = rng.random() < 0.15 and case["which"] in ("first", "last")
    ragged = not whole and rng.random() < 0.2
    blank = ragged and rng.random() < 0.7
    rows, ncol, pos, meths = lay(rng, ks, blank)
    vm, vc = pick(rng, max(vs + [1]), blank=blank)
    vrev = rng.random() < 0.25
    if vrev:
        vc = vc[::-1]
    vpos = rng.choice([x for x in range(ncol) if x not in pos])
    uneven = False
    if whole:
        rows = [[b"c%d" % k] + [b"w"] * (ncol - 1) for k in ks]
        if rng.random() < 0.5 and max(ks + [1]) <= len(ODD):
            odd = rng.sample(ODD, max(ks + [1]))
            rows = [[odd[k - 1]] for k in ks]
            uneven = True
    else:
        for n, r in enumerate(rows):
            r[vpos] = rng.choice(vc[vs[n] - 1])
    head = rng.random() < 0.5
    if ragged:
        # lines that end early: what is missing is empty
        for n, r in enumerate(rows):
            if n or head:
                for x in range(ncol):
                    if x not in pos and x != vpos and rng.random() < 0.7:
                        r[x] = b""
                while len(r) > 1 and r[-1] == b"":
                    r.pop()
        uneven = True
    names = colnames(rng, ncol) if head else None
    argv = ["uniq"]
    opts = []
    if not whole:
        opts.append(keyargs(rng, names, pos, meths))
    w = case["which"]
    if w != "first" or rng.random() < 0.3:
        spec = w if rng.random() < 0.7 else w.capitalize()
        if w in ("min", "max"):
            col = names[vpos] if head and rng.random() < 0.5 else str(vpos + 1)
            m = (vm + ".rev" if vm else "rev") if vrev else vm
            spec += "," + col + ("," + m if m else "")
        opts.append(["-w", spec])
    # a count, or an aggregate that changes nothing, selects the other loops
    cpos = None
    cname = "count"
    agg = False
    if case["path"] == "tmp" and w in ("first", "last"):
        agg = w == "last" or rng.random() < 0.4
    elif w in ("min", "max"):
        agg = rng.random() < 0.3
    if agg and uneven and not ragged:              # beside aggregates, lines are brought to the width of the header
        return uniq_case(rng, case, times)
    if case["path"] != "stream" and (rng.random() < 0.7 or (case["path"] == "tmp" and w == "first" and not agg)):
        cname = rng.choice(["", "count", "Num"])
        cpos = rng.choice(["begin", "end"])
        if cpos == "begin":
            tail = rng.choice(["", ",", ",begin", ",start", ",first"])
            if cname == "" and tail == "":
                tail = ","
        else:
            tail = rng.choice([",end", ",stop", ",last"])
        opts.append([rng.choice(["-c", "--count"]), cname + tail])
        cname = cname or "count"
    pre = agg and rng.random() < 0.4
    if agg:
        opts.append(["--agg-pre" if pre else "--agg-post", "extra,1,count"])
    rng.shuffle(opts)
    for o in opts:
        argv += o
    data = (header(names) if head else b"") + b"".join((b"\t".join(r) + b"\n") * times for r in rows)
    out = b""
    if head:
        h = list(names)
        if agg:
            h = ["extra"] + h if pre else h + ["extra"]
        if cpos == "begin":
            h = [cname] + h
        elif cpos == "end":
            h = h + [cname]
        out = header(h)
    if not ks and not head:
        data, out = b"", b""
    for (a, z), n in zip(case["runs"], case["out"]):
        r = list(rows[n - 1])
        c = b"%d" % ((z - a + 1) * times)
        if agg:
            r += [b""] * (ncol - len(r))
            c = num(int(c))     # beside aggregates the count is written as they are
            r = [c] + r if pre else r + [c]
        if cpos == "begin":
            r = [c] + r
        elif cpos == "end":
            r = r + [c]
        out += b"\t".join(r) + b"\n"
    return finish(rng, argv, data, len(rows)), {"status": 0, "out": out}


def p09(c):
    build()
    scale_laws(c)
    given = []
    for _ in range(c.pick(300, 2500)):
        nk = c.rng.randint(1, 4)
        given.append({"lines": [{"k": c.rng.randint(1, nk), "v": c.rng.randint(1, 4)} for _ in range(c.rng.randint(0, 20))]})
    cases = behaviours(c, "Uniq", {"MaxLen": c.pick(4, 5), "Keys": "{1,2}", "Vals": c.pick("{1,2}", "{1,2,3}")},
                       ["OneEach", "CountRight", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    replay(c, [uniq_case(c.rng, k) for k in cover(c.rng, cases, c.pick(5000, 50000))], "uniq")
    # RunLaw: every line written many times over
    few = [k for k in cases if len(k["lines"]) > 1]
    replay(c, [uniq_case(c.rng, k, factor(c.rng, 1)) for k in cover(c.rng, few, c.pick(120, 1000))], "uniq of long runs")


def num(v):
    """the default number format for whole numbers"""
    if 1 <= v < 1000:
        return b"%d" % v
    s = str(v).rstrip("0")
    return b"0e0" if v == 0 else (s[0] + ("." + s[1:] if len(s) > 1 else "") + "e%d" % (len(str(v)) - 1)).encode()


# ------------------------------------------------------------------ aggregators
LETTERS = [(b"a", b"b"), (b"A", b"a"), (b"1", b"2"), (b"x", "é".encode()), ("é".encode(), "日".encode()), (b"m", b"~")]


def num_eq(got, want, odd=False):
    if odd:
        got = (re.match("[-+]?[0-9]+[.]?[0-9]*(e-?[0-9]+)?", got) or ["0"])[0]
    try:
        return abs(float(got) - want) <= 1e-9 * max(1.0, abs(want))
    except ValueError:
        return False


def show_num(rng, n, den, odd):
    """a decimal text of n/den; odd: text that is read as that number"""
    v = n / den
    if odd and v == 0 and rng.random() < 0.7:
        return rng.choice([b"", b"x", b"-", b"none", b"_1"])
    if odd and rng.random() < 0.3:
        return repr(v).encode() + rng.choice([b"_", b" x", b"%", b",", b"#9"])
    if v == int(v) and rng.random() < 0.7:
        t = "%d" % v
        return (t if rng.random() < 0.7 else t + ".0").encode()
    return repr(v).encode()


def agg_case(rng, case, times=1):
    groups, res = case["groups"], case["res"]
    nsym = max([s for gr in groups for v in gr for s in v["w"]] + [2])
    if nsym > 2:
        let = tuple(b"abcdefgh"[x:x + 1] for x in range(nsym))
        rng.random() and None
    else:
        let = rng.choice(LETTERS)
    uni = any(len(x) > 1 for x in let)
    sep = rng.choice([b",", b",", b";", b" ", b"/"])
    if sep >= min(let):
        sep = b" "       # the separator is the lowest symbol, as in the specification
    syms = (sep,) + let
    den = rng.choice([1, 1, 2, 4, 8])
    odd = rng.random() < 0.25
    NUM = ["float"] if odd else ["num", "numeric", "float"]

    def word(w):
        return b"".join(syms[s] for s in w)
    numcol, wordcol, fill = 1, 2, 3
    width = 4
    order = rng.sample(range(4), 4)        # key, num, word, filler positions
    only = rng.choice([1, 2]) if len(groups) == 1 and rng.random() < 0.2 else 0
    if only:                               # a file of that column alone, all lines alike
        width, order = 1, [0, 0, 0, 0]
    rows, starts = [], []
    for gi, gr in enumerate(groups):
        starts.append(len(rows))
        for v in gr:
            cells = [b"g%d" % (gi % 3 if len(groups) > 3 else gi), show_num(rng, v["n"], den, odd), word(v["w"]), b"f%d" % len(rows)]
            r = [b""] * width
            for what, at in enumerate(order):
                r[at] = cells[only or what]
            rows.append(r)
    head = bool(only) or rng.random() < 0.5
    names = colnames(rng, width)
    specs = []       # (which column, text, kind, expected per group)

    def col(what):
        return names[order[what]] if head and rng.random() < 0.5 else str(order[what] + 1)
    U = "utf8." if uni or rng.random() < 0.3 else ""
    wsep = U == "" and sep == b" " or U and sep == b" "
    cnt = rng.choice([("chars", "c")] + ([("swords", "w")] if wsep else []) + ([("awords", "w")] if let in LETTERS[:3] or (uni and U and let != LETTERS[5]) else []))
    start = rng.choice([7, -3, 0, -70000, 1000000])
    pool = [
        ("num", "sum", [r["sum"] * times / den for r in res]),
        ("num", rng.choice(["mean", "avg"]), [r["sum"] / r["cnt"] / den for r in res]),
        ("num", rng.choice(["min", "minimum"]) + "," + rng.choice(NUM), [r["nlo"] / den for r in res]),
        ("num", rng.choice(["max", "maximum"]) + "," + rng.choice(NUM), [r["nhi"] / den for r in res]),
        ("num", rng.choice(["max", "maximum"]) + ",float.rev", [r["nlo"] / den for r in res]),
        ("num", rng.choice(["min", "minimum"]) + ",float.rev", [r["nhi"] / den for r in res]),
        ("num", "count", [float(r["cnt"] * times) for r in res]),
        ("num", "count,%d" % start, [float(r["cnt"] * times + start) for r in res]),
        ("word", rng.choice(["min", "min,plain", "minimum"]), [word(r["lo"]) for r in res]),
        ("word", rng.choice(["max", "max,plain", "maximum"]), [word(r["hi"]) for r in res]),
        ("word", "asum," + U + cnt[0], [float(r[cnt[1] + "sum"] * times) for r in res]),
        ("word", "amin," + U + cnt[0], [float(r[cnt[1] + "min"]) for r in res]),
        ("word", "amax," + U + cnt[0], [float(r[cnt[1] + "max"]) for r in res]),
        ("word", rng.choice(["amean,", "aavg,"]) + U + cnt[0], [r[cnt[1] + "sum"] / r["cnt"] for r in res]),
    ]
    if len(set(map(len, let))) == 1 and len(let[0]) == 1:
        pool += [("word", rng.choice(["min,length", "minimum,len", "max,length.rev"]), [word(r["slo"]) for r in res]),
                 ("word", rng.choice(["max,length", "maximum,len", "min,rev.length"]), [word(r["shi"]) for r in res])]
    nv = None

    def numvar():
        n = names[order[1]]
        return n if head and n.isascii() and n.isalnum() and n[0].isalpha() and n not in ("s", "e", "pi") and not re.fullmatch("c[0-9]+", n) and rng.random() < 0.5 else "c%d" % (order[1] + 1)
    if times == 1 and not (head and "c%d" % (order[1] + 1) in names):     # a column named c2 is not column 2
      pool += [("expr", "expr,s,1,2*s+%s*%d" % (numvar(), den), [float(r["fold"]) for r in res]),
               ("expr", "expr,zz,%s,zz+%s" % (rng.choice(["0", "0.0", "-0"]), numvar()), [r["sum"] / den for r in res]),
               ("expr", "expr,k,-3,(k+1)", [float(r["cnt"] - 3) for r in res])]
    if not uni:
        # on bytes; for multi-byte symbols the common part could end inside a symbol
        pool += [("word", "prefix", [word(r["pre"]) for r in res]), ("word", "suffix", [word(r["suf"]) for r in res])]
    od = rng.choice([b";", b"|", b"+", sep])
    opts, key = [], "parts"
    srt, unq = rng.random() < 0.6, rng.random() < 0.5
    bylen = (srt or unq) and not uni and rng.random() < 0.3
    key = {(0, 0): "parts", (1, 0): "sorted", (0, 1): "uniq", (1, 1): "suniq"}[(int(srt), int(unq))]
    if bylen:
        key = "l" + key
    if srt:
        opts.append("sort")
    if unq:
        opts.append("uniq")
    if sep != b"," or od != b"," or rng.random() < 0.3:
        opts.append("D" + sep.decode() + od.decode())
    parts = [[word(x) for x in r[key]] for r in res]
    if rng.random() < 0.3:
        mn = rng.randint(0, 2)
        opts.append("min_len:%d" % mn)
        parts = [[x for x in ps if len(x) >= mn] for ps in parts]
    if rng.random() < 0.3:
        mx = rng.randint(0, 3)
        opts.append("max_len:%d" % mx)
        parts = [[x for x in ps if len(x) <= mx] for ps in parts]
    if rng.random() < 0.3:
        mp = rng.randint(0, 3)
        opts.append("max_parts:%d" % mp)
        parts = [ps[:mp] for ps in parts]
    rng.shuffle(opts)
    if bylen:
        opts.append(rng.choice(["comp:length", "comp:len"]))
    elif srt and rng.random() < 0.3:
        opts.append("comp:plain")
    m = ("word", "merge" + ("," + ".".join(opts) if opts else ""), [od.join(ps) if "D" + sep.decode() + od.decode() in opts else b",".join(ps) for ps in parts])
    if times == 1:
        pool += [m, m]
    if times == 1 and sep == b",":
        pool.append(("word", "merge,count" + (".sort" if srt else ""), [float(len(r["parts"])) for r in res]))
        pool.append(("word", "merge,sort.uniq.count", [float(len(r["suniq"])) for r in res]))
    if only:
        pool = [x for x in pool if x[0] == ("num" if only == 1 else "word")]
    nagg = rng.randint(1, 4)
    pre, post, rep = [], [], {}
    argv = ["uniq", "-k", col(0) + (",equal" if only else "")]
    for x in range(nagg):
        kind, text, want = rng.choice(pool)
        if kind == "expr":
            (pre if rng.random() < 0.5 else post).append(("x%d" % x, want))
            argv += ["--agg-pre" if pre and pre[-1][0] == "x%d" % x else "--agg-post", "x%d,%s" % (x, text)]
            continue
        what = numcol if kind == "num" else wordcol
        place = rng.choice(["pre", "post", "rep"])
        if place == "rep" and order[what] in rep:
            place = "post"
        if place == "rep":
            rep[order[what]] = want
            argv += [rng.choice(["-a", "--agg"]), "%s,%s" % (col(what), text)]
        elif place == "pre":
            pre.append(("x%d" % x, want))
            argv += ["--agg-pre", "x%d,%s,%s" % (x, col(what), text)]
        else:
            post.append(("x%d" % x, want))
            argv += ["--agg-post", "x%d,%s,%s" % (x, col(what), text)]
    last = rng.random() < 0.2
    if last:
        argv += ["-w", "last"]
    if head:
        hd = [n for n, _ in pre] + names + [n for n, _ in post]
    data = (header(names) if head else b"") + b"".join((b"\t".join(r) + b"\n") * times for r in rows)
    table = []
    for gi, gr in enumerate(groups):
        base = rows[starts[gi] + (len(gr) - 1 if last else 0)]
        table.append([w[gi] for _, w in pre] + [rep[x][gi] if x in rep else base[x] for x in range(width)] + [w[gi] for _, w in post])

    def judge(r):
        lines = r.out.split(b"\n")
        if lines[-1] != b"":
            return "output does not end with a newline"
        lines = lines[:-1]
        if head:
            if not lines or lines[0] + b"\n" != header(hd):
                return "wrong header"
            lines = lines[1:]
        if len(lines) != len(table):
            return "wrong number of groups"
        for ln, want in zip(lines, table):
            got = ln.split(b"\t")
            if len(got) != len(want):
                return "wrong number of columns"
            for a, w in zip(got, want):
                if not (num_eq(a.decode("latin-1"), w, odd) if isinstance(w, float) else a == w):
                    return "wrong value %r, specified %r" % (a, w)
        return None
    kinds = {"-a": "replace", "--agg": "replace", "--agg-pre": rng.choice(["prefix", "prepend", "PREFIX"]), "--agg-post": rng.choice(["append", "suffix", "Append"])}
    specs = ["%s,%s" % (kinds[o], v) for o, v in zip(argv[1:], argv[2:]) if o in kinds]
    lib = [b"lineagg", data, "\n".join(specs), ",".join(str(len(g) * times) for g in groups), "1" if last else "0"]
    return finish(rng, argv, data, len(rows)), {"status": 0, "judge": judge, "note": repr(table)[:1500], "lib": lib}


class Out:
    def __init__(self, out):
        self.out = out


def p10(c):
    build(lib=True)
    rng = c.rng
    given = []
    for _ in range(c.pick(400, 3000)):
        ns = rng.choice([2, 2, 4])
        common = [rng.randint(1, ns) for _ in range(rng.randint(0, 6))]

        def w():
            x = [rng.choice([0] + list(range(1, ns + 1))) for _ in range(rng.randint(0, 7))]
            return rng.choice([common + x, x + common, x, common])
        given.append({"groups": [[{"w": w(), "n": rng.randint(-40, 40)} for _ in range(rng.randint(1, 6))] for _ in range(rng.randint(1, 5))]})
    cases = behaviours(c, "Agg", {"MaxVals": 3, "MaxWord": c.pick(2, 2), "Syms": c.pick("{0,1}", "{0,1,2}")},
                       ["ResultsRight", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    items = [agg_case(rng, k) for k in cover(rng, cases, c.pick(6000, 50000))]
    replay(c, items, "aggregate")
    scale_laws(c)
    few = [agg_case(rng, k, factor(rng, 1)) for k in cover(rng, cases, c.pick(120, 1000))]
    replay(c, few, "aggregate of large groups")
    # the same aggregations through the library, which names the placement in the spec
    some = [w for _, w in items[:c.pick(2000, 20000)]]
    for w, (kind, v) in zip(some, run_lib([w["lib"] for w in some])):
        bad = w["judge"](Out(v[0])) if kind == "ok" else kind
        if bad:
            c.violation("library aggregators %r: %s" % (w["lib"][2], bad), {"request": [repr(x)[:2000] for x in w["lib"]], "got": repr(v)[:2000], "note": w["note"]})
    c.traces(len(some))
    c.count("library_aggregations", len(some))


if __name__ == "__main__":
    go({"P09": p09, "P10": p10})
