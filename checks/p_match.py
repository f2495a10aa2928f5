"""P15: what a pattern matches; P14: which lines cgrep selects"""
import itertools
from common import *

MODS = ["nocase", "trim", "null", "neg"]


def words(alpha, n):
    return [list(w) for k in range(n + 1) for w in itertools.product(alpha, repeat=k)]


def cut(rng, l, n):
    return l if len(l) <= n else [[]] + rng.sample(l, n - 1)


O = [ord(x) for x in "0159"]


def ips(rng, n):
    octs = ["0", "1", "9", "10", "99", "100", "199", "200", "249", "250", "255", "256", "260", "299", "300", "999", "00", "001", "0001", "", "x", "-1", " 1"]
    good = octs[:11] + ["00", "001"]
    out = []
    for _ in range(n):
        k = rng.choice([4, 4, 4, 4, 3, 5])
        s = ".".join(rng.choice(good if rng.random() < 0.75 else octs) for _ in range(k))
        if rng.random() < 0.15:
            s = rng.choice([s + ".", "." + s, s.replace(".", "x", 1), s + "\n", s.replace(".", "..", 1)])
        out.append(list(s.encode()))
    return out


def nums(rng, n):
    out = words([ord(x) for x in "-5.e"], 3)
    for _ in range(n):
        s = "".join(rng.choice("-0579.eE+") for _ in range(rng.randint(1, 7)))
        t = rng.choice(["", "-", "+"]) + rng.choice(["", "0", "42", "1e"]) + rng.choice(["", ".", ".5", "..5"]) + rng.choice(["", "e5", "E-3", "e+5", "E+07", "e+", "e", "e1.5", "e12"])
        out += [list(s.encode()), list(t.encode())]
    return out


def regexes(rng, alpha, n):
    out = []
    for _ in range(n):
        alts = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            alts.append({"bol": rng.random() < 0.4, "eol": rng.random() < 0.4,
                         "atoms": [{"c": rng.choice(alpha + [46]), "rep": rng.choice(["one", "one", "one", "star", "plus", "opt"])} for _ in range(rng.randint(0, 4))]})
        out.append(alts)
    return out


REP = {"one": "", "star": "*", "plus": "+", "opt": "?"}
CASEFUL = ["prefix", "suffix", "infix", "exact", "glob"]


def plan(rng, unit, thorough):
    """(text sets, specs): every method with every combination of modifiers, over texts chosen to matter to it"""
    sets, specs = [], []
    k = 5 if thorough else 1

    def add(texts, methods, pats, per):
        sets.append(texts)
        for m in methods:
            for mods in itertools.product([False, True], repeat=4):
                for p in (pats(m) if len(pats(m)) <= per else rng.sample(pats(m), per)):
                    specs.append((len(sets), dict(zip(MODS, mods), method=m, multi="one", pats=[p])))

    def multi(ts, methods, pats, cnt):
        for _ in range(cnt):
            m = rng.choice(methods)
            specs.append((ts, dict({x: rng.random() < 0.35 for x in MODS}, method=m, multi=rng.choice(["or", "and"]),
                                   pats=[rng.choice(pats(m)) for _ in range(rng.randint(1, 4))])))
    if unit == "byte":
        a = [97, 65, 98]
        add(cut(rng, words(a, 5), 150), CASEFUL, lambda m: words(a, 3), 5 * k)
        multi(1, CASEFUL, lambda m: words(a, 2), 60 * k)
        pu = [91, 123, 64, 96, 97]      # not letters, though they differ by one bit the way letters of either case do
        add(cut(rng, words(pu, 4), 120), CASEFUL, lambda m: words(pu, 2), 5 * k)
        sp = [32, 9, 97, 1]
        add(cut(rng, words(sp, 4), 120), CASEFUL + ["empty", "yes", "blank"], lambda m: words(sp, 2) if m in CASEFUL else [[]], 3 * k)
        cm = [32, 35, 47, 97]
        add(cut(rng, words(cm, 4), 120), ["comment", "hash", "slash"], lambda m: words(cm, 2) if m == "comment" else [[]], 4 * k)
        g = [97, 98, 42, 63]
        add(cut(rng, words(g, 3) + words([97, 98], 6), 160), ["glob"], lambda m: words(g, 5), 30 * k)
        multi(len(sets), ["glob"], lambda m: words(g, 3), 30 * k)
        raw = [195, 169, 97, 255]
        add(cut(rng, words(raw, 4), 120), CASEFUL, lambda m: [[195, 169], [97], [97, 195, 169], [], [195, 169, 63], [63, 42]], 3 * k)
        lens = [[x] for x in range(5)] + [[x, y] for x in range(5) for y in range(6)]
        add(cut(rng, words([97, 32, 255], 5), 100), ["length"], lambda m: lens, 6 * k)
        add(nums(rng, 60), ["integer", "number", "float"], lambda m: [[]], 1)
        add(ips(rng, 150), ["ip"], lambda m: [[]], 1)
        r = [97, 98, 65]
        add(cut(rng, words(r, 4), 120), ["regex"], lambda m, R=regexes(rng, r, 400): R, 12 * k)
        multi(len(sets), ["regex"], lambda m, R=regexes(rng, r, 100): R, 30 * k)
        lines = words([97, 65, 98], 3) + words([97, 32], 3)
        add(words([97, 65, 98], 3) + words([97, 32], 3), ["file-exact"], lambda m, L=[[rng.choice(lines) for _ in range(rng.randint(0, 6))] for _ in range(60)]: L, 4 * k)
    else:
        a = [97, 209, 241, 931, 963, 107, 8490, 65]
        add(cut(rng, words(a, 3), 150), CASEFUL, lambda m: words(a, 2), 6 * k)
        multi(1, CASEFUL, lambda m: words(a, 2), 60 * k)
        td = [304, 97, 105, 775]        # a letter whose lower case is two characters (glob goes by single characters)
        add(cut(rng, words(td, 3), 85), CASEFUL[:4], lambda m: words(td, 2), 8 * k)
        sp = [32, 160, 8195, 97, 1]
        add(cut(rng, words(sp, 4), 120), CASEFUL + ["empty", "blank"], lambda m: words([97, 160], 2) if m in CASEFUL else [[]], 3 * k)
        g = [97, 241, 209, 42, 63]
        add(cut(rng, words([97, 241, 209], 4), 120), ["glob"], lambda m: words(g, 4), 20 * k)
        add(cut(rng, words([97, 241, 8490, 32], 4), 100), ["length"], lambda m: [[x] for x in range(5)] + [[x, y] for x in range(5) for y in range(6)], 5 * k)
        r = [97, 241, 209]
        add(cut(rng, words(r, 4), 120), ["regex"], lambda m, R=regexes(rng, r, 300): R, 8 * k)
        lines = words([97, 209, 241], 3)
        add(words([97, 209, 241], 3), ["file-exact"], lambda m, L=[[rng.choice(lines) for _ in range(rng.randint(0, 6))] for _ in range(60)]: L, 4 * k)
    return sets, specs


def enc(unit, u):
    return bytes(u) if unit == "byte" else "".join(map(chr, u)).encode()


def filler(rng, f):
    n = rng.choice([300, 1100, 2100])
    more = b"".join(b"no text is equal to this %d\n" % i for i in range(n))
    return more + f if rng.random() < 0.7 else more[:n].rsplit(b"\n", 1)[0] + b"\n" + f + more


def pat_text(unit, method, p):
    if method == "length":
        return ",".join(map(str, p)).encode()
    if method == "regex":
        return b"|".join((b"^" if r["bol"] else b"") + b"".join(enc(unit, [x["c"]]) + REP[x["rep"]].encode() for x in r["atoms"]) + (b"$" if r["eol"] else b"") for r in p)
    if method == "file-exact":
        return b"@FILE@"
    return enc(unit, p)


ALIAS = {"infix": ["infix", "substr", "substring"], "file-exact": ["file-exact", "fileexact"], "regex": ["regex", "regex", ""]}
NAME = {"nocase": "case", "trim": "trim", "null": "null", "neg": "not"}


def spec_text(rng, unit, s):
    parts = [NAME[m] for m in MODS if s[m]] + ([s["multi"]] if s["multi"] != "one" else []) + (["utf8"] if unit == "char" else [])
    parts = [p if rng.random() < 0.8 else p.upper() for p in parts]
    name = rng.choice(ALIAS.get(s["method"], [s["method"]]))
    if name:
        parts.append(name)
    rng.shuffle(parts)
    pats = [pat_text(unit, s["method"], p) for p in s["pats"]]
    body = pats[0]
    if s["multi"] != "one":
        ok = [d for d in (b"/", b":", b";", b",", b"%") if not any(d in p for p in pats)]
        d = rng.choice(ok)
        body = d + d.join(pats)
    return ".".join(parts).encode(), body


def p15(c):
    build(lib=True)
    rng = c.rng
    # the glob loop itself
    glob = []
    for _ in range(c.pick(1500, 10000)):
        p = [rng.choice([97, 98, 42, 42, 63, 65]) for _ in range(rng.randint(0, 9))]
        t = [rng.choice([97, 98, 97, 98, 65, 42]) for _ in range(rng.randint(0, 14))]
        if rng.random() < 0.6:
            t = []
            for x in p:
                t += [rng.choice([97, 98]) for _ in range(rng.randint(0, 3))] if x == 42 else [rng.choice([97, 98])] if x == 63 else [x]
            if t and rng.random() < 0.3:
                t[rng.randrange(len(t))] = 97
        glob.append({"pat": p, "text": t, "nocase": rng.random() < 0.4})
    gs = behaviours(c, "Glob", {"MaxPat": c.pick(4, 5), "MaxText": c.pick(4, 5), "PatBytes": "{97, 98, 42, 63}", "TextBytes": "{97, 98}"},
                    ["Right", "Anchored", "Emit"], glob, props=["Terminates"])
    reqs, meta = [], []
    for g in gs:
        reqs.append([b"match", (b"case.glob," if g["nocase"] else b"glob,") + bytes(g["pat"]), b"", bytes(g["text"])])
        meta.append(b"1" if g["yes"] else b"0")
    c.count("glob_cases", len(gs))
    specs = 0
    for unit in ("byte", "char"):
        sets, plans = plan(rng, unit, c.thorough)
        out = behaviours(c, "Match", {"Unit": '"%s"' % unit}, ["Right", "Laws", "Emit"],
                         [{"ts": t, "spec": s} for t, s in plans], name="Match_" + unit, props=["Terminates"],
                         extra={"texts.ndjson": "".join(json.dumps(x) + "\n" for x in sets)})
        for o in out:
            s = o["spec"]
            head, body = spec_text(rng, unit, s)
            spec = head + (b"," + body if body or rng.random() < 0.5 else b"")
            f = b""
            if s["method"] == "file-exact":
                f = b"".join(enc(unit, l) + b"\n" for l in s["pats"][0])
                if rng.random() < 0.1:          # among many lines that no text is equal to
                    f = filler(rng, f)
                if f and s["pats"][0] and s["pats"][0][-1] and rng.random() < 0.3:
                    f = f[:-1]
            texts = sets[o["ts"] - 1]
            yes = set(o["lang"])
            reqs.append([b"match", spec, f] + [enc(unit, t) for t in texts])
            meta.append(bytes(49 if i + 1 in yes else 48 for i in range(len(texts))))
        specs += len(out)
    texts_n = 0
    PATHS = ["Matcher", "MatcherList", "column of a line", "whole line"]
    for q, (kind, v), want in zip(reqs, run_lib(reqs), meta):
        texts_n += len(want)
        if kind != "ok":
            c.violation("pattern %r: %s %r" % (q[1], kind, v), {"request": [repr(x) for x in q[:40]]})
            continue
        for name, got in zip(PATHS, v):
            bad = [i for i in range(len(want)) if got[i:i + 1] not in (want[i:i + 1], b"-")]
            if bad:
                c.violation("pattern %r against %r (%s): got %s, specified %s" % (q[1], q[3 + bad[0]], name, chr(got[bad[0]]), chr(want[bad[0]])),
                            {"spec": repr(q[1]), "file": repr(q[2]), "path": name, "wrong": [[repr(q[3 + i]), chr(got[i]), chr(want[i])] for i in bad[:20]]})
                break
    c.traces(len(reqs))
    c.count("patterns", specs)
    c.count("pattern_text_pairs", texts_n)
    c.sample({"kind": "pattern", "spec": repr(reqs[-1][1]), "texts": [repr(x) for x in reqs[-1][3:8]], "specified": repr(meta[-1][:5])})



# ------------------------------------------------------------------ cgrep
#   order used by comp, the values 0..3 in that order
VALUES = [("", [b"", b"a", b"bb", b"ccc"]), ("plain", [b"", b"k", b"mm", b"zzz"]), ("length", [b"", b"x", b"cc", b"aaa"]), ("lower", [b"", b"a", b"BB", b"ccc"]),
          ("", [b"", b"1", b"20", b"300"]), ("plain", [b"", "é".encode(), "ñ".encode() + b"o", "日本".encode()])]
SINGLE = ("", [b"", b"a", b"b", b"c"])
SYM = {"LT": "<", "GT": ">", "LE": "<=", "GE": ">=", "EQ": "==", "NE": "!="}
FLIP = {"LT": "GT", "GT": "LT", "LE": "GE", "GE": "LE", "EQ": "EQ", "NE": "NE"}
DETS = ["all", "some", "none", "notall", "mixed", "uniform", "atmost", "atleast", "exactly", "atmostno", "atleastno", "exactlyno"]


def accepting(rng, vals, hits, files):
    """method and pattern that accept exactly these of the four values"""
    hits = sorted(set(hits))
    v = [vals[h].decode() for h in hits]
    opts = [("or.exact", "/" + "/".join(v))] if hits else [("exact", "no such")]
    if hits:
        opts.append((rng.choice(["regex", ""]), "^(" + "|".join(v) + ")$"))
        opts.append(("or.glob", ":" + ":".join(v)))
        opts.append(("utf8.case.or.exact", ";" + ";".join(x.upper() for x in v)))
        opts.append(("trim.or.exact", "," + ",".join(v)))
    full = [h for h in hits if h]
    name = "list%d" % len(files)
    m = "file-exact" if 0 not in hits else "null.file-exact"
    opts.append((m, name))
    if len(full) == 1:
        x = vals[full[0]].decode()
        for meth in ("prefix", "suffix", "infix", "glob"):
            opts.append((("null." if 0 in hits else "") + meth, x + "*" if meth == "glob" else x))
    if hits == [0]:
        opts += [("empty", ""), ("blank", ""), ("length", "0,0")]
    if hits == [0, 1, 2, 3]:
        opts += [("yes", ""), ("length", "0"), ("", "")]
    if vals[1:] == [b"a", b"bb", b"ccc"] and hits and hits == list(range(hits[0], hits[-1] + 1)):
        opts.append(("length", "%d,%d" % (hits[0], hits[-1])))
    if vals[1] in (b"a", b"k") and vals[2] != b"BB" and full and hits == list(range(hits[0], hits[-1] + 1)):
        lo, hi = vals[hits[0]].decode(), vals[hits[-1]].decode()
        opts.append(("range", ("<=%s" % hi if hits[0] == 0 else ">=%s<=%s" % (lo, hi)) if rng.random() < 0.5 else ("LE,%s" % hi if hits[0] == 0 else "GE,%s,LE,%s" % (lo, hi))))
    o = rng.choice(opts)
    if o[0].endswith("file-exact"):
        files[name] = b"".join(x.encode() + b"\n" for x in v if x)
        if rng.random() < 0.03:
            files[name] = filler(rng, files[name])
    return o


def colname(rng, n, width, head):
    names = HEAD
    if head and rng.random() < 0.6:
        return names[n - 1]
    return str(n)


def matcher(rng, k, comp, vals, width, head, files):
    neg = "not." if k["neg"] else ""
    if k["kind"] == "count":
        return ",count,%d" % k["num"]
    if k["kind"] == "whole":
        t = b"\t".join(vals[h] for h in k["hits"]).decode()
        return "," + neg + rng.choice(["exact," + t, "regex,^" + t + "$"])
    cols = k["cols"]
    if not cols:
        cs = rng.choice(["(exact,none)", "(prefix,zz)"] if head else ["%d,~%d" % (k["tgt"], k["tgt"])])
    elif rng.random() < 0.15:      # everything in between but the others
        cs = "%d-%d" % (cols[0], cols[-1]) + "".join(",~%d" % x for x in range(cols[0], cols[-1]) if x not in cols)
    elif head and len(cols) == 1 and rng.random() < 0.15:
        cs = "(exact,%s)" % HEAD[cols[0] - 1]
    elif len(cols) > 1 and cols == list(range(cols[0], cols[-1] + 1)) and rng.random() < 0.5:
        cs = colname(rng, cols[0], width, head) + "-" + colname(rng, cols[-1], width, head)
    else:
        cs = ",".join(colname(rng, x, width, head) for x in cols)
    det = k["det"]
    if det in DETS[6:]:
        n = str(k["num"]) if k["den"] == 0 else repr(k["num"] / k["den"])
        det += "," + n
    elif rng.random() < 0.2:
        det = det.upper()
    if k["kind"] == "comp":
        op = k["op"]
        c = comp
        if rng.random() < 0.3:
            op, c = FLIP[op], (comp + ".rev" if comp else "rev")
        if k["det"] == "some" and len(cols) == 1 and "," not in cs and rng.random() < 0.5:
            grp = cs
        elif k["det"] == "some" and rng.random() < 0.5:
            grp = "[" + cs + "]"
        else:
            grp = "[" + det + "," + cs + "]"
        return colname(rng, k["tgt"], width, head) + ",comp," + (SYM[op] if rng.random() < 0.6 else op + ".") + grp + ("," + c if c else "")
    m, p = accepting(rng, vals, k["hits"], files)
    m = neg + m if m else neg.rstrip(".")
    tail = "," + m + ("," + p if p else "")
    if k["kind"] == "col":
        return colname(rng, cols[0], width, head) + tail
    return "[" + det + "," + cs + "]" + tail


HEAD = ["a", "A", "aa", "É", "é", "six"]


def given14(rng, tag, store):
    width = rng.randint(1, 6)
    comp, vals = rng.choice(VALUES)
    head = rng.random() < 0.6
    ms = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 4])):
        kind = rng.choice(["col", "col", "set", "set", "comp", "whole", "count"])
        det = rng.choice(DETS)
        den, num = 0, rng.randint(0, width + 1)
        cols = sorted(rng.sample(range(1, width + 1), rng.randint(1, width)))
        if kind == "col":
            cols = cols[:1]
        if kind == "comp" and rng.random() < 0.4:
            cols, det = cols[:1], "some"
        if kind in ("set", "comp") and rng.random() < 0.06:
            cols = []                # a set of columns may turn out to be empty
        if det in DETS[6:] and rng.random() < 0.5:
            den = rng.choice([2, 4, 10])
            num = rng.randint(0, den)
            q, r = divmod(2 * num * len(cols), den)
            if r == 0 and q % 2:
                den, num = 2, 1      # a tie that a decimal fraction cannot express exactly
        hits = [h for h in range(4) if rng.random() < 0.5]
        if kind == "whole":
            hits = [rng.randint(0, 3) for _ in range(rng.randint(1, width))]
        if kind == "count":
            num = rng.randint(1, width + 1)
        ms.append({"kind": kind, "neg": kind in ("col", "set", "whole") and rng.random() < 0.35, "hits": hits, "cols": cols, "det": det, "num": num, "den": den,
                   "tgt": rng.randint(1, width), "op": rng.choice(list(SYM))})
    whole = [m["hits"] for m in ms if m["kind"] == "whole"]
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ls = []
        for _ in range(rng.choice([0, 1, 2, 4, 8])):
            n = width if rng.random() < 0.85 else rng.randint(1, width + 1)
            cells = [rng.randint(0, 3) for _ in range(n)]
            if whole and rng.random() < 0.4:
                cells = list(rng.choice(whole))
            if rng.random() < 0.3:
                cells = [rng.choice(cells)] * len(cells)
            ls.append({"cells": cells, "len": sum(len(vals[x]) + 1 for x in cells)})
        files.append(ls)
    h = (" CDX\t" + "\t".join(HEAD[:width]) + "\n").encode() if head else b""
    store[tag] = (width, comp, vals, h)
    return {"tag": tag, "files": files, "hdr": len(h), "ms": ms, "anyof": rng.random() < 0.4, "invert": rng.random() < 0.3}


def grep_job(rng, k, store):
    if k["tag"]:
        width, comp, vals, h = store[k["tag"]]
    else:
        width, (comp, vals) = len(k["files"][0][0]["cells"]), SINGLE
        h = b""
    extra, files, names = {}, {}, []
    opts = [[rng.choice(["-p", "--pattern"]), matcher(rng, m, comp, vals, width, h, extra)] for m in k["ms"]]
    opts = [o if not o[1].startswith("-") else ["--pattern=" + o[1]] for o in opts]
    if rng.random() < 0.03:          # many more patterns, that make no difference
        keep = ",exact,there is no such value" if k["anyof"] else ",prefix,"
        opts = [["-p", str(rng.randint(1, width)) + keep] for _ in range(rng.choice([5, 9, 40]))] + opts
    if k["anyof"]:
        opts.append([rng.choice(["-o", "--or"])])
    if k["invert"]:
        opts.append([rng.choice(["-v", "--invert"])])
    loc = []
    if k["tag"] and rng.random() < 0.45:
        loc = rng.sample(["line", "bytes", "name"], rng.randint(1, 3))
        heads = ["n%d" % i if rng.random() < 0.4 else None for i in range(len(loc))]
        spec = ",".join((n + ":" + x) if n else x for x, n in zip(loc, heads))
        opts.append([rng.choice(["-l", "--location"]), spec])
    rng.shuffle(opts)
    argv = ["cgrep"] + [x for o in opts for x in o]
    wrote = False
    out = b""
    texts = []
    for n, ls in enumerate(k["files"]):
        name = "f%d" % n
        lines = [b"\t".join(vals[x] for x in l["cells"]) + b"\n" for l in ls]
        texts.append(lines)
        d = h + b"".join(lines)
        if not ls and rng.random() < 0.5:
            d = b""
        if d:
            wrote = wrote or bool(h)
        if lines and len(lines[-1]) > 1 and not lines[-1].endswith(b"\t\n") and rng.random() < 0.15:
            d = d[:-1]
        files[name] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.05 else d
        names.append(name)
    argv += names
    if wrote:
        cols = []
        if loc:
            cols = [n or {"line": "line", "bytes": "bytes", "name": "filename"}[x] for x, n in zip(loc, heads)]
        out += b" CDX\t" + "\t".join(cols).encode() + (b"\t" if cols else b"") + h[5:]
    for o in k["out"]:
        for x in loc:
            out += {"line": str(o["line"]), "bytes": str(o["pos"]), "name": names[o["file"] - 1]}[x].encode() + b"\t"
        out += texts[o["file"] - 1][o["line"] - 1]
    files.update(extra)
    return Job(argv, files), {"status": 0, "out": out}


def p14(c):
    build()
    rng = c.rng
    store = {}
    given = [given14(rng, t + 1, store) for t in range(c.pick(5000, 40000))]
    ks = behaviours(c, "Cgrep", {"Width": c.pick(3, 4), "Dets": "{" + ",".join('"%s"' % d for d in DETS) + "}", "Nums": "{0, 1, 2, 3, 4}"},
                    ["Right", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(ks))
    items = [grep_job(rng, k, store) for k in ks]
    replay(c, items, "cgrep")
    scale_laws(c)
    plain = [(j, w) for j, w in items if not set(j.argv) & {b"-l", b"--location"}]
    replay(c, blocks(c, plain, c.pick(100, 800)), "cgrep of long files")


if __name__ == "__main__":
    go({"P15": p15, "P14": p14})
