"""P12: cat.  P20: headers across files."""
from common import *

HEADS = {1: [["a", "b"], ["x"], ["one", "two", "three"], ["A1", "b_2"]]}


def other(rng, names):
    """a different but good header with the same number of columns"""
    k = rng.randrange(4)
    n2 = list(names)
    if k == 0 and len(names) > 1:
        n2[0], n2[1] = n2[1], n2[0]
    elif k == 1:
        n2[-1] = n2[-1] + "x"
    elif k == 2:
        n2[0] = n2[0].swapcase() if n2[0].swapcase() not in n2 else "zz"
    else:
        n2[0] = "zz"
    return n2


def malformed(rng, names):
    if rng.random() < 0.15:
        return rng.choice([[], [""], ["a", "\xa0"]])      # cut off
    n2 = list(names)
    i = rng.randrange(len(n2))
    n2[i] = rng.choice(["1" + n2[i], n2[i] + "-", n2[i] + " x", "", "_" + n2[i], n2[i] + "."])
    return n2


def head_line(names):
    return b" CDX\n" if not names else (" CDX\t" + "\t".join(names) + "\n").encode()


TOOLS = [("cat",), ("cat", "-p", "Yes"), ("cat", "--skip", "exact,nosuchline"), ("cat", "-r", "prefix,nosuchline"), ("cut", "--fields=-"), ("cut", "-f", "1-"),
         ("cgrep", "-v", "-p", "1,exact,nosuch"), ("cgrep", "-p", "1,prefix,"), ("cgrep",), ("sort", "-k", "1,equal"), ("sort", "-m", "-k", "1,equal"),
         ("sort", "-m", "-A", "-k", "1,equal"), ("sample", "-f", "1"), ("sample", "-r", "1-100"), ("sample", "-s", "100")]


def head_case(rng, k):
    good = rng.choice(HEADS[1])
    names = {1: good, 2: other(rng, good), 3: malformed(rng, good)}
    tool = rng.choice(TOOLS)
    if tool[:2] == ("sort", "-m") and any(x["h"] == 3 for x in k["files"]):
        tool = ("cat",)
    data = {}
    lines = []
    argv = list(tool)
    for n, x in enumerate(k["files"]):
        ls = [b"\t".join(b"%c%d.%d" % (rng.choice(b"abz"), n, i) for _ in good) + b"\n" for i in range(x["n"])]
        lines.append(ls)
        d = (head_line(names[x["h"]]) if x["h"] else b"") + b"".join(ls)
        if ls and rng.random() < 0.1 and tool[:2] != ("sort", "-m"):
            d = d[:-1]
        data["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.06 else d
        argv.append("f%d" % n)
    out = b"".join(head_line(names[o["h"]]) if o["h"] else lines[o["f"] - 1][o["i"] - 1] for o in k["out"])
    return Job(argv, data), ({"status": 0, "out": out} if k["ok"] else {"status": "fail"})


def p20(c):
    build(lib=True)
    rng = c.rng
    given = []
    for _ in range(c.pick(800, 6000)):
        hs = rng.choice([[0], [1], [1], [2], [0, 1], [1, 2], [0, 1, 2, 3]])
        given.append({"files": [{"h": rng.choice(hs), "n": rng.randint(0, 4)} for _ in range(rng.randint(2, 7))],
                      "mode": rng.choice(["match"] * 4 + ["require", "strip", "none", "trust", "ignore"])})
    cases = behaviours(c, "Headers", {"MaxFiles": 3, "MaxLines": c.pick(1, 2),
                                      "Modes": '{"match", "require", "strip", "none", "trust", "ignore"}'},
                       ["RefusesRight", "DataRight", "HeadRight", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    m = [k for k in cases if k["mode"] == "match"]
    items = [head_case(rng, k) for k in cover(rng, m, c.pick(6000, 60000))]
    replay(c, items, "headers")
    # the library's checker in every mode
    reqs, want = [], []
    for k in cover(rng, cases, c.pick(8000, 40000)):
        good = rng.choice(HEADS[1])
        names = {1: good, 2: other(rng, good), 3: malformed(rng, good)}
        firsts = [head_line(names[x["h"]]) if x["h"] else b"some line\n" for x in k["files"] if x["h"] or x["n"]]
        reqs.append([b"headcheck", k["mode"].capitalize() if rng.random() < 0.5 else k["mode"], *firsts])
        want.append(b"".join(b"T" if x else b"F" for x in k["said"]) + (b"" if k["ok"] else b"E"))
    for q, w, (kind, v) in zip(reqs, want, run_lib(reqs)):
        if kind != "ok" or v[0] != w:
            c.violation("header checker %r: got %s %r, specified %r" % (q, kind, v[:1], w), {"request": [repr(x) for x in q]})
    c.traces(len(reqs))


def sizes(rng, n):
    """how many real bytes a data symbol stands for, so that reads end at every possible place"""
    return rng.choice([1, 1, 2, 3, 100, 8191, 8192, 8193, 16383, 16384, 16385, 5461])


def cat_case(rng, k):
    names = rng.choice(HEADS[1])
    head = head_line(names)
    argv = ["cat"]
    p = {"yes": "Yes", "no": "No", "end": "End"}[k["pad"]]
    if k["pad"] != "yes" or rng.random() < 0.5:
        argv += [rng.choice(["-p", "--pad"]), p]
    big = sizes(rng, 0)
    if len(k["files"]) > 3 and big > 200:
        big = 3
    files = {}
    nxt, pos = [0], [0]
    align = len(k["files"]) <= 3 and rng.random() < 0.15

    def sym(s):
        if s == 0:
            pos[0] += 1
            return b"\n"
        nxt[0] += 1
        t = (b"%d" % nxt[0])
        n = big if rng.random() < 0.7 else rng.randint(1, 5)
        if align and rng.random() < 0.8:   # lines and files that end where a read may
            n = max(1, rng.choice([8192, 8192, 16384, 24576]) - pos[0] % 8192 - rng.choice([0, 0, 1]))
        pos[0] += n
        return (t * n)[:n]
    body = []
    for n, x in enumerate(k["files"]):
        pos[0] = len(head) if x["h"] else 0
        body.append([sym(s) for s in x["d"]])
        d = (head if x["h"] else b"") + b"".join(body[-1])
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.06 else d
        argv.append("f%d" % n)
    flat = [t for ss in body for t in ss if t != b"\n"]
    out = b""
    j = 0
    for s in k["out"]:
        if s == 2:
            out += head
        elif s == 0:
            out += b"\n"
        else:
            out += flat[j]
            j += 1
    return Job(argv, files), {"status": 0, "out": out}


def num_case(rng, k):
    names = rng.choice(HEADS[1])
    head = rng.random() < 0.5
    argv = ["cat"]
    opts = []
    numbering = rng.random() < 0.8
    st, where, cname = k["start"], "begin", "number"
    if numbering:
        where = rng.choice(["begin", "end"])
        if st == 1 and rng.random() < 0.4:
            opts.append([rng.choice(["-b", "--begin"]) if where == "begin" else rng.choice(["-e", "--end"])])
        else:
            cname = rng.choice(["number", "Nr", "n_1"])
            v = "%s,%d" % (cname, st)
            if where == "end" or rng.random() < 0.5:
                v += "," + (where if rng.random() < 0.7 else where.capitalize())
            opts.append([rng.choice(["-n", "--number"]), v])
            if st == 0 and where == "begin" and rng.random() < 0.3:
                opts[-1][1] = cname
    # a removed line starts with R or r (two matchers), a skipped one contains S
    rm = rng.choice([["prefix,R"], ["prefix,R", "prefix,r"], ["regex,^[Rr]"]])
    sk = rng.choice([["infix,S"], ["infix,S", "infix,s"]])
    style = rng.choice(["", "", "", "skip ends", "remove ends", "skip empty", "remove empty", "skip blank"])
    if style == "skip ends":
        sk = rng.choice([["suffix,S"], ["regex,S$"], ["glob,*S"]])
    elif style == "remove ends":
        rm = rng.choice([["suffix,R"], ["regex,R$"], ["glob,*R"]])
    elif style == "skip empty":
        sk = rng.choice([["empty"], ["exact,"], ["regex,^$"], ["length,0,0"]])
    elif style == "remove empty":
        rm = rng.choice([["empty"], ["exact,"], ["regex,^$"], ["length,0,0"]])
    elif style == "skip blank":
        sk = [rng.choice(["blank", "regex,^\\s*$"])]
    if any(l["rm"] for f in k["files"] for l in f) or rng.random() < 0.3:
        opts.extend([[rng.choice(["-r", "--remove"]), x] for x in rm])
    if any(l["sk"] and not l["rm"] for f in k["files"] for l in f) or not opts:
        opts.extend([[rng.choice(["-s", "--skip"]), x] for x in sk])
    rng.shuffle(opts)
    for o in opts:
        argv += o
    files = {}
    rows = []
    for n, x in enumerate(k["files"]):
        rs = []
        for i, l in enumerate(x):
            a = rng.choice([b"R", b"r"] if len(rm) > 1 or rm[0].startswith("regex") else [b"R"]) if l["rm"] else rng.choice([b"v", b"", b"xR"])
            b_ = rng.choice([b"S", b"s"] if len(sk) > 1 else [b"S"]) if l["sk"] else b""
            line = b"\t".join([a + b"%d.%d" % (n, i) + b_] + [b"c"] * (len(names) - 1))
            more = [b"\tc"] * (len(names) - 1)
            if style == "skip ends":
                a = b"R" if l["rm"] else b"S"
                if l["rm"] and len(rm) > 1:
                    a = b"r"
                line = a + b"%d" % i + b"".join(more) + (b"S" if l["sk"] else rng.choice([b"", b"Sx", b"S "]))
            elif style == "remove ends":
                line = rng.choice([b"R", b"v"]) + (b"S" if l["sk"] else b"") + b"%d" % i + b"".join(more) + (b"R" if l["rm"] else rng.choice([b"", b"Rx", b"R "]))
            elif style == "remove empty":
                line = b"" if l["rm"] else rng.choice([b"v", b" ", b"%d" % i]) + (b"S" if l["sk"] else b"") + b"".join(more)
            elif style.startswith("skip") and not l["rm"]:
                if l["sk"]:
                    line = b"" if style == "skip empty" else rng.choice([b"", b" ", b"  ", b"\t", b" \t "])
                else:
                    line = rng.choice([b"v", b"0", b"  x"]) + b"".join(more)
            rs.append(line)
        rows.append(rs)
        d = (head_line(names) if head else b"") + b"".join(r + b"\n" for r in rs)
        if rs and rs[-1] and rng.random() < 0.15:
            d = d[:-1]
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.06 else d
        argv.append("f%d" % n)
    out = b""
    if head and k["files"]:
        hn = list(names)
        if numbering:
            hn = [cname] + hn if where == "begin" else hn + [cname]
        out += head_line(hn)
    for o in k["out"]:
        r = rows[o["f"] - 1][o["i"] - 1]
        if numbering:
            v = b"".join(b"%d" % x for x in o["num"])
            r = v + b"\t" + r if where == "begin" else r + b"\t" + v
        out += r + b"\n"
    return Job(argv, files), {"status": 0, "out": out}


def p12(c):
    build()
    rng = c.rng
    given = []
    for _ in range(c.pick(1500, 10000)):
        h = rng.random() < 0.4
        given.append({"pad": rng.choice(["yes", "no", "end"]),
                      "files": [{"h": h, "d": [rng.choice([0, 1, 1]) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))]} for _ in range(rng.randint(1, 5))]})
    cases = behaviours(c, "Cat", {"MaxFiles": 2, "MaxLen": c.pick(3, 4), "Chunk": 2}, ["Right", "KnowsEnd", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    replay(c, [cat_case(rng, k) for k in cover(rng, cases, c.pick(4000, 40000))], "cat")
    given = [{"start": rng.choice([0, 1, 5, 99, 1000000]),
              "files": [[{"rm": rng.random() < 0.25, "sk": rng.random() < 0.3} for _ in range(rng.randint(0, 8))] for _ in range(rng.randint(1, 4))]}
             for _ in range(c.pick(1000, 8000))]
    cases = behaviours(c, "CatNum", {"MaxFiles": 2, "MaxLines": c.pick(2, 3), "Starts": "{0, 1}"}, ["Right", "Emit"], given, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    replay(c, [num_case(rng, k) for k in cover(rng, cases, c.pick(3000, 30000))], "cat with line options")
    # the same meaning for long files and large numbers
    items = []
    for start in [1, 0, 65000, 99000, 999990, 2 ** 31 - 5, 2 ** 32 - 5, 2 ** 53 - 3, -7]:
        end, many = rng.random() < 0.5, 150000 if start < 2 else 2000
        data, out, n = [], [], start
        for i in range(many):
            skip, rm = rng.random() < 0.05, rng.random() < 0.05
            data.append("gone" if rm else "skip" if skip else "x%d" % (i % 10))
            if not rm:
                out.append(data[-1] + "\t" + ("" if skip else str(n)) if end else ("" if skip else str(n)) + "\t" + data[-1])
                n += not skip
        d = {"f0": data[:many // 3], "f1": data[many // 3:]}
        items.append((Job(["cat", "-n", "no,%d,%s" % (start, "end" if end else "begin"), "-s", "exact,skip", "-r", "exact,gone", "f0", "f1"],
                          {k: ("\n".join(v) + "\n").encode() for k, v in d.items()}), {"status": 0, "out": ("\n".join(out) + "\n").encode()}))
    replay(c, items, "numbering of long files")


if __name__ == "__main__":
    go({"P12": p12, "P20": p20})
