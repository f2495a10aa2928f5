"""P28: filegen"""
from common import *
import re


def spec(rng, g, i):
    """a spelling of the generator"""
    k, a, b, cc = g["k"], g["a"], g["b"], g["c"]
    if k in ("null", "grid"):
        return k
    if k == "count":
        if cc == 0 and rng.random() < 0.5:
            return "count"
        return "count,%d" % cc
    if k == "expr":
        e = rng.choice(["%d*line+%d*col+%d", "line*%d+col*%d+%d", "(line*%d)+(col*%d)+%d"]) % (a, b, cc) if cc >= 0 else "%d*line+%d*col-%d" % (a, b, -cc)
        if (a, b, cc) == (1, 0, 0) and rng.random() < 0.5:
            e = "line"
        if (a, b, cc) == (0, 1, 0) and rng.random() < 0.5:
            e = "col"
        return "expr,plain," + e
    if k == "decimal":
        p = "".join(rng.choice("N9x0") for _ in range(a))
        q = "".join(rng.choice("N9x0") for _ in range(b))
        return "decimal," + ("-" if cc else "") + p + ("." + q if b or (p and rng.random() < 0.2) else "")
    return "normal,%d,%d%s" % (a, b, rng.choice([",plain", ",float", ",plain.3"]))


def case(rng, k):
    argv = []
    columns = []
    at = 0
    for o in k["opts"]:
        s = spec(rng, o["gen"], at)
        for _ in range(o["m"]):
            columns.append(o["gen"])
        if o["m"] == 1 and rng.random() < 0.6:
            argv += [rng.choice(["-c", "--column"]), s]
        else:
            argv += [rng.choice(["-m", "--multi"]), "%d,%s" % (o["m"], s)]
    extra = []
    if k["n"] != 10 or rng.random() < 0.5:
        extra.append([rng.choice(["-n", "--lines"]), str(k["n"])])
    if k["head"]:
        extra.append([rng.choice(["-h", "--with-header"])])
    for e in extra:
        p = rng.choice([0, len(argv)])
        argv[p:p] = e
    argv = ["filegen"] + argv

    def judge(r):
        t = r.out.decode("utf-8", "replace")
        if t and not t.endswith("\n"):
            return "last line is not ended"
        if r.err:
            return "writes to standard error"
        ls = t.split("\n")[:-1]
        if k["head"]:
            want = " CDX\t" + "\t".join("c%d" % (i + 1) for i in range(k["width"]))
            if not ls or ls[0] != want:
                return "wrong header"
            ls = ls[1:]
        if len(ls) != k["n"]:
            return "%d lines instead of %d" % (len(ls), k["n"])
        seen = [set() for _ in range(k["width"])]
        for i, (l, row) in enumerate(zip(ls, k["out"])):
            cs = l.split("\t")
            if len(cs) != len(row):
                return "%d columns instead of %d" % (len(cs), len(row))
            for j, (x, s) in enumerate(zip(cs, row)):
                if s["t"] == "empty":
                    ok = x == ""
                elif s["t"] == "pair":
                    ok = x == "%d_%d" % (s["x"], s["y"])
                elif s["t"] == "num":
                    ok = x == "%d" % s["x"]
                elif s["t"] == "decimal":
                    m = re.match(r"(-?)(\d+)(\.(\d+))?$", x)
                    sign = columns[j]["c"]
                    pre = s["x"] or (0 if s["y"] else 4)
                    ok = bool(m) and (sign or not m[1]) and int(m[2]) < 10 ** pre and len(m[4] or "") == s["y"]
                    if ok:
                        seen[j].add(m[1] + m[2] + (m[4] or ""))
                        seen[j].add("-" if m[1] else "+")
                else:
                    try:
                        v = float(x)
                        seen[j].add(v)
                        ok = abs(v - s["x"]) <= 12 * s["y"] + 0.01
                    except ValueError:
                        ok = False
                if not ok:
                    return "line %d column %d is %s" % (i + 1, j + 1, x)
        if k["n"] >= 300:
            for j, g in enumerate(columns):
                if g["k"] == "decimal" and (g["c"] and not {"+", "-"} <= seen[j]):
                    return "column %d has one sign only" % (j + 1)
                if g["k"] == "decimal" and g["a"] + g["b"] == 1 and len({x.lstrip("-") for x in seen[j] if x not in "+-"}) != 10:
                    return "column %d does not have all digits" % (j + 1)
                if g["k"] == "normal" and g["b"]:
                    v = list(seen[j])
                    mean = sum(v) / len(v)
                    dev = (sum((x - mean) ** 2 for x in v) / len(v)) ** 0.5
                    if abs(mean - g["a"]) > g["b"] / 2 or not g["b"] / 2 < dev < 2 * g["b"]:
                        return "column %d is not spread as asked" % (j + 1)
        return None
    return Job(argv, {}), {"status": 0, "judge": judge}


def gen(rng):
    k = rng.choice(["null", "grid", "count", "count", "expr", "expr", "decimal", "normal"])
    a, b, c = rng.choice([0, 1, 2, 7]), rng.choice([0, 1, 3, 50]), rng.choice([0, 0, 1, -1, 9, -40, 98765])
    if k == "decimal":
        a, b, c = rng.choice([0, 1, 2, 5, 18]), rng.choice([0, 0, 1, 2, 18]), rng.choice([0, 1])
    if k == "normal":
        a, b, c = rng.choice([0, 5, -7, 1000]), rng.choice([0, 1, 3, 20]), 0
    if k == "expr" and rng.random() < 0.4:
        a, b, c = rng.choice([(1, 0, 0), (0, 1, 0), (1, 1, 0)])
    return {"k": k, "a": a, "b": b, "c": c}


def given(rng, n=None):
    return {"opts": [{"m": rng.choice([1, 1, 1, 2, 3, 0]), "gen": gen(rng)} for _ in range(rng.randint(0, 5))],
            "n": rng.choice([0, 1, 2, 3, 9, 10, 11, 30]) if n is None else n, "head": rng.random() < 0.4}


REFUSED = [["-c", "nosuch"], ["-c", "grid,", "-c", "gird"], ["-n", "x"], ["-m", "grid"], ["-m", "x,grid"], ["-c", "count,x"],
           ["-c", "decimal,NNNNNNNNNNNNNNNNNNNNNNNN"], ["-c", "decimal,N.NNNNNNNNNNNNNNNNNNNNNNNN"], ["-c", "normal,1,2,plain,4"],
           ["-c", "normal,x"], ["-c", "normal,1,1e999"], ["-c", "expr,1+"], ["-c", "normal,1,2,nosuch"], ["-n=-1"]]


def p28(c):
    build()
    rng = c.rng
    gs = [given(rng) for _ in range(c.pick(500, 5000))] + [given(rng, 300) for _ in range(c.pick(12, 60))]
    cases = behaviours(c, "FileGen", {"MaxOpts": 2, "MaxLines": c.pick(2, 3), "Mult": c.pick("{0, 1, 2}", "{0, 1, 2, 3}"),
                                      "Gens": '{"null", "grid", "count", "expr", "decimal", "normal"}'}, ["Table", "Emit"], gs, props=["Terminates"])
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if len(k["opts"]) > 2 or k["n"] > 3]
    items = [case(rng, k) for k in cover(rng, big, c.pick(1500, 15000)) + cover(rng, cases, c.pick(2000, 15000))]
    # beyond the integers of the model
    for s in (9223372036854775807, -9223372036854775807, 2147483647):
        items.append((Job(["filegen", "-n", "3", "-c", "count,%d" % s], {}), {"status": 0, "out": b"".join(b"%d\n" % (s + i) for i in range(3))}))
    for a in REFUSED:
        items.append((Job(["filegen"] + a, {}), {"status": "fail", "out": b""}))
    replay(c, items, "filegen")


if __name__ == "__main__":
    go({"P28": p28})
