"""P18: sample"""
from common import *

HEADS = [["a", "b"], ["x"], ["one", "two", "three"]]


def case(rng, k):
    h = k["how"]
    argv = ["sample"]
    if h["k"] == "even":
        n = h["n"]
        argv += [rng.choice(["-s", "--sample"]), str(n)]
    elif h["k"] == "for":
        far = max(k["files"] + [0])
        by, to = h["by"], h["to"]
        # a step, or an end, beyond the last line
        if h["from"] + by > min(far, to) and rng.random() < 0.5:
            by = rng.choice([far + 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1])
        if to > far and rng.random() < 0.2:
            to = rng.choice([2 ** 32, 2 ** 63, 2 ** 64 - 1])
        v = "%d,%d,%d" % (by, h["from"], to)
        if h["to"] > max(k["files"] + [0]) and rng.random() < 0.5:
            v = "%d,%d" % (by, h["from"])
            if h["from"] == 1:
                v = "%d" % by
        argv += [rng.choice(["-f", "--for"]), v]
    else:
        argv += [rng.choice(["-r", "--range"]), ",".join("%d" % a if a == b_ and rng.random() < 0.7 else "%d-%d" % (a, b_) for a, b_ in h["rs"])]
    head = (" CDX\t" + "\t".join(rng.choice(HEADS)) + "\n").encode() if rng.random() < 0.5 else b""
    files = {}
    lines = []
    rep = rng.choice([1, 1, 3, 40])
    same = rng.random() < 0.1 and h["k"] != "even"
    for n, m in enumerate(k["files"]):
        ls = [b"line%s" % (b"" if same else b"%d.%d" % (n, i)) * rng.randint(1, rep) + b"\n" for i in range(1, m + 1)]
        if m and rng.random() < 0.1:
            ls[rng.randrange(m)] = b"\n"
        if h["k"] == "even":
            ls = [b"%d.%d\t%s\n" % (n, i, b"z" * rng.randint(0, rep)) for i in range(1, m + 1)]
        lines.append(ls)
        d = head + b"".join(ls)
        if ls and ls[-1] != b"\n" and rng.random() < 0.15:
            d = d[:-1]
        files["f%d" % n] = gzip.compress(d, 1, mtime=0) if d and rng.random() < 0.06 else d
        argv.append("f%d" % n)
    hd = head if head and k["files"] else b""
    if h["k"] != "even":
        return Job(argv, files), {"status": 0, "out": hd + b"".join(lines[o["f"] - 1][o["i"] - 1] for o in k["out"])}

    # any choice that satisfies EvenRight is as good as the one the specification makes
    def judge(r):
        if r.status != 0:
            return "failed"
        if not r.out.startswith(hd):
            return "no header"
        got = r.out[len(hd):].split(b"\n")
        if got.pop() != b"":
            return "last line incomplete"
        at = 0
        for n, m in enumerate(k["files"]):
            cnt = min(m, max(h["n"], 2))
            idx = []
            for g in got[at:at + cnt]:
                try:
                    fn, i = g.split(b"\t")[0].split(b".")
                    i = int(i)
                except ValueError:
                    return "not an input line %r" % g[:50]
                if int(fn) != n or not 1 <= i <= m or lines[n][i - 1] != g + b"\n":
                    return "wrong line %r" % g[:50]
                idx.append(i)
            at += cnt
            if len(idx) != cnt:
                return "%d lines instead of %d" % (len(idx), cnt)
            if m and (idx[0] != 1 or idx[-1] != m):
                return "first or last line missing"
            for a, b_ in zip(idx, idx[1:]):
                if a >= b_:
                    return "out of order"
                if (b_ - a) * (cnt - 1) > 2 * (m - 1):
                    return "gap of %d in %d lines sampled to %d" % (b_ - a, m, cnt)
        if at != len(got):
            return "too many lines"
        return None
    return Job(argv, files), {"judge": judge, "out": None, "note": "any even choice is accepted"}


def given(rng):
    k = rng.choice(["even", "even", "for", "range"])
    h = {"k": k, "n": 0, "by": 0, "from": 0, "to": 0, "rs": []}
    files = [rng.choice([0, 1, 2, 3, 7, 20, 33, 64, 65, rng.randint(1, 150)]) for _ in range(rng.randint(1, 3))]
    top = max(files) + 2
    if k == "even":
        h["n"] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 30, 64])
    elif k == "for":
        h["by"], h["from"] = rng.randint(1, 9), rng.randint(1, top)
        h["to"] = rng.choice([top + 5, rng.randint(1, top)])
    else:
        for _ in range(rng.randint(1, 5)):
            a = rng.randint(1, top)
            h["rs"].append([a, rng.choice([a, a + rng.randint(0, 20), rng.randint(1, top)])])
    return {"files": files, "how": h}


def large(rng, no):
    """files of tens of thousands of lines, by the meanings EvenRight and Wanted of the specification"""
    m = [66000, 70001, 131073, 30000][no % 4]
    h = {"k": ["even", "for", "range"][no % 3], "n": 0, "by": 0, "from": 0, "to": 0, "rs": []}
    out = []
    if h["k"] == "even":
        h["n"] = [2, 3, 10, 24, 100, 999, 4096, 10000, 33000][no // 3 % 9]
    elif h["k"] == "for":
        h["by"], h["from"], h["to"] = rng.choice([1, 3, 255, 256, 1000, 4999, 32768, 65536]), rng.choice([1, 7, 300, 65530]), rng.choice([m + 10, m, m - 1, 65537])
        out = [x for x in range(h["from"], m + 1, h["by"]) if x <= h["to"]]
    else:
        h["rs"] = [[a, a + rng.randint(0, 9)] for a in (rng.choice([1, 250, 1000, 32760, 65530, m - 5, m]) for _ in range(3))]
        out = [x for x in range(1, m + 1) if any(a <= x <= b for a, b in h["rs"])]
    return {"files": [m], "how": h, "out": [{"f": 1, "i": x} for x in out]}


def p18(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Sample", {"MaxFiles": 2, "MaxLines": c.pick(40, 140), "Evens": c.pick("{0,2,3,4,5,7}", "0..12"), "Bound": 3},
                       ["InOrder", "EvenRight", "PickRight", "RoomRight", "Emit"], [given(rng) for _ in range(c.pick(800, 6000))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if k["how"]["k"] == "even"]
    rest = [k for k in cases if k["how"]["k"] != "even"]
    n = c.pick(3000, 30000)
    replay(c, [case(rng, k) for k in cover(rng, big, n) + cover(rng, rest, n)], "sample")
    replay(c, [case(rng, large(rng, no)) for no in range(c.pick(27, 108))], "sample")


if __name__ == "__main__":
    go({"P18": p18})
