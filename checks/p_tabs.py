"""P27: tabs"""
from common import *
import fcntl, pty, struct, subprocess, termios, tempfile
from concurrent.futures import ThreadPoolExecutor

ONE = list("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789.,+é") + ["ß", "λ", "ж"]
TWO = list("漢字日本語中文한글")


def cell(rng, ws, mark=None):
    s = "".join(rng.choice(ONE) if x == 1 else rng.choice(TWO) for x in ws)
    return mark + s[1:] if mark and s else s


def concrete(rng, x):
    """texts of the cells of one file, and its bytes"""
    rows = []
    for n, r in enumerate(x["rows"]):
        head = n == 0 and x["h"]
        # names of columns differ
        rows.append([cell(rng, cl, "abcdefghijklmn"[i] if head else None) for i, cl in enumerate(r)])
    d = "".join((" CDX\t" if n == 0 and x["h"] else "") + "\t".join(r) + "\n" for n, r in enumerate(rows)).encode()
    return rows, d


def lines(x, rows, o):
    """the ways to print the shown lines of one file: trailing blanks do not count, a header may lean either way"""
    res = []
    for up in (0, 1) if x["h"] else (0,):
        v = []
        for n, ln in enumerate(o["lines"]):
            s = []
            for i, k in enumerate(ln):
                t = rows[n][i][:k]
                pad = o["sizes"][i] - sum(x["rows"][n][i][:k])
                left = (pad + up) // 2 if n == 0 and x["h"] else 0
                s.append(" " * left + t + " " * (pad - left))
            v.append(" ".join(s).rstrip(" "))
        res.append(v)
    return res


def key(k):
    return json.dumps([k["files"], k["w"], k["h"]])


def gather(cases):
    by = {}
    for k in cases:
        by.setdefault(key(k), (k, []))[1].append(k["out"])
    return list(by.values())


def judge(k, outs, texts, names):
    """text -> None or what is wrong"""
    def f(text):
        got = [s.rstrip(" ") for s in text.split("\n")]
        if got and got[-1] == "":
            got.pop()
        if len(k["files"]) == 1:
            ok = any(got == v for o in outs for v in lines(k["files"][0], texts[0], o[0]))
            return None if ok else "not the specified layout"
        for o in outs:
            at = {0}
            for n, x in enumerate(k["files"]):
                nxt = set()
                for p in at:
                    for q in {p, p + 1 if p < len(got) and got[p].strip() == names[n] else p}:
                        for v in lines(x, texts[n], o[n]):
                            if got[q:q + len(v)] == v:
                                q2 = q + len(v)
                                if n + 1 < len(k["files"]):
                                    if q2 < len(got) and not got[q2].strip("-"):
                                        nxt.add(q2 + 1)
                                else:
                                    nxt.add(q2)
                at = nxt
            if len(got) in at:
                return None
        return "not the specified layout"
    return f


def given(rng, several, w, h):
    n = rng.choice([2, 2, 3, 4, 13]) if several else 1
    files = []
    for _ in range(n):
        hd = rng.random() < 0.5
        nc = rng.choice([1, 2, 3, 4])
        wide = rng.random() < 0.4
        wd = [rng.choice([0, 1, 2, 5, 9]) if not wide else rng.choice([0, 3, 8, w // nc, w // nc + 1, w // nc + 5, w]) for _ in range(nc + 1)]
        rows = []
        for r in range(rng.choice([1, 2, 3, 5, h // n, h, h + 1, h + 4]) if rng.random() < 0.95 else 0):
            m = max(1, nc + rng.choice([0, 0, 0, 0, -1, 1])) if r else nc
            row = []
            for i in range(m):
                z = [rng.choice([1, 1, 1, 2]) for _ in range(rng.randint(0, wd[i]) if rng.random() < 0.7 else wd[i])]
                if r == 0 and hd:
                    z = [1] + z[1:]
                row.append(z)
            rows.append(row)
        if hd and not rows:
            rows = [[[1, 1]]]
        files.append({"h": hd, "rows": rows})
    return {"files": files, "w": w, "h": h}


def on_terminal(argv, cwd, w, h):
    """run cdx with a terminal of w columns and h lines as its standard error"""
    m, s = pty.openpty()
    try:
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))
        p = subprocess.run([CDX] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=s, timeout=60)
    finally:
        os.close(s)
        os.close(m)
    return p.returncode, p.stdout


def p27(c):
    build(lib=True)
    rng = c.rng
    small = {"MaxRows": 2, "MaxCols": 2, "MaxWidth": c.pick(2, 3), "Ws": c.pick("{1, 2, 4, 6}", "{1, 2, 3, 4, 5, 6, 8}"), "Hs": c.pick("{1, 2}", "{0, 1, 2, 3}")}
    n = c.pick(250, 2500)
    gs = [given(rng, False, 100, 24) for _ in range(n)] + [given(rng, True, 100, 24) for _ in range(n)]
    gs += [given(rng, False, rng.choice([1, 3, 7, 20, 40]), rng.choice([1, 2, 5])) for _ in range(2 * n)]
    term = [given(rng, rng.random() < 0.5, rng.choice([9, 30, 79, 80, 132]), rng.choice([4, 9, 23])) for _ in range(n // 3)]
    # columns of hundreds and thousands of characters
    for w, h, wide in ((1000, 3, [300, 257]), (700, 2, [400]), (40, 2, [10] + [300] * c.pick(2, 9)), (300, 3, [256, 90, 255])):
        gs.append({"w": w, "h": h, "files": [{"h": False, "rows": [[[1] * (x - r) for x in wide] for r in range(2)]}]})
    cases = gather(behaviours(c, "Tabs", small, ["LaidOut", "NotWider", "CutRight", "Lines", "Emit"], gs + term, props=["Terminates"]))
    c.count("abstract_cases", len(cases))
    # the library, on a rectangle of any size
    lib = []
    for k, outs in cases:
        if len(k["files"]) == 1 and k["files"][0]["rows"]:
            rows, d = concrete(rng, k["files"][0])
            lib.append((k, outs, [rows], d))
    for (k, outs, t, d), (kind, v) in zip(lib, run_lib([[b"tabs", str(k["w"]), str(k["h"]), d] for k, _, _, d in lib])):
        got = "".join(x.decode("utf-8", "replace") + "\n" for x in v)
        bad = "crashed: " + got[:200] if kind != "ok" else judge(k, outs, t, ["x"])(got)
        if kind != "skipped" and bad:
            c.violation("tabs in %dx%d: %s" % (k["w"], k["h"], bad),
                        {"file": lat(d), "got": got[:4000], "specified": lines(k["files"][0], t[0], outs[0][0])[0]})
    c.traces(len(lib))
    c.count("replayed_tabs_library", len(lib))
    # the same, straight to standard output
    items = []
    for k, outs, t, d in cover(rng, lib, c.pick(900, 9000)):
        j = judge(k, outs, t, ["x"])
        size = [] if (k["w"], k["h"]) == (100, 24) else [str(k["w"]), str(k["h"])]
        items.append((Job(["show"] + size + ["f"], {"f": d}, exe=DRV), {"status": 0, "judge": lambda r, j=j: j(r.out.decode("utf-8", "replace"))}))
    replay(c, items, "tabs printing")
    # the program, without a terminal and on one
    items, terms = [], []
    ts = {key(g) for g in term}
    for k, outs in cases:
        at = key(k) in ts
        if not at and (k["w"], k["h"]) != (100, 24):
            continue
        # an empty file among several leaves no trace but its rule
        names = ["f%d" % i for i in range(len(k["files"]))]
        made = [concrete(rng, x) for x in k["files"]]
        fs = {a: d for a, (_, d) in zip(names, made)}
        j = judge(k, outs, [r for r, _ in made], names)
        if at:
            terms.append((k, names, fs, j))
        else:
            items.append((Job(["tabs"] + names, fs), {"status": 0, "judge": lambda r, j=j: j(r.out.decode("utf-8", "replace"))}))
    replay(c, items, "tabs")

    def one(x):
        k, names, fs, j = x
        with tempfile.TemporaryDirectory(dir=c.scratch) as d:
            for a, v in fs.items():
                with open(d + "/" + a, "wb") as f:
                    f.write(v)
            return on_terminal(["tabs"] + names, d, k["w"], k["h"] + 1)
    # a terminal that does not know its size counts as 100 by 24
    odd = [(k, ["f0"], {"f0": d}, judge(k, outs, t, ["f0"])) for k, outs, t, d in lib if (k["w"], k["h"]) == (100, 24)][:10]

    def zero(x):
        k, names, fs, j = x
        with tempfile.TemporaryDirectory(dir=c.scratch) as d:
            with open(d + "/f0", "wb") as f:
                f.write(fs["f0"])
            return on_terminal(["tabs", "f0"], d, 0, 0)
    with ThreadPoolExecutor(NCPU) as ex:
        got = list(ex.map(one, terms)) + list(ex.map(zero, odd))
    for (k, names, fs, j), (st, out) in zip(terms + odd, got):
        bad = "failed (status %d)" % st if st else j(out.decode("utf-8", "replace"))
        if bad:
            c.violation("tabs on a terminal of %dx%d: %s" % (k["w"], k["h"] + 1, bad),
                        {"files": {a: lat(v) for a, v in fs.items()}, "got": lat(out)})
    c.traces(len(terms) + len(odd))
    c.count("replayed_tabs_terminal", len(terms) + len(odd))


if __name__ == "__main__":
    go({"P27": p27})
