"""P25: numbers in text"""
from common import *
from fractions import Fraction
import struct, math

UP, LO = "KMGTPEZY", "kmgtpezy"
UMAX, IMAX = 2 ** 64 - 1, 2 ** 63 - 1
FMAX = Fraction(struct.unpack(">d", bytes.fromhex("7fefffffffffffff"))[0])


def mul(suf):
    if not suf:
        return 1
    ch = chr(suf)
    return 1024 ** (UP.index(ch) + 1) if ch in UP else 1000 ** (LO.index(ch) + 1)


def dig(l):
    return int("".join(map(str, l)) or "0")


def value(k):
    v = k["v"]
    x = Fraction(dig(v["int"]))
    if v["frac"]:
        x += Fraction(dig(v["frac"]), 10 ** len(v["frac"]))
    e = dig(v["exp"])
    if x != 0 and e:
        e = min(e, 5000)
        x = x / 10 ** e if v["eneg"] else x * 10 ** e
    x *= mul(v["suf"])
    return -x if v["neg"] else x


def f64(bits):
    return struct.unpack(">d", struct.pack(">Q", bits))[0]


def bits(x):
    return struct.unpack(">Q", struct.pack(">d", x))[0]


def close(got, want):
    if math.isnan(got):
        return False
    if abs(want) > FMAX:
        return math.isinf(got) and (got > 0) == (want > 0)
    if math.isinf(got):
        return False
    return abs(Fraction(got) - want) <= abs(want) / 10 ** 12 + Fraction(1, 10 ** 300)


def given(rng):
    k = rng.choice("uiffff")
    if rng.random() < 0.2:
        return {"kind": "p", "text": [], "base": rng.choice([1000, 1024]), "n": rng.choice([rng.randint(1000, 2 * 10 ** 8), int(10 ** rng.uniform(2.9, 8.3)), rng.choice([999, 1000, 1023, 1024, 1100, 1126, 1127, 9999, 10000, 10239, 10240, 998999, 999000, 999999, 1000000, 1022976, 1022975, 1048575, 1048576])])}

    def ds(n):
        return "".join(rng.choice("0123456789") for _ in range(n))
    if rng.random() < 0.06:
        # where the integers end
        t = rng.choice(["", "-", "+"]) + str(rng.choice([2 ** 63, 2 ** 64, 2 ** 62, 2 ** 32, 10 ** 19]) + rng.randint(-2, 2)) + rng.choice(["", "", "", "k", "K", "x", " "])
        return {"kind": rng.choice("ui"), "text": list(t.encode()), "base": 0, "n": 0}
    if rng.random() < 0.02:
        t = rng.choice(["", "-"]) + str(rng.choice([2 ** 63, 2 ** 64]) // 1024 + rng.randint(-1, 1)) + "K"
        return {"kind": rng.choice("ui"), "text": list(t.encode()), "base": 0, "n": 0}
    t = rng.choice(["", "", "", "+", "-", "--", " "])
    t += ds(rng.choice([0, 1, 1, 2, 3, 6, 12, 19, 20]))
    if rng.random() < 0.6:
        t += "." + ds(rng.choice([0, 1, 2, 3, 8, 14]))
    if rng.random() < 0.4:
        t += rng.choice("eE") + rng.choice(["", "+", "-", "--"]) + rng.choice(["", ds(1), ds(1), "0" + ds(1), "1" + ds(1), "00", rng.choice(["100", "200", "-3", "270"])])
    if rng.random() < 0.5:
        t += rng.choice(UP + LO)
    if rng.random() < 0.3:
        t += rng.choice(["x", " ", "K", "k", "e", "e5", ".", "-", "\xe9", "0", "iB"])
    return {"kind": k, "text": list(t.encode("latin-1")), "base": 0, "n": 0}


def fmt_ok(spec, x, text, slack=Fraction(0)):
    """text is x written as asked"""
    t = text.decode("latin-1")
    kind, _, prec = spec.lower().partition(".")
    if math.isnan(x) or math.isinf(x):
        return True
    v = Fraction(x)
    if kind in ("power2", "p2", "power10", "p10"):
        letters = UP if "2" in kind else LO
        base = 1024 if "2" in kind else 1000
        r = round(v) if abs(v - round(v)) != Fraction(1, 2) else (int(v + Fraction(1, 2)) if v > 0 else int(v - Fraction(1, 2)))
        if abs(r) < 1000:
            return t == str(r) or (r == 0 and t == "-0")
        if t[-1] not in letters:
            return False
        unit = base ** (letters.index(t[-1]) + 1)
        try:
            got = Fraction(t[:-1])
        except ValueError:
            return False
        if (len(t) > 6 or sum(x.isdigit() for x in t) > 3) and abs(r) < 9 * 10 ** 24:
            return False
        if abs(r) >= 10 ** 25:
            return t[-1] in "yY" and abs(got * unit - r) <= Fraction(abs(r), 10 ** 9) + Fraction(unit, 19)
        big = abs(got) >= 10
        tol = Fraction(1, 2) if "." not in t else Fraction(1, 20)
        if abs(got) == 1 and "." not in t:
            tol = Fraction(1, 9)
        return abs(got * unit - r) <= tol * unit * Fraction(1000001, 1000000) and ("." in t or big or abs(got) == 1)
    if kind == "short":
        kind = "plain" if Fraction("0.0001") <= abs(v) < 1000 else "float"
    if kind == "plain" and "e" in t:
        return False
    if kind == "float" and "e" not in t:
        return False
    m, _, ex = t.partition("e")
    try:
        got = Fraction(m) * (Fraction(10) ** int(ex or 0))
    except ValueError:
        return False
    if not prec:
        return float(t) == x if not slack else abs(Fraction(t) - v) <= slack * abs(v)
    digits = len(m.partition(".")[2])
    if digits != int(prec):
        return False
    if kind == "float" and v and not 1 <= abs(Fraction(m)) < 10:
        return False
    return abs(got - v) <= Fraction(1, 2) * Fraction(10) ** (int(ex or 0) - digits) + slack * abs(v)


FMTS = ["plain", "short", "float", "power2", "power10", "p2", "p10", "PLAIN", "Short", "plain.0", "plain.1", "plain.3", "plain.12", "short.2", "short.0", "float.0", "float.3", "FLOAT.6", "P2", "Power10"]
BADFMTS = ["", "plan", "plain.x", "float.-1", "power2.3", "p3", "power", "short.1.2", ".3", "plain 3"]


def some_value(rng):
    m = rng.random()
    if m < 0.3:
        return float(rng.choice([0, 1, -1, 9, 10, 999, 1000, 1001, 1023, 1024, 1099, 1100, 1126, 1127, 9949, 9950, 10000, 10239, 10240, 99500, 998999, 999000, 999499, 999500, 1000000, 1022975, 1022976, 1048575, 1048576, -1500, -123456789]))
    if m < 0.6:
        return float(round(10 ** rng.uniform(0, 27))) * rng.choice([1, 1, -1])
    if m < 0.7:
        # around the places where the suffix changes
        return 1.0 * rng.choice([1, -1]) * round(rng.choice([1000, 1024]) ** rng.randint(1, 6) * rng.choice([0.9765625, 0.998, 0.999, 0.9994, 0.9995, 0.9996, 1.0, 1.05, 1.0999, 1.1, 9.9, 9.949, 9.951, 9.99, 10.0, 99.4, 99.51]) + rng.choice([-1.0, 0.0, 1.0]))
    if m < 0.8:
        return rng.choice([1, -1]) * rng.choice([1, 12, 123.4, 1.25, 2.5, 0.5, 999.5, 7, 0.1, 1.05, 9.95]) * 10.0 ** rng.randint(-6, 12)
    return rng.choice([1, -1]) * math.exp(rng.uniform(-60, 60))


def p25(c):
    build(lib=True)
    rng = c.rng
    consts = {"Alphabet": "{43, 45, 46, 48, 55, 101, 69, 75, 109, 120}", "MaxLen": c.pick(4, 5), "MinValue": c.pick(900, 0), "MaxValue": c.pick(12000, 120000)}
    cases = behaviours(c, "Numbers", consts, ["ScanRight", "Ordered", "TakenRight", "PowerRight", "Emit"], [given(rng) for _ in range(c.pick(4000, 20000))], props=["Terminates"] if c.tier == "quick" else [])
    c.count("abstract_cases", len(cases))
    reads = [k for k in cases if k["kind"] != "p"]
    powers = [k for k in cases if k["kind"] == "p"]
    by = {}
    for k in reads:
        by.setdefault(bytes(k["text"]), {})[k["kind"]] = k
    texts = list(by)
    for t, ks, (kind, v) in zip(texts, by.values(), run_lib([[b"num", t] for t in texts])):
        if kind != "ok":
            c.violation("reading %r: %s %r" % (t, kind, v), {"text": repr(t)})
            continue
        g = v[0].decode().split()
        bad = []
        for j, key in enumerate("uif"):
            if key not in ks:
                continue
            k = ks[key]
            want = value(k)
            left = len(t) - k["used"]
            got = int(g[2 * j])
            if key == "u":
                ok = got == min(int(want), UMAX)
            elif key == "i":
                ok = got == max(min(int(want), IMAX), -IMAX - 1) or (want < -IMAX - 1 and got == -IMAX)
            else:
                ok = close(f64(got), want)
                got = f64(got)
            if not ok:
                bad.append("%s: value %r, specified %s" % (key, got, want if want.denominator == 1 else float(want)))
            if int(g[2 * j + 1]) != left:
                bad.append("%s: %s bytes left over, specified %d" % (key, g[2 * j + 1], left))
            if (g[6 + j] == "true") != (left == 0):
                bad.append("%s: as a whole number %s" % (key, "accepted" if g[6 + j] == "true" else "refused"))
            for m, tol in enumerate(("anything", "trailing", "alone")):
                for n, junk in enumerate([(0, -IMAX - 1, bits(-float(FMAX)))[j], (UMAX, IMAX, bits(float(FMAX)))[j]]):
                    w = g[2 * j] if k["taken"][tol] else str(junk)
                    if g[10 + 6 * m + 3 * n + j] != w:
                        bad.append("%s: with junk (%s, %s) it reads as %s, not %s" % (key, tol, ["least", "greatest"][n], g[10 + 6 * m + 3 * n + j], w))
        if g[9] != "true":
            bad.append("bytes and characters are read differently")
        if bad:
            c.violation("reading %r: %s" % (t, "; ".join(bad)), {"text": repr(t), "got": g})
    c.traces(len(texts))
    # writing
    req = [(rng.choice(["power2", "p2"] if k["v"]["base"] == 1024 else ["power10", "P10"]), float(k["n"])) for k in cover(rng, powers, c.pick(6000, 60000))]
    req += [(rng.choice(FMTS), some_value(rng)) for _ in range(c.pick(8000, 80000))]
    for (f, x), (kind, v) in zip(req, run_lib([[b"numfmt", f, str(bits(x))] for f, x in req])):
        if kind != "ok" or not fmt_ok(f, x, v[0]):
            c.violation("writing %r as %s: %s %r" % (x, f, kind, v), {"format": f, "value": repr(x), "bits": bits(x)})
    c.traces(len(req))
    # through the program
    items = []
    fl = [k for k in reads if k["kind"] == "f" and k["used"] == len(k["text"]) and (k["v"]["int"] or k["v"]["frac"]) and abs(value(k)) < 10 ** 200]
    junk = [k for k in reads if k["kind"] == "f" and abs(value(k)) < 10 ** 200 and not set(k["text"]) & {9, 10}]
    for _ in range(c.pick(1500, 12000)):
        ks = [rng.choice(junk) for _ in range(rng.randint(1, 4))]
        tot = sum(value(k) for k in ks)
        size = sum(abs(value(k)) for k in ks)
        data = b"".join(b"g\t%s\n" % bytes(k["text"]) for k in ks)
        job = Job(["uniq", "-k", "1", "--agg-post", "t,2,sum", "f"], {"f": b" CDX\ta\tb\n" + data})

        def judge(r, tot=tot, size=size, ks=ks):
            try:
                got = float(r.out.decode("latin-1").rstrip("\n").split("\t")[-1])
            except ValueError:
                return "no number"
            if abs(Fraction(got) - tot) > size / 10 ** 11 + Fraction(1, 10 ** 290):
                return "sum %r, specified %r" % (got, float(tot))
        items.append((job, {"status": 0, "judge": judge}))
    for _ in range(c.pick(800, 6000)):
        k = rng.choice(fl)
        f = rng.choice(FMTS)
        t = bytes(k["text"])
        if t[:1] in b"+-":
            t = t[1:]
            k = dict(k, v=dict(k["v"], neg=False))
        if t[:1] not in b"0123456789" or value(k) == 0:
            continue
        x = float(value(k))

        def judge(r, f=f, x=x):
            t = r.out[:-1]
            if any(fmt_ok(f, y, t, Fraction(1, 10 ** 12)) for y in near(x)):
                return None
            return "wrote %r for %r" % (t, x)
        items.append((Job(["calc", "-f", f, "f"], {"f": t + b"\n"}) if rng.random() < 0.5 else Job(["calc", "f"], {"f": f.encode() + b"," + t + b"\n"}), {"status": 0, "judge": judge}))
    items += [(Job(["calc", "-f", f, "f"], {"f": "1\n"}), {"status": "fail"}) for f in BADFMTS]
    big = b"".join(b"%d\n" % i for i in range(1, 2101))
    for spec, lo, hi in (("1k-1200", 1000, 1200), ("1K-1200", 1024, 1200), ("2k", 2000, 2000), ("+7-9", 7, 9), ("1-1K", 1, 1024), ("2K-1m", 2048, 2100), ("1999-99999999999999999999", 1999, 2100)):
        items.append((Job(["sample", "-r", spec, "f"], {"f": big}), {"status": 0, "out": b"".join(b"%d\n" % i for i in range(lo, hi + 1))}))
    for spec in ("1m", "1M", "3k", "1e", "1Y", "9g", "3K", "99999999999999999999"):
        items.append((Job(["sample", "-s", spec, "f"], {"f": big}), {"status": 0, "out": big}))
    for spec in ("1x", "k", "-1", "1.5", "1kk", "0x5", "1 "):
        items.append((Job(["sample", "--sample=" + spec, "f"], {"f": big}), {"status": "fail"}))
    replay(c, items, "numbers")


def near(x):
    """x, and its neighbours where a format changes its shape"""
    return [x, x * (1 - 1e-12), x * (1 + 1e-12)]


if __name__ == "__main__":
    go({"P25": p25})
