"""P21: arithmetic expressions"""
from common import *
import math

NAMES = ["a", "b", "d", "w_1", "Xq", "bb2"]
BIN = ["+", "-", "*", "/", "%", "^", "<", ">", "<=", ">=", "==", "!="]
EXACT1 = ["abs", "fabs", "floor", "ceil", "trunc", "round", "sqrt", "exp2"]
EXACT2 = ["pow", "fmod", "remainder", "fdim", "fmax", "fmin", "copysign", "ldexp", "scalbn"]
EXACT3 = ["fma", "if", "if"]
OTHER = ["sin", "atan2", "log", "hypot", "cos"]


def tree(rng, depth, vs):
    p = rng.choice([0, 0, 0, 0, 0, 0, 1, 2])
    r = rng.random()
    if depth == 0 or r < 0.12:
        if vs and rng.random() < 0.6:
            return {"t": "var", "s": rng.choice(vs), "p": p}
        n, d = rng.choice([(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (7, 1), (9, 1), (10, 1), (1, 2), (3, 2), (5, 2), (200, 1), (2000, 1), (1024, 1)])
        return {"t": "num", "n": n, "d": d, "p": p}
    if r < 0.27:
        return {"t": "un", "s": rng.choice(["-", "-", "+", "!"]), "a": tree(rng, depth - 1, vs), "p": p}
    if r < 0.82:
        return {"t": "bin", "s": rng.choice(["+", "-", "*"] + BIN), "l": tree(rng, depth - 1, vs), "r": tree(rng, depth - 1, vs), "p": p}
    f, n = rng.choice([(EXACT1, 1), (EXACT2, 2), (EXACT3, 3), (["max", "min", "avg"], rng.randint(1, 4))])
    f = rng.choice(f)
    if rng.random() < 0.03:
        n = rng.choice([1, 2, 3, 4])
    if rng.random() < 0.02:
        f = rng.choice(OTHER + ["nosuch"])
    return {"t": "call", "s": f, "as": [tree(rng, depth - 1, vs) for _ in range(n)], "p": p}


def flat(rng):
    """long texts without brackets, where only precedence and association decide; with values that stay small"""
    from fractions import Fraction
    lv = [["<", ">", "<=", ">=", "==", "!="], ["+", "-"], ["*", "/", "%"]]

    def num():
        n, d = rng.choice([(0, 1), (1, 1), (1, 1), (2, 1), (2, 1), (2, 1), (3, 1), (4, 1), (1, 2)])
        return {"t": "num", "n": n, "d": d, "p": 0}

    def power(most):
        a = num()
        if a["d"] == 1 and rng.random() < 0.1:
            a = {"t": "un", "s": "!", "a": a, "p": 0}
        if most > 1 and rng.random() < 0.55:
            r = power(most - 1)
            if rng.random() < 0.15:
                r = {"t": "un", "s": rng.choice("-+"), "a": r, "p": 0}
            a = {"t": "bin", "s": "^", "l": a, "r": r, "p": 0}
        return a

    def level(i):
        if i == 3:
            a = power(4)
            while rng.random() < 0.15:
                a = {"t": "un", "s": rng.choice("-+"), "a": a, "p": 0}
            return a
        a = level(i + 1)
        for _ in range(rng.choice([[0, 0, 0, 0, 1, 2], [0, 1, 2, 3], [0, 0, 1, 2]][i])):
            a = {"t": "bin", "s": rng.choice(lv[i]), "l": a, "r": level(i + 1), "p": 0}
        return a

    def value(x):
        if x["t"] == "num":
            return Fraction(x["n"], x["d"])
        if x["t"] == "un":
            v = value(x["a"])
            return v if x["s"] == "+" else -v if x["s"] == "-" else Fraction(math.factorial(int(v)))
        a, b = value(x["l"]), value(x["r"])
        s = x["s"]
        if s == "^":
            if b.denominator != 1 or abs(b) > 12:
                raise ZeroDivisionError
            v = a ** int(b)
        else:
            v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "%": lambda: math.fmod(a, b) if b else a / b}.get(s, lambda: Fraction(1))()
            v = Fraction(v)
        if abs(v.numerator) > 30000 or v.denominator > 32 or v.denominator & (v.denominator - 1):
            raise ZeroDivisionError
        return v

    while True:
        t = level(0)
        try:
            value(t)
        except ZeroDivisionError:
            continue
        if json.dumps(t).count("num") > rng.choice([1, 3, 5]):
            return t


def small(rng):
    return rng.choice([(0, 1), (1, 1), (2, 1), (3, 1), (-1, 1), (-2, 1), (5, 1), (1, 2), (-3, 2), (7, 1), (-6, 1), (12, 1), (4, 1)])


def given(rng, n):
    res = []
    for i in range(n):
        vs = rng.sample(NAMES, rng.randint(1, 4)) if rng.random() < 0.6 else []
        envs = [[dict(zip("snd", (v,) + small(rng))) for v in vs] for _ in range(rng.randint(2, 6) if vs else 1)]
        if rng.random() < 0.3:
            res.append({"kind": "tree", "tree": flat(rng), "envs": [[]]})
        elif rng.random() < 0.75:
            res.append({"kind": "tree", "tree": tree(rng, rng.choice([1, 2, 2, 3, 3, 4]), vs), "envs": envs})
        else:
            # mostly wrong texts
            toks = []
            for _ in range(rng.randint(3, 7)):
                r = rng.random()
                k = {"k": "op", "s": rng.choice(BIN + ["-", "-", "!", "!"]), "n": 0, "d": 1}
                if r < 0.35 and not (toks and toks[-1]["k"] in ("num", "var")):
                    k = {"k": "num", "s": "", "n": rng.randint(0, 9), "d": 1}
                elif r < 0.5 and vs and not (toks and toks[-1]["k"] in ("num", "var")):
                    k = {"k": "var", "s": rng.choice(vs), "n": 0, "d": 1}
                elif r < 0.58:
                    k = {"k": rng.choice("(),"), "s": "", "n": 0, "d": 1}
                elif r < 0.66:
                    k = {"k": "fn", "s": rng.choice(["max", "abs", "pow", "if"]), "n": 0, "d": 1}
                toks.append(k)
            if rng.random() < 0.5:
                opened = sum(t["k"] in ("(", "fn") for t in toks) - sum(t["k"] == ")" for t in toks)
                toks += [{"k": ")", "s": "", "n": 0, "d": 1}] * max(0, opened)
            if len(toks) <= 9:
                res.append({"kind": "toks", "toks": toks, "envs": envs})
    return res


def joinable(toks):
    """whether writing the tokens one after the other reads as these tokens"""
    for x, y in zip(toks, toks[1:]):
        if x["k"] in ("num", "var") and y["k"] in ("num", "var"):
            return False
        if x["k"] == "var" and y["k"] in ("fn", "("):
            return False
        if x["k"] == "op" and x["s"] in ("!", "<", ">") and y["k"] == "op" and y["s"][0] == "=":
            return False
    return True


def number(rng, n, d):
    if d == 2:
        v = "%d.5" % (n // 2)
        return rng.choice([v, v, v + "0"] + (["5e-1"] if n == 1 else []) + (["%de-1" % (n * 5)] if n in (3, 5) else []))
    fs = ["%d" % n] * 4 + ["%d.0" % n, "%d." % n, "0%d" % n]
    if n and n % 1000 == 0:
        fs += ["%dk" % (n // 1000), "%de3" % (n // 1000), "%de+3" % (n // 1000)] * 3
    if n and n % 100 == 0:
        fs += ["%de2" % (n // 100), "%dE2" % (n // 100)]
    if n == 1024:
        fs += ["1K", "1.0K"] * 2
    return rng.choice(fs)


def text(rng, toks, names=None, cols=None):
    s = ""
    decoy = names and any(x[0] == "c" and x[1:].isdigit() for x in names)
    done = 0
    for i, t in enumerate(toks):
        if i < done:
            continue
        if t["k"] == "num":
            s += number(rng, t["n"], t["d"])
        elif t["k"] == "var":
            v = t["s"]
            r = rng.random()
            # several arguments in a row as one list of columns
            run = [v]
            while i + 2 * len(run) < len(toks) and toks[i + 2 * len(run) - 1]["k"] == "," and toks[i + 2 * len(run)]["k"] == "var":
                run.append(toks[i + 2 * len(run)]["s"])
            nxt = toks[i + 2 * len(run) - 1]["k"] if i + 2 * len(run) - 1 < len(toks) else None
            if names and len(run) > 1 and len(set(run)) == len(run) and i and toks[i - 1]["k"] in ("fn", ",") and nxt in (",", ")") and r < 0.5:
                at = [names.index(x) for x in run]
                if at == list(range(at[0], at[0] + len(at))) and rng.random() < 0.6:
                    s += rng.choice(["[%s-%s]" % (run[0], run[-1]), "[%d-%d]" % (at[0] + 1, at[-1] + 1)])
                else:
                    s += "[%s]" % ",".join(rng.choice([x, str(names.index(x) + 1)]) for x in run)
                done = i + 2 * len(run) - 1
            elif names is None or (r < 0.25 and not decoy):
                s += "c%d" % (cols[v] + 1)
            elif r < 0.5:
                s += "[%s]" % v
            else:
                s += v
        elif t["k"] == "fn":
            s += t["s"] + "("
        elif t["k"] == "op":
            s += t["s"]
        else:
            s += t["k"]
    return s


def val(v):
    return v["n"] / v["d"]


def show(rng, v):
    x = "%d" % v if v == int(v) else "%.1f" % v if (2 * v) == int(2 * v) else repr(v)
    if v > 0 and rng.random() < 0.1:
        x = "+" + x
    if v == 0 and rng.random() < 0.3:
        x = rng.choice(["", "0.0", "-0", "xyz", "0e9"])
    if v == int(v) and rng.random() < 0.1:
        x += rng.choice([".0", "e0", "x"]) if x[-1:].isdigit() and "e" not in x and "." not in x else ""
    return x


def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


def calc_jobs(rng, cases, per):
    """many expressions per run of calc; markers in between show which ones printed nothing"""
    items = []
    for at in range(0, len(cases), per):
        part = cases[at:at + per]
        fmt = rng.choice([None, "plain", "short", "float"])
        lines, want = [], []
        for n, k in enumerate(part):
            lines.append(text(rng, k["toks"]))
            lines.append("%d.5" % (40000 + n))
            want.append((lines[-2], k["ok"], val(k["vals"][0]) if k["ok"] and k["vals"][0]["ok"] else None))

        def judge(r, want=want):
            got = []
            for x in r.out.decode("utf-8", "replace").split("\n")[:-1]:
                try:
                    got.append(float(x))
                except ValueError:
                    return "not a number %r" % x
            i = 0
            for n, (e, ok, v) in enumerate(want):
                has = i < len(got) and got[i] != 40000.5 + n
                if has:
                    g = got[i]
                    i += 1
                if i >= len(got) or got[i] != 40000.5 + n:
                    return "output lost after %r" % e
                i += 1
                if has != ok:
                    return "%r is %s" % (e, "accepted, with value %r" % g if has else "rejected")
                if v is not None and not near(g, v):
                    return "%r is %r rather than %r" % (e, g, v)
            return None if i == len(got) else "more output than expressions"
        argv = ["calc"] + (["-f", fmt] if fmt else []) + ["f"]
        data = "\n".join(lines) + ("\n" if rng.random() < 0.9 else "")
        items.append((Job(argv, {"f": data}), {"status": 0, "judge": judge, "note": "every expression is followed by a marker"}))
    return items


def table(rng, k, ragged):
    """the columns as a file: variables in some order among other columns"""
    vs = [x["s"] for x in k["envs"][0]] if k["envs"] and k["envs"][0] else []
    names = list(vs)
    for _ in range(rng.randint(0, 2)):
        names.insert(rng.randint(0, len(names)), "z%d" % len(names))
    if not names:
        names = ["z0"]
    for i, x in enumerate(names):
        if x[0] == "z" and rng.random() < 0.3:
            y = "c%d" % rng.randint(1, len(names) + 1)
            if y not in names:
                names[i] = y
    rows = []
    for e in k["envs"]:
        m = {x["s"]: x["n"] / x["d"] for x in e}
        row = [show(rng, m[v]) if v in m else rng.choice(["1", "x", "", "77"]) for v in names]
        # a column that is not there counts as zero
        while ragged and len(row) > 1 and m.get(names[len(row) - 1], 0) == 0 and rng.random() < 0.5:
            row.pop()
        rows.append("\t".join(row))
    return names, {v: names.index(v) for v in vs}, rows


def line_job(rng, k):
    how = rng.choice(["cut", "cut", "cgrep", "cgrep", "sort", "verify"])
    names, cols, rows = table(rng, k, how != "verify")
    head = rng.random() < 0.8
    e = text(rng, k["toks"], names if head else None, cols)
    d = ((" CDX\t" + "\t".join(names) + "\n") if head else "") + "".join(r + "\n" for r in rows)
    vals = [val(v) if v["ok"] else None for v in k["vals"]]
    h = " CDX\t" + "\t".join(names) + "\n" if head else ""
    if how == "cut":
        argv = ["cut", "-e", "s:" + e, "f"]
    elif how == "cgrep":
        argv = ["cgrep", "-p", ",expr," + e, "f"]
    elif how == "sort":
        argv = ["sort", "-k", ",expr," + e, "f"]
    else:
        argv = ["verify", "-p", ",expr," + e, "f"]
    job = Job(argv, {"f": d})
    if not k["ok"]:
        return job, {"status": "fail"}
    if any(v is None for v in vals):
        return job, {"status": None}
    if how == "cut":
        def judge(r):
            got = r.out.decode("utf-8", "replace").split("\n")[:-1]
            if head:
                if not got or got[0] != " CDX\ts":
                    return "wrong header"
                got = got[1:]
            try:
                got = [float(x) for x in got]
            except ValueError:
                return "not a number"
            if len(got) != len(vals) or not all(near(a, b_) for a, b_ in zip(got, vals)):
                return "values %r rather than %r" % (got, vals)
        return job, {"status": 0, "judge": judge}
    if how == "cgrep":
        return job, {"status": 0, "out": (h + "".join(r + "\n" for r, v in zip(rows, vals) if v != 0)).encode()}
    if how == "sort":
        o = sorted(range(len(rows)), key=lambda i: vals[i])
        return job, {"status": 0, "out": (h + "".join(rows[i] + "\n" for i in o)).encode()}
    return job, {"status": 0 if all(v != 0 for v in vals) else "fail"}


POINTS = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.5, 10.0, 100.0, -0.5, -1.0, -1.5, -2.5, -7.0]
LIB = {"acos": math.acos, "acosh": math.acosh, "asin": math.asin, "asinh": math.asinh, "atan": math.atan, "atanh": math.atanh,
       "cbrt": math.cbrt, "ceil": math.ceil, "cos": math.cos, "cosh": math.cosh, "erf": math.erf, "exp": math.exp, "exp2": math.exp2,
       "exp10": lambda x: 10.0 ** x, "expm1": math.expm1, "fabs": math.fabs, "floor": math.floor, "lgamma": math.lgamma, "log": math.log,
       "log1p": math.log1p, "log2": math.log2, "log10": math.log10, "sin": math.sin, "sinh": math.sinh, "sqrt": math.sqrt, "tan": math.tan,
       "tanh": math.tanh, "tgamma": math.gamma, "trunc": math.trunc, "abs": abs, "atan2": math.atan2, "copysign": math.copysign,
       "fmod": math.fmod, "hypot": math.hypot, "ldexp": lambda x, y: math.ldexp(x, int(y)), "scalbn": lambda x, y: math.ldexp(x, int(y)),
       "remainder": math.remainder, "pow": math.pow, "nextafter": math.nextafter, "fmax": max, "fmin": min, "fdim": lambda x, y: max(x - y, 0.0),
       "fma": lambda x, y, z: x * y + z, "max": lambda *a: max(a), "min": lambda *a: min(a), "avg": lambda *a: sum(a) / len(a), "if": lambda x, y, z: y if x else z}
CONST = {"pi": math.pi, "e": math.e, "M_E": math.e, "M_LOG2E": 1 / math.log(2), "M_LOG10E": 1 / math.log(10), "M_LN2": math.log(2),
         "M_LN10": math.log(10), "M_PI": math.pi, "M_PI_2": math.pi / 2, "M_PI_4": math.pi / 4, "M_1_PI": 1 / math.pi, "M_2_PI": 2 / math.pi,
         "M_2_SQRTPI": 2 / math.sqrt(math.pi), "M_SQRT2": math.sqrt(2), "M_SQRT1_2": math.sqrt(0.5)}


def simpson(f, a, b, n=4000):
    h = (b - a) / n
    return h / 3 * (f(a) + f(b) + sum((4 if i % 2 else 2) * f(a + i * h) for i in range(1, n)))


def bessel_j(n, x):
    return simpson(lambda t: math.cos(n * t - x * math.sin(t)), 0, math.pi) / math.pi


def bessel_y(n, x):
    first = simpson(lambda t: math.sin(x * math.sin(t) - n * t), 0, math.pi)
    top = math.asinh(60 / x) + 1
    second = simpson(lambda t: (math.exp(n * t) + (-1) ** n * math.exp(-n * t)) * math.exp(-x * math.sinh(t)) if x * math.sinh(t) < 700 else 0.0, 0, top, 40000)
    return (first - second) / math.pi


def library(rng):
    """the function symbols and constants, which the specification takes from mathematics"""
    exps = [(n, v) for n, v in CONST.items()]
    for n in range(0, 171):
        exps.append(("%d!" % n, float(math.factorial(n))))
    for f, g in LIB.items():
        n = 2 if f in ("atan2", "copysign", "fmod", "hypot", "ldexp", "scalbn", "remainder", "pow", "nextafter", "fmax", "fmin", "fdim") else 3 if f in ("fma", "if") else 1
        for a in (POINTS if n == 1 else [None] * 40):
            args = [a] if n == 1 else [rng.choice(POINTS) for _ in range(n)]
            if f in ("ldexp", "scalbn"):
                args[1] = float(int(args[1] / 4))
            if f in ("max", "min", "avg"):
                args = [rng.choice(POINTS) for _ in range(rng.randint(1, 5))]
            if f in ("copysign", "atan2") and 0.0 in args:
                continue
            try:
                v = float(g(*args))
            except (ValueError, OverflowError, ZeroDivisionError):
                continue
            if math.isinf(v) or math.isnan(v):
                continue
            exps.append(("%s(%s)" % (f, ",".join(("%g" % x) for x in args)), v))
    for x in (0.5, 1.0, 2.5, 4.5, 10.0):
        exps += [("j0(%g)" % x, bessel_j(0, x)), ("j1(%g)" % x, bessel_j(1, x)), ("y0(%g)" % x, bessel_y(0, x)), ("y1(%g)" % x, bessel_y(1, x))]
        for n in (0, 1, 2, 3):
            exps += [("jn(%d,%g)" % (n, x), bessel_j(n, x)), ("yn(%d,%g)" % (n, x), bessel_y(n, x))]
    lines = [e for e, _ in exps]

    def judge(r):
        got = r.out.decode("utf-8", "replace").split("\n")[:-1]
        if len(got) != len(exps):
            return "%d values for %d expressions; %s" % (len(got), len(exps), r.err[:300])
        for (e, v), g in zip(exps, got):
            x = float(g)
            if not (x == v or abs(x - v) <= 1e-9 * max(1e-6, abs(v)) or (abs(v) < 1e-9 and abs(x) < 1e-9)):
                return "%s is %r rather than %r" % (e, x, v)
    return [(Job(["calc", "f"], {"f": "\n".join(lines) + "\n"}), {"status": 0, "judge": judge})]


def p21(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Expr", {"MaxLen": c.pick(4, 5)}, ["OneMeaning", "TreeRight", "Balanced", "Emit"], given(rng, c.pick(4000, 24000)), props=["Terminates"])
    c.count("abstract_cases", len(cases))
    c.count("rejected_texts", sum(not k["ok"] for k in cases))
    cases = [k for k in cases if joinable(k["toks"])]
    free = [k for k in cases if not any(t["k"] == "var" for t in k["toks"])]
    rng.shuffle(free)
    good = [k for k in free if k["ok"]]
    bad = [k for k in free if not k["ok"]]
    n = c.pick(4000, 30000)
    replay(c, calc_jobs(rng, good, 40) + calc_jobs(rng, good[:n], 7) + calc_jobs(rng, bad, 100), "calc")
    c.count("expressions_through_calc", len(good) + len(bad))
    lines = [k for k in cases if k["envs"][0]] + rng.sample(free, min(len(free), 400))
    replay(c, [line_job(rng, k) for k in cover(rng, lines, c.pick(4000, 40000))], "expressions over columns")
    replay(c, library(rng), "library functions")


if __name__ == "__main__":
    go({"P21": p21})
