"""P22: text modes"""
from common import *

AUTO = {9: "t", 32: "s", 13: "r", 10: "n"}


DEFAULT = {"d": 9, "q": "p", "r": 32, "e": 10}


def spec(m, hm, dflt=DEFAULT, rng=None):
    s = [hm, AUTO.get(m["d"], chr(m["d"])), m["q"], AUTO.get(m["r"], chr(m["r"])), AUTO.get(m["e"], chr(m["e"]))]
    # trailing characters that say what goes without saying may be left out
    for k in "erqd":
        if rng is None or m[k] != dflt[k] or rng.random() < 0.2:
            break
        s.pop()
    return "".join(s)


def header(names, m, hm):
    d, e = bytes([m["d"]]), bytes([m["e"]])
    return ((b" CDX" + d) if hm in "xm" else b"") + d.join(names) + e


def case(rng, k):
    s = k["src"]
    im, om = s["im"], s["om"]
    n = len(s["rows"][0]) if s["rows"] else 2
    names = [x.encode() for x in rng.sample(["alpha", "be", "c", "Dd", "e_e"], n)]
    hm = rng.choice("xmysnn")
    data = bytes(k["text"])
    if hm == "n" or (hm in "ms" and rng.random() < 0.5):
        named = False
    else:
        named = hm != "s"
        data = header(names, im, hm if hm != "s" else "x") + data
    if hm in "my" and not named and data.startswith(b" CDX"):
        return None
    what = rng.choice(["cut", "cut", "cut", "equal", "unequal", "groups", "all", "turned", "pasted", "joined", "joined"])
    if what in ("turned", "pasted", "joined"):
        return others(rng, k, what, names, hm, named, data)
    argv = []
    opts = [["--text-in", spec(im, hm, rng=rng)]]
    key = s["key"]
    col = names[key - 1].decode() if named and rng.random() < 0.5 else str(key)
    outs = []
    if what == "cut":
        ohm = rng.choice("xmysn")
        if om == im and rng.random() < 0.3:
            ohm = hm  # the output is as the input unless said otherwise
        else:
            opts.append(["--text-out", spec(om, ohm, rng=rng)])
        f = ",".join(names[c - 1].decode() if named and rng.random() < 0.5 else str(c) for c in s["cols"])
        opts.append([rng.choice(["-f", "--fields"]), f])
        argv = ["cut"]
        want = (header([names[c - 1] for c in s["cols"]], om, ohm) if named else b"") + bytes(k["w"])
    else:
        want = (header(names, im, hm) if named else b"") + bytes(k[what])
        if what == "all":
            argv = [rng.choice(["cat", "sample"]) if im["e"] == 10 and hm != "s" else "sample"]
            if argv[0] == "sample":
                opts.append(["-s", "1000"])
        elif what == "groups":
            argv = ["uniq"]
            opts.append(["-k", col])
        else:
            v = bytes(s["rows"][0][key - 1])
            argv = ["cgrep"]
            opts.append(["-p", col + ",exact," + v.decode()])
            if what == "unequal":
                opts.append(["--invert"])
    rng.shuffle(opts)
    for o in opts:
        argv += o
    if not k["n"]:
        return None if what != "cut" and what != "all" else (Job(argv + ["f"], {"f": data}), {"status": 0, "out": None if not data else want})
    if rng.random() < 0.3:
        return Job(argv, {}, stdin=data), {"status": 0, "out": want}
    return Job(argv + ["f"], {"f": data}), {"status": 0, "out": want}


def others(rng, k, what, names, hm, named, data):
    """commands that combine rows: transpose, paste and join"""
    s = k["src"]
    im, om = s["im"], s["om"]
    if not k["n"]:
        return None
    opts = [["--text-in", spec(im, hm, rng=rng)]]
    if what == "turned":
        if om != im or rng.random() < 0.7:
            opts.append(["--text-out", spec(om, rng.choice("xmysn"), rng=rng)])
        d = bytes([om["d"]])
        lines = [bytes(x) for x in k["turned"]]
        if named:
            lines = [a + d + b for a, b in zip(names, lines)]
        if rng.random() < 0.3:
            opts.append([rng.choice(["-h", "--head"])])
            lines[0] = b" CDX" + d + lines[0]
        rng.shuffle(opts)
        return Job(["transpose"] + sum(opts, []) + ["f"], {"f": data}), {"status": 0, "out": b"".join(lines)}
    if im["e"] != 10:
        return None
    names2 = [x.encode() for x in rng.sample(["A1", "bb", "Cc1", "d", "ee"], len(names))]
    first, second = data, data
    if named:
        head = header(names, im, hm)
        second = header(names2, im, hm) + data[len(head):]
    elif hm == "s":
        second = data
    if what == "pasted":
        want = (header(names + names2, im, hm) if named else b"") + bytes(k["pasted"])
        return Job(["paste"] + sum(opts, []) + ["f", "g"], {"f": first, "g": second}), {"status": 0, "out": want}
    if not k["joinable"]:
        return None
    ohm = rng.choice("xmysn")
    if om["d"] != im["d"] or rng.random() < 0.2:
        opts.append(["--text-out", spec(om, ohm, rng=rng)])
    opts.append([rng.choice(["-k", "--key"]), str(s["key"])])
    rng.shuffle(opts)
    j = s["key"] - 1
    d = bytes([om["d"]])
    want = bytes(k["joined"])
    if named:
        want = d.join(([b" CDX"] if hm in "xm" else []) + names + names2[:j] + names2[j + 1:]) + b"\n" + want
    return Job(["join"] + sum(opts, []) + ["f", "g"], {"f": first, "g": second}), {"status": 0, "out": want}


def mode(rng):
    q = rng.choice("pqb")
    d = rng.choice([9, 9, 44, 44, 59, 58, 124])
    e = rng.choice([10, 10, 10, 13] + ([64, 59] if q != "b" else []))
    if e == d:
        e = 10
    return {"q": q, "d": d, "e": e, "r": rng.choice([32, 95, 46])}


def given(rng):
    im = mode(rng)
    om = mode(rng) if rng.random() < 0.7 else dict(im)
    if rng.random() < 0.3:
        # the output mode is the usual one from some character on, so that the rest can be left out
        k = rng.randint(0, 3)
        for x in "dqre"[k:]:
            om[x] = DEFAULT[x]
        if om["e"] == om["d"]:
            om["d"] = 44 if om["e"] != 44 else 9
    if om["q"] == "b" and om["e"] not in (10, 13):
        om["e"] = 10
    n = rng.randint(1, 4)
    chars = [97, 98, 110, 114, 116, 34, 34, 92, 92, im["d"], im["e"], om["d"], om["e"], 9, 10, 13, 44, 32]
    if im["q"] == "p":
        chars = [x for x in chars if x not in (im["d"], im["e"])]
    pool = [[rng.choice(chars) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))] for _ in range(4)]
    rows = [[list(rng.choice(pool)) for _ in range(n)] for _ in range(rng.choice([1, 2, 3, 4, 6]))]
    key = rng.randint(1, n)
    if im["q"] == "p" and rng.random() < 0.5:
        im["e"] = 10 if im["d"] != 10 else im["e"]
        rows = [[[x for x in v if x != im["e"]] for v in r] for r in rows]
        rows = [r for _, r in sorted({tuple(r[key - 1]): r for r in rows}.items())]
    return {"rows": rows, "im": im, "om": om, "full": rng.random() < 0.4, "open": rng.random() < 0.2,
            "cols": rng.sample(range(1, n + 1), rng.randint(1, n)), "key": key}


def p22(c):
    build()
    rng = c.rng
    cases = behaviours(c, "TextMode", {"MaxLen": 2, "Alphabet": c.pick("{97, 44, 10, 34, 92}", "{97, 110, 44, 10, 34, 92}"), "NCols": 2},
                       ["ReadRight", "RawRight", "RoundTrip", "Verbatim", "Emit"],
                       [given(rng) for _ in range(c.pick(2500, 20000))])
    c.count("abstract_cases", len(cases))
    big = [k for k in cases if len(k["src"]["rows"]) > 1 or len(k["src"]["rows"][0]) != 2]
    n = c.pick(3500, 30000)
    items = [x for x in (case(rng, k) for k in cover(rng, big, 2 * n) + cover(rng, cases, n)) if x]
    replay(c, items, "text modes")


if __name__ == "__main__":
    go({"P22": p22})
