"""P33: parts of names (spec/Paths.tla)"""
from common import *

WAYS = ["tail", "tailpath", "head", "headpath"]


def given(rng):
    n = rng.randint(3, 14)
    return {"text": [rng.choice([0, 1, 1, 2]) for _ in range(n)], "num": rng.randint(0, 6)}


def put(t, chars, d):
    return "".join(d if x == 0 else y for x, y in zip(t, chars))


def shorten(rng, k, d, letters):
    """the text and what the specification leaves of it"""
    chars = [rng.choice(letters) for _ in k["text"]]
    full = put(k["text"], chars, d)
    if k["way"] in ("tail", "tailpath"):
        return full, put(k["res"], chars[len(chars) - len(k["res"]):], d)
    return full, put(k["res"], chars, d)


def isname(t):
    """a name a file can have, below the scratch directory"""
    return t and t[-1] != 0 and t[0] != 0


def p33(c):
    build(lib=True)
    rng = c.rng
    ks = behaviours(c, "Paths", {"MaxLen": c.pick(7, 10), "MaxNum": c.pick(4, 6)}, ["Right", "ShownRight", "Emit"],
                    [given(rng) for _ in range(c.pick(1500, 10000))], props=["Terminates"])
    c.count("abstract_cases", len(ks))
    by = {}
    for k in ks:
        by.setdefault((tuple(k["text"]), k["num"]), {})[k["way"]] = k
    reqs, want = [], []
    for (t, n), m in by.items():
        if len(m) < 4:
            continue
        d = rng.choice("/.,:|")
        letters = rng.choice(["abc", "xyé", "a-_ ", "0"])
        chars = [rng.choice(letters) for _ in t]
        full = put(t, chars, d)
        w = [put(m[x]["res"], chars[len(t) - len(m[x]["res"]):] if x.startswith("tail") else chars, d).encode() for x in WAYS]
        reqs.append([b"pieces", full, str(n), d])
        want.append(w * 2)
        if rng.random() < 0.2:
            reqs.append([b"pieces", full.encode().replace(b"a", b"\xff").replace(b"x", b"\xff"), str(n), d])
            want.append([x.replace(b"a", b"\xff").replace(b"x", b"\xff") for x in w])
            if b"\xff" not in reqs[-1][1]:
                want[-1] = want[-1] * 2
    for q, w, (kind, v) in zip(reqs, want, run_lib(reqs)):
        if kind != "ok" or v != w:
            bad = [x for x, y, z in zip(WAYS * 2, w, v) if y != z]
            c.violation("%s of %r, %s parts at %r: got %s %r, specified %r" % (bad, q[1], q[2], q[3], kind, v, w), {"request": [repr(x) for x in q]})
    c.traces(len(reqs))
    names = [k for k in ks if k["way"] == "tailpath" and isname(k["text"])]
    items = []
    for k in cover(rng, names, c.pick(2500, 15000)):
        letters = rng.choice(["abc", "pqé", "k0", "x."])
        fs = []
        for o in [k] + [rng.choice(names) for _ in range(rng.choice([0, 0, 1, 2]))]:
            if o["num"] != k["num"]:
                o = next((x for x in (by.get((tuple(o["text"]), k["num"]), {}).get("tailpath"),) if x), None)
                if o is None:
                    continue
            while True:
                chars = [rng.choice(letters) for _ in o["text"]]
                nm = put(o["text"], chars, "/")
                ps = nm.split("/")
                if not set(ps) & {".", ".."}:
                    break
            sh = put(o["shown"], chars[len(chars) - len(o["shown"]):], "/")
            clash = any(a == nm or a.startswith(nm + "/") or nm.startswith(a + "/") for a in (x[0] for x in fs))
            clash = clash or any("/".join(filter(None, a.split("/"))).startswith("/".join(filter(None, nm.split("/")))) or "/".join(filter(None, nm.split("/"))).startswith("/".join(filter(None, a.split("/")))) for a in (x[0] for x in fs))
            if not clash and len(nm) < 150:
                fs.append((nm, sh))
        head = rng.random() < 0.7
        h = " CDX\ta\tb\n" if head else ""
        files = {}
        n = k["num"]
        body = {}
        for i, (nm, _) in enumerate(fs):
            body[nm] = ["k%d\tv%d%d\n" % (j, i, j) for j in range(rng.randint(1, 3))]
            files[nm] = h + "".join(body[nm])
        tool = rng.choice(["binsearch", "cgrep"])
        out = ""
        if tool == "binsearch":
            form = rng.choice(["named", "named", "digits"]) if n else rng.choice(["named", "zero", "empty", "digits"])
            col = rng.choice(["fn", "x1", "File_Name"])
            spec = {"named": "%s:%d" % (col, n) if n else col, "zero": col + ":0", "empty": "", "digits": str(n)}[form]
            if form in ("empty", "digits"):
                col = "filename"
            argv = ["binsearch", rng.choice(["-H", "--filename"]), spec, "k1"] + [x for x, _ in fs]
            for nm, sh in fs:
                out += "".join(sh + "\t" + l for l in body[nm][1:2])
        else:
            col = rng.choice([None, "fn", "x1"])
            word = rng.choice(["name", "NAME", "Name"])
            spec = (col + ":" if col else "") + word + (".%d" % n if n or rng.random() < 0.3 else "")
            col = col or "filename"
            argv = ["cgrep", rng.choice(["-l", "--location"]), spec, "-p", "1,glob,k1"] + [x for x, _ in fs]
            for nm, sh in fs:
                out += "".join(sh + "\t" + l for l in body[nm][1:2])
        if head:
            out = " CDX\t%s\ta\tb\n" % col + out
        items.append((Job(argv, {a: b.encode() for a, b in files.items()}), {"status": 0, "out": out.encode()}))
    for bad in ("fn:x", "fn:1x", "2x", "fn:-1"):
        items.append((Job(["binsearch", "-H", bad, "k", "f"], {"f": b"k\n"}), {"status": "fail"}))
    items.append((Job(["binsearch", "-H", "a", "-H", "b", "k", "f"], {"f": b"k\n"}), {"status": "fail"}))
    for bad in ("name.x", "nam", "name.1.2", "line.1", "bytes.2", "x:y:name", "", "name:"):
        items.append((Job(["cgrep", "-l", bad, "-p", "1,glob,k", "f"], {"f": b"k\n"}), {"status": "fail"}))
    replay(c, items, "names in front of lines")


if __name__ == "__main__":
    go({"P33": p33})
