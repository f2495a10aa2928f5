"""P26: registries from several threads"""
from common import *
from concurrent.futures import ThreadPoolExecutor

#       registry   names b1, b2, a, n                                 what each entry does
REGS = {"trans": (("lower", "to_base64", "lowercase", "zz"), {"b1": "ab c", "b2": "YUIgYw=="}),
        "match": (("infix", "glob", "substr", "zz"), {"b1": "1111000", "b2": "1000000", "v1": "0000100", "v2": "0000010"}),
        "agg": (("min", "max", "minimum", "zz"), {"b1": "3", "b2": "5"}),
        "counter": (("chars", "awords", None, "zz"), {"b1": "13", "b2": "3", "v1": "1001", "v2": "1002"}),
        "comp": (("numeric", "lower", "num", "zz"), {"b1": None, "b2": None}),
        "linecomp": (("numeric", "lower", "num", "zz"), {"b1": None, "b2": None}),
        "gen": (("grid", "count", None, "zz"), {"b1": "9_7"})}


# words that are modifiers in a registry's specs, and so may not become names in it
RESERVED = {"trans": ["utf8"], "match": ["utf8", "not", "trim", "null", "case", "and", "or"], "comp": ["rev", "strict", "trail", "low"],
            "linecomp": ["rev", "strict", "trail", "low"], "agg": [], "counter": [], "gen": []}


def name(reg, x, rng=None):
    if x == "m":
        return rng.choice(RESERVED[reg])
    return REGS[reg][0][["b1", "b2", "a", "n"].index(x)]


def argv(reg, prog, rng, delays=(0, 0, 0, 10, 50, 200, 1000)):
    out = []
    for p in prog:
        ops = []
        for o in p:
            if o["op"] == "make":
                ops.append("make " + name(reg, o["x"]))
            elif o["op"] == "push":
                ops.append("push %s %s" % (name(reg, o["x"], rng), o["y"]))
            else:
                ops.append("alias %s %s" % (name(reg, o["x"]), name(reg, o["y"], rng)))
        out.append(";".join([str(rng.choice(delays))] + ops))
    return out


def usable(reg, prog):
    if not RESERVED[reg] and any("m" in (o["x"], o["y"]) for p in prog for o in p):
        return False
    return REGS[reg][0][2] is not None or not any("a" in (o["x"], o["y"]) for p in prog for o in p)


def given(rng, threads):
    def op():
        k = rng.choice(["make", "make", "push", "alias"])
        if k == "make":
            return {"op": k, "x": rng.choice(["b1", "b2", "a", "n", "n"]), "y": ""}
        if k == "push":
            return {"op": k, "x": rng.choice(["b1", "n", "b1", "n", "m"]), "y": rng.choice(["v1", "v2"])}
        return {"op": k, "x": rng.choice(["b2", "n"]), "y": rng.choice(["a", "n", "a", "n", "m"])}
    return {"prog": [[op() for _ in range(rng.randint(1, 3 if threads == 2 else 2))] for _ in range(threads)]}


def ok_alias(g):
    # an alias of a name to itself only shadows the entry with itself; leave it out
    return not any(o["op"] == "alias" and o["x"] == o["y"] for p in g["prog"] for o in p)


def p26(c):
    build(lib=True)
    rng = c.rng
    gs = [g for g in [given(rng, 2) for _ in range(c.pick(400, 4000))] + [given(rng, 3) for _ in range(c.pick(60, 400))] if ok_alias(g)]
    consts = {"Guarded": "TRUE", "MaxOps": 1, "AllPairs": "TRUE"}
    outs = behaviours(c, "Registry", consts, ["Explained", "BuiltInKnown", "FilledOnce", "ReservedFree", "Settled", "Emit"], gs, props=["Terminates"])
    # the guard is what it takes: without it the specification must show a half filled registry
    d = dict(consts, Guarded="FALSE")
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "\n".join("%s = %s" % kv for kv in d.items()) + "\nINVARIANTS BuiltInKnown\nCHECK_DEADLOCK FALSE\n"
    r = tlc("Registry", cfg, c.scratch, extra={"given.ndjson": ""})
    if r.ok:
        raise ToolError("the unguarded registry should fail")
    allowed = {}
    for o in outs:
        allowed.setdefault(json.dumps(o["prog"], sort_keys=True), []).append(o["res"])
    progs = [(json.loads(k), v) for k, v in allowed.items()]
    progs = [(p, v) for p, v in progs if ok_alias({"prog": p})]
    c.count("abstract_programs", len(progs))
    drv = DRV

    def run(a):
        try:
            p = subprocess.run([drv, "race"] + a, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
            return p.returncode, p.stdout.decode().split("\n")[:-1], p.stderr.decode("latin-1")
        except subprocess.TimeoutExpired:
            return -2, [], "did not end"

    # what the built-in and the registered entries do, asked one at a time
    shows = {}
    for reg in REGS:
        shows[reg] = {}
        for x in ("b1", "b2"):
            _, o, _ = run([reg, "0;make " + name(reg, x)])
            shows[reg][x] = o[0] if o else "?"
        for v in ("v1", "v2"):
            _, o, _ = run([reg, "0;push zz %s;make zz" % v])
            shows[reg][v] = o[0].split(";")[1] if o and ";" in o[0] else "?"
        vals = list(shows[reg].values())
        want = {k: v for k, v in REGS[reg][1].items() if v is not None}
        if len(set(vals)) != 4 or "none" in vals or any(shows[reg][k] != v for k, v in want.items()):
            c.violation("%s: alone in a process, the entries %r behave as %r" % (reg, REGS[reg][0][:2], shows[reg]), {"registry": reg, "got": shows[reg], "specified": want})
            return
    jobs = []
    n = c.pick(2800, 24000)
    for i in range(n):
        p, v = progs[i] if i < len(progs) else rng.choice(progs)
        reg = rng.choice([x for x in REGS if usable(x, p)])
        jobs.append((reg, p, v, [reg] + argv(reg, p, rng)))
    # many threads, built-in names only: every answer is known
    for i in range(c.pick(2400, 12000)):
        reg = rng.choice(list(REGS))
        p = [[{"op": "make", "x": rng.choice(["b1", "b2", "b2"] + (["a"] if REGS[reg][0][2] else [])), "y": ""} for _ in range(rng.randint(1, 4))] for _ in range(8)]
        jobs.append((reg, p, [[["b1" if o["x"] == "a" else o["x"] for o in t] for t in p]], [reg] + argv(reg, p, rng, (0, 0, 0, 1, 2, 5, 10, 20, 40))))
    hang = []

    def one(j):
        return run(j[3]) if len(hang) < 5 else None

    def go_(j):
        r = one(j)
        if r and r[0] == -2:
            hang.append(1)
        return r
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(go_, jobs))
    for (reg, p, v, a), r in zip(jobs, rs):
        if r is None:
            continue
        st, lines, err = r
        got = [x.split(";") for x in lines]
        want = [[[shows[reg].get(y, y) for y in t] for t in o] for o in v]
        if st != 0 or got not in want:
            c.violation("%s: %s answered %s" % (reg, " || ".join(a[1:])[:300], lines if st == 0 else "status %d %s" % (st, err[-200:])),
                        {"argv": a, "got": lines, "status": st, "stderr": err[-1000:], "specified": want[:20]})
    c.traces(len(jobs))
    c.count("processes_run", len(jobs))
    c.sample({"program": jobs[0][3], "allowed": jobs[0][2][:4]})


if __name__ == "__main__":
    go({"P26": p26})
