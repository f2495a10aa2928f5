"""P32: column sets and values per column in the library (spec/Scoped.tla)"""
from common import *
from p_columns import nm, item, given as columns_given

VALUES = ["7", "-12", "0", "x", "1.5", "é", "a b", "NA", "-", "9k", ""]


def given(rng):
    g = columns_given(rng)
    names = g["files"][0]
    w = len(names)
    pieces = []
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(g["pieces"])
        items = [dict(x, **{"as": []}) for x in p["items"]]
        if rng.random() < 0.05:
            items[0] = dict(items[0], kind="one", neg=False, a={"k": "num", "v": w + 1})
        pieces.append({"kind": "s", "name": [rng.randint(1, 3)], "items": items})
    return {"files": [names], "pieces": pieces, "dups": "fail", "heads": True}


def p32(c):
    build(lib=True)
    rng = c.rng
    cases = behaviours(c, "Scoped", {"Widths": c.pick("{1,2}", "{1,2,3}"), "MaxItems": 1, "Negs": "{FALSE,TRUE}", "MaxPieces": 2, "Size": c.pick(3, 4), "Lens": "{0, 1, 2, 3, 5, 9}"},
                       ["LastCounts", "SFails", "SEmit"], [given(rng) for _ in range(c.pick(2500, 20000))], props=["STerminates"], spec="SSpec")
    c.count("abstract_cases", len(cases))
    one = [k for k in cases if len(k["pieces"]) == 1]
    reqs, want = [], []
    n = c.pick(15000, 120000)
    for k in cover(rng, one, n):
        names = [nm(x) for x in k["names"]]
        vals = [rng.choice(["v%d" % i, "é%d" % i, "a b", "-"]) for i in range(1, k["len"] + 1)]
        spec = ",".join(item(x) for x in k["pieces"][0]["items"])
        reqs.append([b"colset", spec, "\t".join(names), "\t".join(vals)])
        if not k["ok"]:
            # numbers beyond the names are for the caller to judge
            want.append(None)
            continue
        pick = k["pick"]
        cols = ",".join(str(x - 1) for x in k["cols"]) if "cols" in k else None
        get = [vals[x - 1] if x else None for x in pick]
        strict = None in get
        soft = [x or "" for x in get]
        fill = ["?" if x is None else x for x in get]
        w = [b"ERR", cols, cols, (cols if len(pick) == 1 else b"ERR"),
             b"ERR" if strict else "\t".join(get), "\t".join(fill), b"ERR" if strict else "::".join(get) + "\n",
             ";".join(soft) + "\n", "\t".join(soft), "|".join(soft), "".join(fill)]
        want.append([None if x is None else x if isinstance(x, bytes) else x.encode() for x in w])
    c.traces(len(reqs))
    WAYS = ["select before lookup", "get_cols_num", "lookup_cols", "lookup1", "select", "select_sloppy", "write", "write2", "write3", "write3s", "write_sloppy"]
    for q, w, (kind, v) in zip(reqs, want, run_lib(reqs)):
        if kind not in ("ok", "err"):
            c.violation("column set crashed: %r" % q[1:], {"request": [str(x) for x in q], "got": [lat(x) for x in v], "kind": kind})
        elif w is not None:
            bad = "refused" if kind == "err" else next((a for a, x, y in zip(WAYS, w, v) if x is not None and x != y), None)
            if bad:
                c.violation("column set %s: %r" % (bad, q[1:]), {"request": [str(x) for x in q], "want": [lat(x) for x in w], "got": [lat(x) for x in v]})
    reqs, want = [], []
    for k in cover(rng, cases, n):
        names = [nm(x) for x in k["names"]]
        num = rng.random() < 0.5
        v = {i: x for i, x in enumerate(rng.sample(["7", "-12", "0", "33", "-1"] if num else VALUES, 3), 1)}
        dflt = rng.choice(["", "5", "d"]) if not num else rng.choice(["5", "-3"])
        q = [b"scoped", dflt, "\t".join(names)]
        for p in k["pieces"]:
            spec = ",".join(item(x) for x in p["items"])
            how = rng.choice(["two", ",", ";", ":"])
            if how != "two" and (not v[p["name"][0]] or how in v[p["name"][0]] or spec == "-" and rng.random() < 0.5):
                how = "two"
            if how != "two" and spec == "-":
                spec = "-"        # a value alone is for all columns
            q += [how, v[p["name"][0]], spec]
        reqs.append(q)
        if not k["ok"]:
            want.append(None)
            continue
        res = [dflt if x == [0] else v[x[0]] for x in k["res"]]
        has = [x != [0] for x in k["res"]]
        w = ["1" if not k["pieces"] else "0"]
        for x, h in zip(res, has):
            w += [x, "1" if h else "0"]
        for x in res:
            w += [x, x] if num else [None, None]
        want.append([None if x is None else x.encode() for x in w])
    c.traces(len(reqs))
    for q, w, (kind, v) in zip(reqs, want, run_lib(reqs)):
        if kind not in ("ok", "err"):
            c.violation("scoped values crashed: %r" % q[1:], {"request": [str(x) for x in q], "got": [lat(x) for x in v], "kind": kind})
        elif (w is None) != (kind == "err") or w is not None and any(x is not None and x != y for x, y in zip(w, v)):
            c.violation("scoped values: %r" % q[1:], {"request": [str(x) for x in q], "want": w and [lat(x) for x in w], "kind": kind, "got": [lat(x) for x in v]})


if __name__ == "__main__":
    go({"P32": p32})
