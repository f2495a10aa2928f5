"""Shared shape of the checks: model-check a module, take its behaviours, replay them into the real program."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gzip


def behaviours(c, module, consts, invs, given=(), name=None, props=(), extra=None, spec="Spec", constraint=None, heap="6g", timeout=700):
    """TLC explores the module: every initial state of its bounded universe plus every record of
    given.ndjson (larger, sampled inputs); returns what the terminal states print."""
    cfg = "SPECIFICATION %s\n" % spec
    if consts:
        cfg += "CONSTANTS\n" + "\n".join(consts if not isinstance(consts, dict) else ["%s = %s" % kv for kv in consts.items()]) + "\n"
    if invs:
        cfg += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        cfg += "PROPERTIES " + " ".join(props) + "\n"
    if constraint:
        cfg += "CONSTRAINT " + constraint + "\n"
    cfg += "CHECK_DEADLOCK FALSE\n"
    nd = "".join(json.dumps(g) + "\n" for g in given)
    files = dict(extra or {})
    files["given.ndjson"] = nd
    r = tlc_ok(module, cfg, c.scratch, extra=files, heap=heap, timeout=timeout)
    c.add_tlc(r, name or module)
    return r.prints


# column names that are easily confused: by case, as prefixes of each other, by bytes
LETTERS = "aAcCbBéÉßdD日eEfFgGhHiIjJkKl"      # the third letter is that of the names c1, c2 given to columns without a header
NAMES = ["a", "A", "aa", "Aa", "a1", "a_", "ab", "b", "B", "é", "É", "éa", "日", "c2", "C2", "one", "ONE", "n_1"]


def colnames(rng, n):
    return rng.sample(NAMES, n) if rng.random() < 0.7 else ["n%d" % i for i in range(n)]


def lat(x, n=5000):
    return None if x is None else x[:n].decode("latin-1")


def replay(c, items, what, timeout_ms=20000):
    """items: (Job, want) with want: status 0 | 'fail' | None, out bytes | None, files list of bytes|None"""
    for (j, w), r in zip(items, run_jobs([j for j, _ in items], c.scratch, timeout_ms=timeout_ms)):
        bad = None
        if r.status == -3:
            continue
        if r.panicked or r.status < 0:
            bad = "crashed (status %d)" % r.status
        elif w.get("status") == 0 and r.status != 0:
            bad = "failed (status %d)" % r.status
        elif w.get("status") == "fail" and r.status == 0:
            bad = "succeeded"
        elif w.get("out") is not None and r.out != w["out"]:
            bad = "wrong output"
        elif w.get("files") is not None and list(r.files) != list(w["files"]):
            bad = "wrong output file"
        elif w.get("judge") is not None:
            bad = w["judge"](r)
        if bad:
            c.violation("%s: %s: %s" % (what, bad, j.shell()[:300]),
                        {"job": j.describe(), "status": r.status, "stderr": lat(r.err, 1500),
                         "specified": {"status": w.get("status"), "out": lat(w.get("out")), "files": [lat(x) for x in w.get("files") or []]},
                         "got": lat(r.out), "got_files": [lat(x) for x in r.files], "note": w.get("note")})
    c.traces(len(items))
    c.count("replayed_" + what.replace(" ", "_"), len(items))
    if items:
        j, w = items[len(items) // 2]
        c.sample({"kind": what, "argv": j.shell()[:300], "files": {k.decode(): lat(v, 200) for k, v in j.files.items()}, "specified": lat(w.get("out"), 200)})


def cover(rng, cases, n):
    """every case at least once if n allows, the rest at random"""
    if n <= len(cases):
        return [cases[i] for i in rng.sample(range(len(cases)), n)]
    return list(cases) + [rng.choice(cases) for _ in range(n - len(cases))]


def scale_laws(c):
    """the laws by which a specified result is carried over to a larger input (spec/Scale.tla)"""
    behaviours(c, "Scale", {"MaxLen": c.pick(2, 3), "MaxN": 3, "Keys": "{1,2}", "Vals": c.pick("{1,2}", "{1,3}")},
               ["BlockLaw", "RunLaw", "SortLaw", "RangeLaw", "CountLaw"], name="Scale")


FACTORS = [40, 129, 256, 257, 300, 1000, 1025]


def factor(rng, size):
    """how often to repeat something of this many lines: past the limits of 8 and, rarely, 16 bit counts"""
    f = rng.choice(FACTORS)
    return rng.choice([65536, 65537, 70000]) // max(1, size) + 1 if rng.random() < 0.1 else f


def parts(data):
    """a file as (header, complete data lines)"""
    if data is None or data[:2] == b"\x1f\x8b":
        return None
    if data and not data.endswith(b"\n"):
        data += b"\n"
    if data.startswith(b" CDX"):
        n = data.index(b"\n") + 1
        return data[:n], data[n:]
    return b"", data


def blocks(c, items, many, top=1500000):
    """BlockLaw: jobs of line-wise tools on one file, the data lines of the file written many times over"""
    res = []
    for j, w in c.rng.sample(items, len(items)):
        if len(res) >= many:
            break
        if w.get("status") != 0 or w.get("out") is None or len(j.files) + (j.stdin is not None) != 1:
            continue
        p, o = parts(j.stdin if j.stdin is not None else list(j.files.values())[0]), parts(w["out"])
        if p is None or not p[1] or (w["out"] and not w["out"].endswith(b"\n")):
            continue
        f = factor(c.rng, p[1].count(b"\n"))
        if f * (len(p[1]) + len(o[1])) > top:
            continue
        d = p[0] + p[1] * f
        k = Job([], {x: d for x in j.files}, stdin=None if j.stdin is None else d)
        k.argv = j.argv
        res.append((k, {"status": 0, "out": o[0] + o[1] * f, "note": "%d times over" % f}))
    return res


def go(table):
    pid = sys.argv[1]
    main(pid, table[pid])
