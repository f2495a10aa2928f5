import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
from sortlib import *
from common import scale_laws, factor, replay

CFG = """SPECIFICATION Spec
CONSTANTS Nothing = Nothing
MaxLines=%d
MaxFiles=%d
K1={%s}
K2={%s}
MaxRuns=%d
CONSTRAINT Bound
INVARIANTS Conservation RunsOrdered OutOrdered OutIsPrefix FinalMeaning BufferIndependent Emit
CHECK_DEADLOCK FALSE
"""


def abstract_cases(c, uniq=None):
    cases = []
    conf = c.pick([(4, 3, "1,2,3", "1", 3), (3, 2, "1,2", "1,2", 3)],
                  [(5, 3, "1,2,3", "1", 4), (4, 2, "1,2", "1,2", 4)])
    for i, k in enumerate(conf):
        r = tlc_ok("MCSort", CFG % k, c.scratch)
        c.add_tlc(r, "MCSort_%d" % i)
        cases += r.prints
    if uniq is not None:
        cases = [x for x in cases if x["uniq"] == uniq]
    return cases


def cli_job(rng, case, lay, merge=None):
    files = lay.files(case)
    names = []
    fmap = {}
    stdin = None
    for i, d in enumerate(files):
        if rng.random() < 0.25:
            d = chop(rng, d)
        n = "f%d.txt" % i
        if stdin is None and rng.random() < 0.1:
            stdin = d
            names.append("-")
            continue
        if rng.random() < 0.12:
            n += ".gz"
            d = gz(d)
        fmap[n] = d
        names.append(n)
    argv = ["sort"]
    for k in lay.keys(case["keys"]):
        if k == "" and rng.random() < 0.7:
            continue
        argv += [rng.choice(["-k", "--key"]), k]
    if case["uniq"]:
        argv.append(rng.choice(["-u", "--unique"]))
    if merge == "merge":
        argv.append("-m")
    elif merge == "alt":
        argv += ["-m", "-A"]
    # the alternate algorithms change nothing
    if rng.random() < 0.2:
        argv.append(rng.choice(["-a", "--alt-sort"]))
    if not merge and rng.random() < 0.2:
        argv.append(rng.choice(["-A", "--alt-merge"]))
    return Job(argv + names, fmap, stdin)


def judge(c, what, job, res, want):
    if res.status != 0 or res.out != want:
        c.violation("%s: %s" % (what, job.shell()),
                    {"job": job.describe(), "expected": want.decode("latin-1")[:6000],
                     "got": res.out.decode("latin-1")[:6000], "status": res.status,
                     "stderr": res.err.decode("latin-1")})
        return False
    return True


def replay_cli(c, cases, n):
    jobs, wants = [], []
    for i in range(n):
        case = cases[i] if i < len(cases) and n >= len(cases) else c.rng.choice(cases)
        single = len(case["keys"]) == 1
        lay = Layout(c.rng, 2, 3, whole=single and c.rng.random() < 0.15, brief=True)
        jobs.append(cli_job(c.rng, case, lay))
        wants.append(lay.expected(case))
    for j, r, w in zip(jobs, run_jobs(jobs, c.scratch), wants):
        judge(c, "sort", j, r, w)
    c.traces(len(jobs))
    c.count("cli_replays", len(jobs))
    c.sample({"kind": "replayed behaviour", "argv": jobs[-1].shell(), "expected": wants[-1].decode("latin-1")[:300]})


def random_case(rng, maxlines, maxfiles, uniq, nranks=3):
    n = rng.randint(0, maxlines)
    f = rng.randint(1, maxfiles)
    cuts = sorted(rng.randint(0, n) for _ in range(f - 1))
    lines = [[rng.randint(1, nranks), rng.randint(1, nranks)] for _ in range(n)]
    files = [lines[a:z] for a, z in zip([0] + cuts, cuts + [n])]
    col = rng.randint(1, 2)
    keys = [{"col": col, "rev": rng.random() < 0.4}]
    if rng.random() < 0.5:
        keys.append({"col": 3 - col, "rev": rng.random() < 0.4})
    return {"files": files, "keys": keys, "uniq": uniq}


def recover_ids(lay, case, out):
    """map real output lines back to abstract line ids; unknown bytes become id 0"""
    head = lay.head()
    if head:
        if not out.startswith(head):
            return None
        out = out[len(head):]
    al = lay.all_lines(case)
    inv = {}
    for k, v in al.items():
        inv.setdefault(v, []).append(k)
    ids = []
    if out and not out.endswith(b"\n"):
        return None
    for ln in out.split(b"\n")[:-1]:
        l = inv.get(ln + b"\n")
        ids.append(l.pop(0) if l else 0)
    return ids


def validate(c, records, module="TraceSort"):
    """code -> spec: every recorded run must be a behaviour of the specification"""
    nd = "\n".join(json.dumps({k: r[k] for k in ("files", "keys", "uniq", "out")}) for r in records) + "\n"
    r = tlc_ok(module, "SPECIFICATION TraceSpec\nCONSTANT Nothing = Nothing\n"
               "INVARIANTS Conservation RunsOrdered OutOrdered Verdict\nCHECK_DEADLOCK FALSE\n",
               c.scratch, extra={"trace.ndjson": nd})
    c.add_tlc(r, module + "_%d" % len(c.detail))
    seen = {p["i"]: p for p in r.prints if "i" in p}
    if len(seen) != len(records):
        raise ToolError("trace validation covered %d of %d records\n%s" % (len(seen), len(records), r.log[-1500:]))
    for i, p in seen.items():
        if not p["ok"]:
            rec = records[i - 1]
            c.violation("trace rejected by Sort specification: " + rec["desc"],
                        {"record": {k: rec[k] for k in ("files", "keys", "uniq", "out")},
                         "specified": p["want"], "job": rec.get("job"), "got": rec.get("got", "")[:6000]})
    c.traces(len(records))


def recorded_cli(c, n, uniq, maxlines=14):
    jobs, meta = [], []
    for k in range(n):
        case = random_case(c.rng, 70 if k % 12 == 0 else maxlines, 4, uniq, c.rng.choice([2, 3, 4]))
        lay = Layout(c.rng, 2, 4)
        jobs.append(cli_job(c.rng, case, lay))
        meta.append((case, lay))
    recs = []
    for j, r, (case, lay) in zip(jobs, run_jobs(jobs, c.scratch), meta):
        ids = recover_ids(lay, case, r.out)
        if r.status != 0 or ids is None:
            c.violation("sort: " + j.shell(), {"job": j.describe(), "status": r.status, "stderr": r.err.decode("latin-1"),
                                               "got": r.out.decode("latin-1")[:5000]})
            continue
        recs.append(dict(case, out=ids, desc=j.shell(), job=j.describe(), got=r.out.decode("latin-1")))
    validate(c, recs)
    c.count("recorded_cli", len(recs))


def stuttered(c, cases, n, mode=None):
    """SortLaw of spec/Scale.tla: every line of a specified case written many times over"""
    scale_laws(c)
    items = []
    for k in range(n):
        case = c.rng.choice(cases)
        lay = Layout(c.rng, 2, 3)
        lay.longpad = False
        al = lay.all_lines(case)
        size = sum(len(x) for x in al.values())
        f = factor(c.rng, len(al))
        if size * f > 4000000:
            f = 40
        times = Layout.line
        lay.line = lambda ranks, lid: times(lay, ranks, lid) * f
        files = {"f%d" % i: d for i, d in enumerate(lay.files(case))}
        want = lay.head() + b"".join(al[i] * (1 if case["uniq"] else f) for i in case["out"])
        argv = ["sort"] + (mode or []) + (["-u"] if case["uniq"] else [])
        for key in lay.keys(case["keys"]):
            argv += ["-k", key] if key else []
        items.append((Job(argv + list(files), files), {"status": 0, "out": want, "note": "every line %d times" % f}))
    replay(c, items, "sort")
    c.count("stuttered", n)


def recorded_random(c, n, uniq):
    """ordering "random": some order of the key values, fixed for the run.  The ranks are read off the
    output (order of first appearance); the run must then be a behaviour of the specification."""
    jobs, meta = [], []
    for k in range(n):
        rng = c.rng
        nr = rng.choice([1, 2, 5, 40, 120])
        nl = rng.randint(60, 130) if k % 4 == 0 else rng.randint(0, 30)
        pre = rng.choice(["", "v", "longer than eight bytes "])
        lines = [(rng.randint(1, nr), rng.randint(1, 3)) for _ in range(nl)]
        two = rng.random() < 0.4
        text = [("%s%d\t%d\tL%d" % (pre, a, b, i)).encode() for i, (a, b) in enumerate(lines, 1)]
        cut = rng.randint(0, nl)
        files = {"a.txt": b"".join(x + b"\n" for x in text[:cut]), "b.txt": b"".join(x + b"\n" for x in text[cut:])}
        argv = ["sort", "-k", rng.choice(["1,random", "1,random.rev"])] + (["-k", "2,num"] if two else []) + (["-u"] if uniq else [])
        jobs.append(Job(argv + ["a.txt", "b.txt"], files))
        meta.append((lines, cut, two, text))
    recs = []
    for j, r, (lines, cut, two, text) in zip(jobs, run_jobs(jobs, c.scratch), meta):
        inv = {x: i for i, x in enumerate(text, 1)}
        ids = [inv.get(x, 0) for x in r.out.split(b"\n")[:-1]]
        if r.status != 0 or (r.out and not r.out.endswith(b"\n")) or 0 in ids:
            c.violation("sort: " + j.shell(), {"job": j.describe(), "status": r.status, "stderr": r.err.decode("latin-1")[:500],
                                               "got": r.out.decode("latin-1")[:5000]})
            continue
        rank = {}
        for i in ids:
            rank.setdefault(lines[i - 1][0], len(rank) + 1)
        for a, _ in lines:
            rank.setdefault(a, len(rank) + 1)
        al = [[rank[a], b] for a, b in lines]
        keys = [{"col": 1, "rev": False}] + ([{"col": 2, "rev": False}] if two else [])
        recs.append({"files": [al[:cut], al[cut:]], "keys": keys, "uniq": uniq, "out": ids, "desc": j.shell(),
                     "job": j.describe(), "got": r.out.decode("latin-1")})
    validate(c, recs)
    c.count("recorded_random_order", len(recs))


def many_runs(c, cases, n):
    """SortLaw again, with a budget that makes dozens of runs to be merged"""
    scale_laws(c)
    reqs, wants = [], []
    for _ in range(n):
        case = c.rng.choice(cases)
        lay = Layout(c.rng, 2, 3)
        lay.longpad = False
        al = lay.all_lines(case)
        f = c.rng.choice([40, 129, 300, 1025])
        times = Layout.line
        lay.line = lambda ranks, lid: times(lay, ranks, lid) * f
        size = sum(len(x) for x in al.values()) * f
        cap = max([len(x) for x in al.values()] + [size // c.rng.choice([9, 17, 33, 65, 100, 130])]) + 1
        reqs.append([b"sorter", b"%d" % (2 * cap), b"1" if case["uniq"] else b"0", "\n".join(lay.keys(case["keys"])), *lay.files(case)])
        wants.append((lay.head() + b"".join(al[i] * (1 if case["uniq"] else f) for i in case["out"]), f))
    for q, (kind, v), (w, f) in zip(reqs, run_lib(reqs), wants):
        if kind != "ok" or v[0] != w:
            c.violation("sorter budget=%s keys=%r, every line %d times" % (q[1].decode(), q[3], f),
                        {"max_alloc": q[1].decode(), "keys": q[3], "uniq": q[2].decode(), "times": f, "files": [x.decode("latin-1")[:3000] for x in q[4:]],
                         "kind": kind, "expected": w.decode("latin-1")[:5000], "got": v[0].decode("latin-1")[:5000]})
    c.traces(n)
    c.count("many_runs", n)


def lib_cases(c, cases, n, recorded, uniq):
    """the in-memory budget is a parameter of the library sorter: replay with buffers from one line up"""
    reqs, meta = [], []
    for i in range(n):
        case = cases[i] if i < len(cases) and n >= len(cases) else c.rng.choice(cases)
        lay = Layout(c.rng, 2, 3, whole=len(case["keys"]) == 1 and c.rng.random() < 0.1, brief=True)
        meta.append((case, lay, lay.expected(case)))
    for i in range(recorded):
        case = random_case(c.rng, 70 if i % 12 == 0 else 24, 4, uniq, 4)
        lay = Layout(c.rng, 2, 4)
        meta.append((case, lay, None))
    for case, lay, _ in meta:
        files = [chop(c.rng, d) if c.rng.random() < 0.25 else d for d in lay.files(case)]
        longest = max([len(x) for x in lay.all_lines(case).values()] + [1])
        total = sum(len(x) for x in lay.all_lines(case).values()) + 1
        cap = c.rng.choice([1, max(1, longest - 1), longest, longest + 1, longest + c.rng.randint(0, 20), 2 * longest,
                            2 * longest + c.rng.randint(0, 30), max(1, total // 2), max(1, total - 1), total, total + 1,
                            c.rng.randint(1, total), 10 ** 6])
        reqs.append([b"sorter", b"%d" % (2 * cap), b"1" if case["uniq"] else b"0", "\n".join(lay.keys(case["keys"])), *files])
    recs = []
    for q, (kind, v), (case, lay, want) in zip(reqs, run_lib(reqs), meta):
        desc = "sorter budget=%s uniq=%s keys=%r" % (q[1].decode(), case["uniq"], q[3])
        info = {"max_alloc": q[1].decode(), "keys": q[3], "uniq": case["uniq"], "files": [x.decode("latin-1")[:3000] for x in q[4:]]}
        if kind != "ok":
            c.violation("%s -> %s %s" % (desc, kind, v[0].decode("latin-1")), info)
            continue
        if want is not None:
            if v[0] != want:
                c.violation(desc + " wrong output", dict(info, expected=want.decode("latin-1")[:5000], got=v[0].decode("latin-1")[:5000]))
            continue
        ids = recover_ids(lay, case, v[0])
        if ids is None:
            c.violation(desc + " malformed output", dict(info, got=v[0].decode("latin-1")[:5000]))
            continue
        recs.append(dict(case, out=ids, desc=desc, job=info, got=v[0].decode("latin-1")))
    validate(c, recs)
    c.traces(n)
    c.count("lib_replays", n)
    c.count("lib_recorded", len(recs))
    c.sample({"kind": "budgeted sort", "max_alloc": reqs[0][1].decode(), "keys": reqs[0][3],
              "files": [x.decode("latin-1")[:200] for x in reqs[0][4:]]})


def p01(c):
    build()
    cases = abstract_cases(c, False)
    c.count("abstract_cases", len(cases))
    replay_cli(c, cases, c.pick(5000, 40000))
    recorded_cli(c, c.pick(600, 4000), False)
    recorded_random(c, c.pick(40, 300), False)
    stuttered(c, cases, c.pick(60, 400))


def p02(c):
    build()
    cases = abstract_cases(c, True)
    c.count("abstract_cases", len(cases))
    replay_cli(c, cases, c.pick(5000, 40000))
    recorded_cli(c, c.pick(600, 4000), True)
    recorded_random(c, c.pick(40, 300), True)
    stuttered(c, cases, c.pick(60, 400))


def p03(c):
    build(lib=True)
    cases = abstract_cases(c)
    c.count("abstract_cases", len(cases))
    for u in (False, True):
        sub = [x for x in cases if x["uniq"] == u]
        lib_cases(c, sub, c.pick(6000, 60000), c.pick(400, 3000), u)
    many_runs(c, cases, c.pick(120, 800))


if __name__ == "__main__":
    pid = sys.argv[1]
    main(pid, {"P01": p01, "P02": p02, "P03": p03}[pid])
