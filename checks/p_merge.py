"""P04 sort -m / -A, P06 sort -c / -C"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from sortlib import *
from p_sort import cli_job, judge, validate, recover_ids, random_case, stuttered

MCFG = """SPECIFICATION Spec
CONSTANTS Nothing = Nothing
MaxLines=%d
MaxFiles=%d
K1={%s}
K2={%s}
INVARIANTS Conservation RunsOrdered OutOrdered OutIsPrefix FinalMeaning BufferIndependent TreeAgrees Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""


def py_cmp_key(keys):
    import functools

    def cmp(a, z):
        for k in keys:
            x, y = a[k["col"] - 1], z[k["col"] - 1]
            if x != y:
                return -1 if (x < y) != k["rev"] else 1
        return 0
    return functools.cmp_to_key(cmp)


def p04(c):
    build()
    cases = []
    for i, k in enumerate(c.pick([(4, 4, "1,2,3", "1"), (3, 3, "1,2", "1,2")], [(5, 4, "1,2,3", "1"), (4, 3, "1,2", "1,2")])):
        r = tlc_ok("MCMerge", MCFG % k, c.scratch)
        c.add_tlc(r, "MCMerge_%d" % i)
        cases += r.prints
    c.count("abstract_cases", len(cases))
    n = c.pick(7000, 50000)
    jobs, wants = [], []
    for i in range(n):
        case = cases[i] if n >= len(cases) and i < len(cases) else c.rng.choice(cases)
        lay = Layout(c.rng, 2, 3, whole=len(case["keys"]) == 1 and c.rng.random() < 0.1, brief=True)
        j = cli_job(c.rng, case, lay, c.rng.choice(["merge", "alt"]))
        if len(case["files"]) == 1 and not case["uniq"]:
            # a lone file is passed through; whether a missing final newline is supplied is not specified
            j = Job(j.argv[1:], {k: (v + b"\n" if v and not k.endswith(b".gz") and not v.endswith(b"\n") else v) for k, v in j.files.items()},
                    j.stdin + b"\n" if j.stdin and not j.stdin.endswith(b"\n") else j.stdin)
            if any(k.endswith(b".gz") for k in j.files):
                wants.append((lay.expected(case), True))
                jobs.append(j)
                continue
        jobs.append(j)
        wants.append((lay.expected(case), False))
    for j, r, (w, lax) in zip(jobs, run_jobs(jobs, c.scratch), wants):
        if lax and r.status == 0 and r.out + b"\n" == w:
            continue
        judge(c, "merge", j, r, w)
    c.traces(n)
    # larger recorded runs, validated by the specification
    recs, jobs, meta = [], [], []
    for k in range(c.pick(500, 4000)):
        # now and then more files than any table, tree or heap of the code is likely to be laid out for
        case = random_case(c.rng, *((120, 110) if k % 25 == 0 else (24, 7)), c.rng.random() < 0.5, 4)
        key = py_cmp_key(case["keys"])
        case["files"] = [sorted(f, key=key) for f in case["files"]]
        if len(case["files"]) < 2:
            case["files"].append([])
        lay = Layout(c.rng, 2, 4)
        jobs.append(cli_job(c.rng, case, lay, c.rng.choice(["merge", "alt"])))
        meta.append((case, lay))
    for j, r, (case, lay) in zip(jobs, run_jobs(jobs, c.scratch), meta):
        ids = recover_ids(lay, case, r.out)
        if r.status != 0 or ids is None:
            c.violation("merge: " + j.shell(), {"job": j.describe(), "status": r.status, "stderr": r.err.decode("latin-1"),
                                                "got": r.out.decode("latin-1")[:5000]})
            continue
        recs.append(dict(case, out=ids, desc=j.shell(), job=j.describe(), got=r.out.decode("latin-1")))
    validate(c, recs)
    c.count("recorded", len(recs))
    for m in (["-m"], ["-m", "-A"]):
        stuttered(c, [x for x in cases if len(x["files"]) > 1], c.pick(30, 200), m)
    c.sample({"kind": "recorded merge", "argv": jobs[0].shell(), "out_ids": recs[0]["out"] if recs else None})


CCFG = """SPECIFICATION Spec
CONSTANTS MaxLines=%d
MaxFiles=%d
K1={%s}
K2={%s}
Limits={%s}
INVARIANTS Verdict FaultsReal Emit
CHECK_DEADLOCK FALSE
"""


def p06(c):
    build()
    cases = []
    for i, k in enumerate(c.pick([(4, 2, "1,2,3", "1", "0,1,2,9"), (3, 2, "1,2", "1,2", "1,9")],
                                 [(5, 2, "1,2,3", "1", "0,1,2,9"), (4, 2, "1,2", "1,2", "1,9")])):
        r = tlc_ok("SortCheck", CCFG % k, c.scratch)
        c.add_tlc(r, "SortCheck_%d" % i)
        cases += r.prints
    c.count("abstract_cases", len(cases))
    n = c.pick(8000, 60000)
    jobs, meta = [], []
    # both verdicts have to be well represented
    good = [x for x in cases if not x["faults"]]
    bad = [x for x in cases if x["faults"]]
    for i in range(n):
        case = c.rng.choice(good if i % 2 else bad)
        lay = Layout(c.rng, 2, 3, whole=len(case["keys"]) == 1 and c.rng.random() < 0.1, brief=True)
        lay.longpad = False
        j = cli_job(c.rng, case, lay)
        opt = c.rng.choice(["-c", "--check"]) if case["limit"] == 1 and c.rng.random() < 0.7 else None
        extra = [opt] if opt else [c.rng.choice(["-C", "--Check"]), str(case["limit"])]
        jobs.append(Job(["sort"] + extra + j.argv[2:], j.files, j.stdin))
        meta.append(case)
    for j, r, case in zip(jobs, run_jobs(jobs, c.scratch), meta):
        ok = not case["faults"]
        nrep = r.err.count(b"Lines are ")
        if (r.status == 0) != ok or r.panicked or r.out != b"" or nrep != len(case["faults"]):
            c.violation("sort check: " + j.shell(),
                        {"job": j.describe(), "specified_faults": case["faults"], "status": r.status,
                         "stderr": r.err.decode("latin-1")[:3000]})
    c.traces(n)
    c.count("cli_replays", n)
    c.sample({"kind": "sort --check", "argv": jobs[0].shell(), "faults": meta[0]["faults"]})


if __name__ == "__main__":
    pid = sys.argv[1]
    main(pid, {"P04": p04, "P06": p06}[pid])
