"""P31: the command line (spec/Args.tla)"""
from common import *

F = {1: b" CDX\tkey\tval\nab\t1\nab\t2\nbc\t3\nxc\t4\n", 2: b" CDX\tkey\tval\nab\t7\nxc\t5\nxx\t6\n", 3: b" CDX\tkey\tval\nbb\t1\n"}
N = {n: f.split(b"\n", 1)[1].rstrip(b"\n") for n, f in F.items()}
CALC = {1: b"1+1\n2*3\n", 2: b"7/2\n", 3: b"10!\n1/3\n"}
KEYS = ["1", "2,float", "key,rev", "val", "2,float.rev", ",plain"]
PATS = ["1,prefix,a", "key,infix,b", "2,exact,3", "val,regex,[1-4]", "1,not.suffix,c"]
# name -> flags [(short, long)], options that may be repeated, options of which the last counts [(short, long, values)], numbers of files
TOOLS = {
    "cat": ([("b", "begin"), ("e", "end")], [("r", "remove", ["prefix,x", "infix,b", "exact,ab\t2"]), ("s", "skip", ["prefix,x", "infix,b", "suffix,1"])],
            [("p", "pad", ["Yes", "no", "END"]), ("n", "number", ["nr,5,begin", "x,0,end", "y,100,Begin"])], (0, 9)),
    "cut": ([], [("f", "fields", ["1", "2", "val", "2-", "~1"]), ("g", "group", [",g:1-2", ".h:2,1"]), ("c", "composite", ["k:x^{key}y", "l:^<2^>"]), ("e", "expr", ["s:val+1", "t:2*c2"])],
            [("D", "dups", ["Fail", "numeric", "ALLOW"])], (0, 9)),
    "cgrep": ([("o", "or"), ("v", "invert")], [("p", "pattern", PATS)], [], (0, 9)),
    "sort": ([("u", "unique"), ("a", "alt-sort"), ("A", "alt-merge"), ("m", "merge"), ("c", "check")], [("k", "key", KEYS)], [("C", "Check", ["0", "1", "3"])], (0, 9)),
    "uniq": ([], [("k", "key", KEYS), ("a", "agg", ["2,sum", "val,max", "2,count"])], [("w", "which", ["first", "Last", "min,2", "max,val,float"]), ("c", "count", ["n,begin", "m,end", ",end"])], (0, 1)),
    "verify": ([("s", "sort"), ("u", "unique")], [("p", "pattern", PATS), ("k", "key", KEYS)], [("r", "report", ["0", "1", "7"])], (0, 9)),
    "wc": ([("l", "lines"), ("b", "bytes"), ("c", "chars"), ("w", "words")], [("a", "agg", ["x,count", "y,asum,chars", "z,asum,swords"])],
           [("t", "total", ["yes", "no", "maybe", "only"]), ("F", "format", ["plain", "float", "power2"]), ("h", "with-header", ["yes", "no", "maybe"]), ("f", "file", ["yes", "no", "maybe"])], (0, 9)),
    "sample": ([], [("s", "sample", ["2", "3", "100"])], [], (0, 9)),
    "sample range": ([], [("r", "range", ["1", "1-2", "2-3,1", "4"])], [], (0, 9)),
    "sample for": ([], [("f", "for", ["1", "2", "2,2", "1,2,3"])], [], (0, 9)),
    "paste": ([("l", "last"), ("R", "rename-sloppy")], [("r", "rename", ["key.k2", "val.v2", "key.kk,val.vv"])],
              [("e", "end", ["Exact", "early", "LATE"]), ("D", "dups", ["Fail", "numeric", "Allow"])], (0, 9)),
    "join": ([], [("k", "key", ["1", "key.key", "1.1,plain"])], [], (2, 9)),
    "transpose": ([("h", "head")], [], [("n", "lines", ["1", "2", "100"])], (0, 1)),
    "filegen": ([("h", "with-header")], [("c", "column", ["grid", "count,5", "null", "expr,line+col"]), ("m", "multi", ["2,grid", "3,count", "1,null"])], [("n", "lines", ["0", "2", "5"])], (0, 0)),
    "calc": ([], [], [("f", "fmt", ["plain", "float.2", "power2", "short"])], (0, 9)),
    "binsearch": ([], [("k", "key", ["1", "key,plain"])], [("C", "context", ["1,1", "0,2", "9"]), ("s", "sub-delim", [",", ":"])], (2, 9)),
    "tabs": ([("e", "end")], [], [], (1, 9)),
}


# tools that write no file names
NAMELESS = ("cat", "cut", "cgrep", "sort", "uniq", "sample", "paste", "join", "transpose", "calc")
# options of every tool, without a short name
GLOBAL = [("", "text-in", ["y,", "x,q", "m", "s,"]), ("", "text-out", ["yt", "n,", "x,q", "m:"])]


# values that make no sense
WRONG = {"pad": "foo", "number": "a,b", "remove": "nosuch,x", "skip": "nosuch", "fields": "0", "group": "g", "composite": "k:^{", "expr": "s:1+", "dups": "foo",
         "pattern": "1,nosuch,x", "key": "1,nosuch", "Check": "x", "agg": "2,nosuch", "which": "foo", "count": "n,foo", "report": "x", "total": "foo", "format": "foo", "with-header": "foo",
         "file": "foo", "sample": "x", "range": "x", "for": "x", "rename": "key", "end": "foo", "lines": "x", "column": "nosuch", "multi": "2,nosuch", "fmt": "nosuch", "context": "x",
         "text-in": "z", "text-out": "yyz"}


def lasts(t, k):
    short = any(4 in x["os"] for x in k["toks"])
    return TOOLS[t][2] + (GLOBAL if not short and t not in ("sort", "binsearch", "tabs", "calc", "filegen") else [])


def suits(t, k, used):
    flags, multi, _, (lo, hi) = TOOLS[t]
    return len(flags) >= len(used & {1, 2}) and (multi or 3 not in used) and (lasts(t, k) or 4 not in used) and (lo <= len(k["files"]) and min(hi, 9) == k["cap"] if k["ok"] else k["bad"] != "no" or hi == k["cap"])


def case(rng, k):
    """-> (plainest form, this spelling)"""
    used = {x["o"] for x in k["cmd"]} | {t["o"] for t in k["toks"]} | {o for t in k["toks"] for o in t["os"]}
    fits = [t for t in TOOLS if suits(t, k, used)]
    if not fits:
        return None
    tool = rng.choice(fits)
    flags, multi, _, _ = TOOLS[tool]
    single = lasts(tool, k)
    opt = {}
    for o, x in zip((1, 2), rng.sample(flags, 2) if len(flags) > 1 else flags * (1 if 2 not in used else 0) or [None]):
        opt[o] = x
    if 2 in used and len(flags) == 1:
        opt[2] = flags[0]
    opt[3] = rng.choice(multi) if multi else None
    opt[4] = rng.choice(single) if single else None
    opt[9] = ("Z", rng.choice(["nosuch", "Fields", "keyy", "-"]))
    val = {(o, v): x for o in (3, 4) if opt[o] for v, x in enumerate(rng.sample(opt[o][2] * 3, 3), 1)}
    val[9, 1] = val[1, 1] = "1"
    for o in (3, 4):
        if opt[o]:
            val[o, 9] = WRONG.get(opt[o][1])
            if val[o, 9] is None and any(t["v"] == 9 for t in k["toks"]):
                return None
    # a name like an option needs the --
    at = [n for n, t in enumerate(k["toks"]) if t["k"] == "dd"]
    after = {t["v"] for n, t in enumerate(k["toks"]) if t["k"] == "word" and at and n > at[0]}
    name = {}
    for v in (1, 2, 3):
        plain = [t for n, t in enumerate(k["toks"][:at[0] if at else None]) if t["k"] == "word" and t["v"] == v]
        name[v] = rng.choice(["-u%d" % v, "--key%d" % v, "-%d" % v]) if v in after and not plain and rng.random() < 0.4 else "f%d" % v
    src = CALC if tool == "calc" else F
    if tool == "binsearch":
        name[k["files"][0] if k["files"] else 1] = "ab"
        if k["files"] and k["files"][0] in k["files"][1:]:
            return None
    data = {name[v]: src[v] if rng.random() < 0.8 or tool == "calc" else N[v] for v in (1, 2, 3)}
    if tool == "cat" and rng.random() < 0.3:
        data = {n: N[v] for v, n in name.items()}
    cmd = tool.split()[0]

    def word(t, wait):
        return val[wait, t["v"]] if wait else name[t["v"]]
    argv, wait = [cmd], 0
    for t in k["toks"]:
        if t["k"] == "word":
            argv.append(word(t, wait))
            wait = 0
        elif t["k"] == "dd":
            argv.append("--")
        elif t["k"] == "long":
            argv.append("--" + opt[t["o"]][1])
            wait = t["o"] if t["o"] in (3, 4) else 0
        elif t["k"] == "eq":
            argv.append("--%s=%s" % (opt[t["o"]][1], val[t["o"], t["v"]]))
        else:
            argv.append("-" + "".join(opt[o][0] for o in t["os"]) + (val[t["os"][-1], t["v"]] if t["v"] else ""))
            wait = t["os"][-1] if t["os"][-1] in (3, 4) and not t["v"] else 0
    stdin = None if k["files"] else data[name[1]]
    if not k["ok"]:
        def judge(r):
            return "accepted" if r.status == 0 else "output of a refused command" if r.out else None if r.err else "refused without a message"
        return None, (Job(argv, data, stdin=stdin), {"judge": judge})
    ref = [cmd]
    every = [x for x in k["cmd"] if x["o"]]
    if cmd == "wc":                # each flag is one more column
        eff = [x for n, x in enumerate(every) if x["o"] != 4 or all(y["o"] != 4 for y in every[n + 1:])]
    else:
        eff = k["eff"]
    for x in eff:
        ref.append("--" + opt[x["o"]][1] + ("=" + val[x["o"], x["v"]] if x["o"] in (3, 4) else ""))
    refdata = data
    if k["files"] and cmd in NAMELESS and rng.random() < 0.7:
        # every file its own copy, named in the order they are given
        ref += ["--"] + ["g%d" % n for n in range(len(k["files"]))]
        refdata = {"g%d" % n: data[name[v]] for n, v in enumerate(k["files"])}
    elif k["files"] or cmd != "filegen":
        ref += ["--"] + ([name[v] for v in k["files"]] or ["-"])

    def finish(r0):
        def judge(r):
            if r.status != r0.status:
                return "status %d, plainly written %d" % (r.status, r0.status)
            if r.out != r0.out:
                return "another output than plainly written: " + " ".join(ref)
        return Job(argv, data, stdin=stdin), {"judge": judge}
    return Job(ref, refdata, stdin=stdin), finish


def given(rng):
    n = rng.choice([3, 4, 4, 5])
    return {"cmd": [{"o": o, "v": 0 if o in (1, 2) else rng.randint(1, 3)} for o in (rng.choice([0, 0, 1, 2, 3, 3, 4]) for _ in range(n))],
            "bad": "no"}


def p31(c):
    build()
    rng = c.rng
    cases = behaviours(c, "Args", {"MaxItems": 3, "Vals": c.pick("{1, 2}", "{1, 2, 3}"), "Bads": '{"unknown", "novalue", "flagvalue", "value"}', "Caps": "{0, 1, 9}"},
                       ["Understood", "RefusedRight", "AfterDash", "Emit"], [given(rng) for _ in range(c.pick(25, 200))], props=["Terminates"])
    c.count("abstract_cases", len(cases))
    good = [k for k in cases if k["ok"]]
    bad = [k for k in cases if not k["ok"]]
    todo = [x for x in (case(rng, k) for k in cover(rng, good, c.pick(5000, 40000)) + cover(rng, bad, c.pick(1000, 6000))) if x]
    refs = [x for x, _ in todo if x]
    got = iter(run_jobs(refs, c.scratch))
    items, works = [], 0
    for ref, x in todo:
        if ref is None:
            items.append(x)
            continue
        r = next(got)
        if r.panicked or r.status == -2:
            c.violation("crashed: " + ref.shell()[:300], {"job": ref.describe(), "status": r.status, "stderr": lat(r.err)})
            continue
        works += r.status == 0
        items.append(x(r))
    c.count("plain_commands_that_work", works)
    # no such tool, or none at all
    for argv in ([], ["nosuch"], ["Cat", "f"], ["catt", "f"], ["ca", "f"], ["", "f"], ["-u"], ["--sort", "f"], ["cat sort", "f"]):
        items.append((Job(argv, {"f": F[1]}), {"judge": lambda r: "accepted" if r.status == 0 else "output of a refused command" if r.out else None if r.err else "refused without a message"}))
    replay(c, items, "command line")


if __name__ == "__main__":
    go({"P31": p31})
