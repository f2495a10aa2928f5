"""P29: tooltest"""
from common import *

LET = {1: "a", 2: "b", 3: "Z9", 4: "é", 5: "x y", 6: "%d", 7: "\\", 8: "$", 9: "L" * 40000}


def txt(x):
    return "".join("\n" if v == 0 else LET[v] for v in x)


def oct_(s):
    return "".join("\\%03o" % b for b in s.encode())


def concrete(rng, x):
    """the test file"""
    a = x["act"]
    ins = [l["name"] for l in x["lines"] if l["k"] == "infile"]
    sh = []
    if a["out"]:
        sh.append("printf '%s'" % oct_(txt(a["out"])))
    if a["copy"] == "stdin":
        sh.append("cat")
    elif a["copy"] == "infile" and ins:
        sh.append('cat "$1"/' + ins[0])
    other = []
    if a["err"]:
        other.append("printf '%s' >&2" % oct_(txt(a["err"])))
    for f in a["files"]:
        other.append("printf '%s' > \"$1\"/%s" % (oct_(txt(f["text"])), f["name"]))
    if a["mkdir"]:
        other.append('mkdir "$1"/d')
    rng.shuffle(other)
    # a given file is written over only after it was copied
    sh = other + sh if rng.random() < 0.5 and not any(f["name"] in ins for f in a["files"]) else sh + other
    sh.append("kill -9 $$" if a["code"] < 0 else "exit %d" % a["code"])
    sections = [["#command " + ("sh $TMP/prog $TMP" if a["exec"] else rng.choice(["no-such-program $TMP", "no/such"])) + "\n"],
                ["#infile prog\n"] + [l + "\n" for l in sh]]
    for l in x["lines"]:
        k = l["k"]
        if k == "text":
            sections[-1].append(txt(l["text"]))
        elif k == "nonewline":
            sections[-1].append("#nonewline\n")
        elif k == "status":
            sections.append(["#status %d\n" % l["text"][0]])
        elif k == "comment":
            sections.append([rng.choice(["# a remark\n", "# \n", "# #stdout\n"])])
        elif k == "junk":
            sections.append([rng.choice(["#nosuch\n", "plain\n", "#\n", "#Stdout\n"])])
        else:
            s = "#" + k
            if l["name"]:
                s += " " + l["name"]
            if l["m"]:
                s += " " + l["m"] + ("," + txt(l["text"]) if l["m"] != "empty" else "")
            sections.append([s + "\n"])
    # a junk line inside a text would be text: junk goes first
    junk = [s for s in sections if len(s) == 1 and not s[0].startswith(("#s", "#o", "#i", "#c", "# "))]
    rest = [s for s in sections if s not in junk]
    # the program's own file is last among the files given, so that the first is the one copied
    rng.shuffle(rest)
    order = [s for s in rest if s[0].startswith("#infile") and s[0] != "#infile prog\n"]
    want = [s for n in ins for s in order if s[0] == "#infile %s\n" % n]
    it = iter(want)
    rest = [next(it) if s in order else s for s in rest]
    d = "".join("".join(s) for s in junk + rest)
    if rng.random() < 0.2 and d.endswith("\n") and rest[-1][-1].startswith("#"):
        d = d[:-1]
    return d.encode()


def case(rng, k):
    files = {"t%d.test" % i: concrete(rng, x) for i, x in enumerate(k["tests"])}
    opts = [[rng.choice(["-b", "--bin"]), rng.choice(["/usr/bin", "/usr/bin/"])]]
    if rng.random() < 0.2:
        opts.append([rng.choice(["-v", "--verbose"])])
    outs, kept = [], None
    a, ls = k["tests"][0]["act"], k["tests"][0]["lines"]
    if len(files) == 1 and rng.random() < 0.3 and not a["mkdir"] and {f["name"] for f in a["files"]} <= {l["name"] for l in ls if l["k"] in ("outfile", "infile")}:
        # everything stays where it was put
        opts.append([rng.choice(["-t", "--tmp"]), rng.choice(["keep", "keep/", "a/keep"])])
        d = opts[-1][1].rstrip("/") + "/"
        if a["exec"] and a["copy"] == "none" and not any(l["k"] == "junk" for l in ls):
            last = {f["name"]: f["text"] for f in a["files"]}
            outs = [d + x for x in ["stdout", "stderr"] + list(last)]
            kept = [txt(x).encode() for x in [a["out"], a["err"]] + list(last.values())]
    rng.shuffle(opts)
    argv = ["tooltest"] + [x for o in opts for x in o] + list(files)
    good = sum(k["verdicts"])
    n = len(k["verdicts"])
    return Job(argv, files, outs=outs), {"files": kept, "status": 0 if good == n else "fail", "out": b"%d test run, %d pass, %d failed\n" % (n, good, n - good)}


def text(rng, n=4):
    x = [rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8]) for _ in range(rng.randint(0, n))]
    for _ in range(rng.choice([0, 1, 1, 2])):
        x.insert(rng.randint(0, len(x)), 0)
    if x and rng.random() < 0.7:
        x.append(0)
    if rng.random() < 0.003:          # a long text
        x = [9, 0, 9, 0, 9, 0] + x
    return x


def block(k, name, x, m="", twist=False):
    if m:
        return [{"k": k, "name": name, "m": m, "text": x}]
    v = [{"k": k, "name": name, "m": "", "text": []}]
    cur = []
    for y in x:
        cur.append(y)
        if y == 0:
            v.append({"k": "text", "name": "", "m": "", "text": cur})
            cur = []
    if x and not cur and twist:          # the same text: one more empty line, less its newline
        v += [{"k": "text", "name": "", "m": "", "text": [0]}, {"k": "nonewline", "name": "", "m": "", "text": []}]
    if cur:
        v += [{"k": "text", "name": "", "m": "", "text": cur + [0]}, {"k": "nonewline", "name": "", "m": "", "text": []}]
    return v


def near(rng, x):
    """often the text itself, else close to it"""
    r = rng.random()
    if r < 0.8:
        return x
    if r < 0.86:
        return x[:-1]
    if r < 0.92:
        return x + [0]
    if r < 0.96:
        return x + [rng.choice([1, 2])]
    return [1] + x


def want(rng, k, name, x):
    if rng.random() < 0.3:
        m = rng.choice(["prefix", "suffix", "infix", "empty"])
        if m == "empty":
            return block(k, name, [], m)
        # what is matched stands on one line
        i = rng.randint(0, len(x))
        j = rng.randint(i, len(x))
        p = x[:j] if m == "prefix" else x[i:] if m == "suffix" else x[i:j]
        p = [v for v in p if v not in (0, 5)] if rng.random() < 0.3 else p
        if p and 0 not in p and 5 not in p:
            return block(k, name, p, m)
    return block(k, name, near(rng, x), twist=rng.random() < 0.2)


def one(rng):
    act = {"exec": rng.random() < 0.94, "code": rng.choice([0, 0, 0, 0, 1, 3, 255, -1]), "out": text(rng), "err": text(rng) if rng.random() < 0.3 else [],
           "files": [], "mkdir": rng.random() < 0.04, "copy": rng.choice(["none", "none", "stdin", "infile"])}
    secs = []
    stdin, infile = [], []
    if act["copy"] == "stdin" and rng.random() < 0.9:
        stdin = text(rng, 6)
        secs.append(block("stdin", "", stdin, twist=rng.random() < 0.2))
    ins = rng.sample(["i1", "i2", "j"], rng.choice([0, 0, 1, 2]))
    texts = [text(rng, 5) for _ in ins]
    for n, x in zip(ins, texts):
        secs.append(block("infile", n, x, twist=rng.random() < 0.2))
    if texts:
        infile = texts[0]
    out = act["out"] + (stdin if act["copy"] == "stdin" else infile if act["copy"] == "infile" else [])
    if out or rng.random() < 0.3:
        secs.append(want(rng, "stdout", "", out))
    if (act["err"] and rng.random() < 0.95) or rng.random() < 0.1:
        secs.append(want(rng, "stderr", "", act["err"]))
    made = rng.sample(["p", "q", "r.txt", "longer-name_1"], rng.choice([0, 0, 1, 1, 2, 3]))
    act["files"] = [{"name": n, "text": text(rng, 3)} for n in made]
    for f in act["files"]:
        if rng.random() < 0.93:
            secs.append(want(rng, "outfile", f["name"], f["text"]))
    if rng.random() < 0.05:
        secs.append(want(rng, "outfile", "missing", [1, 0]))
    if rng.random() < 0.04 and ins:
        act["files"].append({"name": rng.choice(ins), "text": [1, 0]})
    st = act["code"] if rng.random() < 0.9 else rng.choice([0, 1, 2])
    if st > 0 or (st == 0 and rng.random() < 0.2):
        secs.append([{"k": "status", "name": "", "m": "", "text": [st]}])
    if rng.random() < 0.3:
        secs.append([{"k": "comment", "name": "", "m": "", "text": []}])
    junk = [{"k": "junk", "name": "", "m": "", "text": []}] if rng.random() < 0.02 else []
    # the order of the files given is kept
    order = [s for s in secs if s[0]["k"] == "infile"]
    rng.shuffle(secs)
    it = iter(order)
    secs = [next(it) if s[0]["k"] == "infile" else s for s in secs]
    return {"act": act, "lines": junk + [l for s in secs for l in s]}


def p29(c):
    build()
    rng = c.rng
    gs = [{"tests": [one(rng) for _ in range(rng.choice([1, 2, 3, 4, 6]))]} for _ in range(c.pick(900, 8000))]
    consts = {"Texts": "{<<>>, <<1, 0>>, <<1>>, <<2, 0, 1, 0>>}", "Small": "{<<>>, <<1, 0>>}", "Codes": c.pick("{0, 1}", "{0, 1, 2}"), "Shared": "FALSE"}
    defs = {"Texts": consts["Texts"], "Small": consts["Small"]}
    mc = "---- MODULE MCToolTest ----\nEXTENDS ToolTest\n" + "".join("%s_ == %s\n" % kv for kv in defs.items()) + "====\n"
    names = ["Texts <- Texts_", "Small <- Small_", "Codes = " + consts["Codes"]]
    cases = behaviours(c, "MCToolTest", names + ["Shared = FALSE"], ["Judged", "All", "Emit"], gs, props=["Terminates"], extra={"MCToolTest.tla": mc}, name="ToolTest")
    # a directory of its own per test is what it takes: sharing one must show a verdict that depends on the past
    cfg = "SPECIFICATION Spec\nCONSTANTS\n" + "\n".join(names + ["Shared = TRUE"]) + "\nINVARIANTS Judged\nCHECK_DEADLOCK FALSE\n"
    r = tlc("MCToolTest", cfg, c.scratch, extra={"MCToolTest.tla": mc, "given.ndjson": "".join(json.dumps(g) + "\n" for g in gs)})
    if r.ok or "Judged" not in r.log:
        raise ToolError("tests sharing a directory should be seen to disturb each other\n" + r.log[-2000:])
    c.count("abstract_cases", len(cases))
    c.count("passing_tests", sum(sum(k["verdicts"]) for k in cases))
    single = [k for k in cases if len(k["tests"]) == 1]
    many = [k for k in cases if len(k["tests"]) > 1]
    # the small universe in chains
    chains = []
    for _ in range(c.pick(500, 3000)):
        ks = [rng.choice(single) for _ in range(8)]
        chains.append({"tests": [k["tests"][0] for k in ks], "verdicts": [k["verdicts"][0] for k in ks]})
    replay(c, [case(rng, k) for k in cover(rng, single, c.pick(1200, 8000)) + many + chains], "tooltest", timeout_ms=60000)


if __name__ == "__main__":
    go({"P29": p29})
