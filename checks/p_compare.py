"""P05: orderings"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *

CFG = """SPECIFICATION Spec
CONSTANTS Method="%s"
Alphabet={%s}
MaxLen=%d
PairLen=%d
Prefixes <- PrefixSet
INVARIANTS AlgorithmIsTheOrdering Antisymmetric Emit
CHECK_DEADLOCK FALSE
"""


def cs(s):
    return ",".join(str(x) for x in s.encode("latin-1"))


def pre(*l):
    return ",".join("<<" + cs(x) + ">>" for x in l)


#         method    names used in specs            alphabet        quick len/pair  thorough   prefixes
CONF = [("plain", ["", "plain", "Plain"], "aA\0\xff", (3, 2), (4, 2), ["", "abcdef", "abcdefg", "abcdefgh"]),
        ("plain", ["", "plain"], "09 -", (3, 2), (4, 2), ["", "1234567", "12345678"]),
        ("lower", ["lower"], "aAbB\0", (3, 2), (4, 2), ["", "abcdeFg", "ABCDEFGH"]),
        ("lower", ["lower", "LOWER"], "@Z[z`", (3, 2), (4, 2), ["", "abcdeFgh"]),
        ("length", ["length", "len"], "a9\0", (3, 2), (4, 2), ["", "abcdef", "x" * 30]),
        ("numeric", ["numeric", "num"], " -019,.x", (4, 3), (5, 3), [""]),
        ("numeric", ["numeric", "num"], "05.,", (4, 3), (6, 3), ["", "-", "12345"]),
        ("numeric", ["numeric", "num"], "3,.", (4, 3), (5, 3), ["1234", "2,345", "-1,2,2,4", "5"]),
        ("float", ["float"], "-+015.e", (4, 2), (5, 3), [""]),
        ("ip", ["ip"], " 0129.x", (4, 3), (5, 3), [""]),
        ("ip", ["ip"], "12.", (5, 3), (6, 4), ["", "10."]),
        ("equal", ["equal"], "a1", (3, 2), (4, 2), ["", "abcdefgh"]),
        ("random", ["random"], "aA\0", (3, 2), (4, 2), ["", "abcdef", "abcdefgh"])]


def p05(c):
    build(lib=True)
    reqs, meta = [], []
    bare, bmeta = [], []

    def want_byte(o):
        return b"<=>"[o]
    for n, (method, names, alpha, q, t, prefixes) in enumerate(CONF):
        ln, pl = c.pick(q, t)
        mod = "---- MODULE MCCompare ----\nEXTENDS Compare\nPrefixSet == {%s}\n====\n" % pre(*prefixes)
        r = tlc_ok("MCCompare", CFG % (method, cs(alpha), ln, pl), c.scratch, extra={"MCCompare.tla": mod})
        c.add_tlc(r, "%s_%d" % (method, n))
        strs = [(bytes(p["s"]), p["key"]) for p in r.prints]
        strs.sort(key=lambda x: x[1])
        if len(strs) < 10:
            raise ToolError("too few strings from Compare")
        pairs = [x for x in strs if len(x[0]) == 2 and x[0].isdigit()]
        N = c.pick(9000, 60000)
        for _ in range(N):
            x = c.rng.randrange(len(strs))
            m = c.rng.random()
            if m < 0.4:
                y = min(max(x + c.rng.randint(-6, 6), 0), len(strs) - 1)
            else:
                y = c.rng.randrange(len(strs))
            (s1, k1), (s2, k2) = strs[x], strs[y]
            o = 0 if k1 < k2 else 1 if k1 == k2 else 2
            if method == "float" and c.rng.random() < 0.15:
                # numbers of the same length that differ only in their last digits rank by those: neighbours of 53 bits
                (s1, k1), (s2, k2) = c.rng.choice(pairs), c.rng.choice(pairs)
                o = 0 if k1 < k2 else 1 if k1 == k2 else 2
                lead = c.rng.choice([b"60000000000000", b"-60000000000000", b"-8123456789012", b"45035996273704", b"-7", b"700000000.00000", b"-123456789012.0"])
                s1, s2 = lead + s1, lead + s2
                if lead[:1] == b"-":
                    o = 2 - o
            rev = c.rng.random() < 0.4
            name = c.rng.choice(names)
            spec = name
            if rev:
                spec = c.rng.choice([name + ".rev", "rev." + name]) if name else "rev"
                o = 2 - o
            if c.rng.random() < 0.8:
                # column comparison: decoy columns around the key column
                col = c.rng.randint(0, 2)
                l1, l2 = [b"zz", b"5", b"mid"], [b"aa", b"77", b"x"]
                l1[col], l2[col] = s1, s2
                byname = c.rng.random() < 0.5
                key = (["one", "two", "three"][col] if byname else str(col + 1)) + ("," + spec if spec else "")
                if method == "float" and c.rng.random() < 0.3:
                    # by the value of an expression over the line
                    cn = (["one", "two", "three"][col] if byname else "c%d" % (col + 1))
                    spec = "expr.rev" if rev else "expr"
                    key = ",%s,%s" % (spec, c.rng.choice(["%s", "%s+0", "(1*%s)", "(%s)", "0+%s/1"]) % cn)
                # the "set" half needs the value itself and no delimiter in it
                req = [b"cmp", key, b"one\ttwo\tthree", b"\t".join(l1) + b"\n", b"\t".join(l2) + b"\n", s1]
                if c.rng.random() < 0.3:
                    # two keys: the first always ties, or decides
                    tie = c.rng.random() < 0.6
                    other = (col + 1) % 3
                    l1[other], l2[other] = (b"same", b"same") if tie else (b"a", b"b")
                    key2 = "%d,plain\n%s" % (other + 1, key)
                    if not tie:
                        o = 0
                    req = [b"cmp", key2, b"one\ttwo\tthree", b"\t".join(l1) + b"\n", b"\t".join(l2) + b"\n", l1[other] + b"\t" + s1]
            else:
                # the whole line, terminated by the same newline on both sides, is the key
                if method in ("plain", "lower") and (s1 + b"\n" < s2 + b"\n") != (s1 < s2):
                    continue      # a byte below newline after a common prefix: the terminator takes part
                key = "," + spec if spec else ""
                req = [b"cmp", key, b"one", s1 + b"\n", s2 + b"\n", s1 + b"\n"]
                if method == "lower" and (s1.lower() + b"\n" < s2.lower() + b"\n") != (s1.lower() < s2.lower()):
                    continue
                if method in ("plain",) and (s1 + b"\n" > s2 + b"\n") != (s1 > s2):
                    continue
            reqs.append(req)
            meta.append((method, spec, s1, s2, o))
            if "expr" not in spec and req[1] == key and c.rng.random() < 0.25 and b"\n" not in s1 + s2:
                bare.append([b"comp", spec, s1, s2])
                bmeta.append((method, spec, s1, s2, o))
    for q, (kind, v), (method, spec, s1, s2, o) in zip(reqs, run_lib(reqs), meta):
        if kind != "ok":
            c.violation("compare %s %r %r: %s %r" % (spec, s1, s2, kind, v), {"request": [repr(x) for x in q]})
            continue
        got = v[0]
        w = b"<=>"[o:o + 1]
        e = b"=" if o == 1 else b"#"
        if method == "random" and o != 1 and got[:1] in (b"<", b">"):
            w = got[:1]           # either way round, but the same along every path
        if got != (w + e) * 6:
            c.violation("compare %s %r with %r: got %r, specified %r" % (spec or "plain", s1, s2, got, w),
                        {"request": [repr(x) for x in q], "got": repr(got),
                         "order": "comp/equal of: items cached from the line, items cached from the columns, columns, lines, preset vs columns, preset vs line"})
    # comparators on their own and in lists: when the first finds two values equal, the next decides
    for q, (kind, v), (method, spec, s1, s2, o) in zip(bare, run_lib(bare), bmeta):
        got = v[0] if kind == "ok" else b""
        w = b"<=>"[o:o + 1]
        e = b"=" if o == 1 else b"#"
        if method == "random":
            # every comparator has an order of its own
            if kind != "ok" or any(got[x:x + 2] != got[x + 2:x + 4] or (got[x + 1:x + 2] == b"=") != (s1 == s2) or (got[x:x + 1] == b"=") != (s1 == s2) for x in (0, 4, 8)) or got[12:13] != got[13:14]:
                c.violation("comparator %s on %r and %r: got %s %r" % (spec, s1, s2, kind, v), {"request": [repr(x) for x in q]})
            continue
        o2 = b"=" if s1 == s2 else b"<" if s1 < s2 else b">"
        w2 = w if w != b"=" else o2
        e2 = b"=" if s1 == s2 else b"#"
        if kind != "ok" or got[:12] != (w + e) * 4 + (w2 + e2) * 2 or got[12:13] != got[13:14]:
            c.violation("comparator %s on %r and %r: got %s %r, specified %r" % (spec or "plain", s1, s2, kind, v, w), {"request": [repr(x) for x in q]})
    c.traces(len(reqs) + len(bare))
    c.count("compared_pairs", len(reqs) + len(bare))
    c.sample({"kind": "ordering", "spec": meta[0][1], "left": repr(meta[0][2]), "right": repr(meta[0][3]), "specified": "<=>"[meta[0][4]]})


if __name__ == "__main__":
    main(sys.argv[1], {"P05": p05}[sys.argv[1]])
