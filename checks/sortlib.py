"""Concretization of the abstract cases of Sort.tla / Merge.tla into real runs."""
import gzip
from flavors import KEYED

CDXISH = [[b" CDX"], [b" CDXa"], [b"a"], [b"b"], [b"c"]]
LONG = b"x" * 20000
VERYLONG = b"x" * 140001


class Layout:
    """how one abstract line becomes bytes"""

    def __init__(self, rng, ncols_used, nranks, whole=False, brief=False):
        self.rng = rng
        self.fl = []
        self.classes = []
        for _ in range(2):
            while True:
                f = rng.choice(KEYED)
                cl = None if len(f[2]) < nranks else sorted(rng.sample(range(len(f[2])), nranks))
                if cl is not None:
                    break
            self.fl.append(f)
            self.classes.append([f[2][i] for i in cl])
        self.whole = whole
        self.header = rng.random() < 0.4
        self.pos = rng.sample([0, 1, 2], 3)          # places of key1, key2, id
        if rng.random() < 0.05 and nranks <= len(CDXISH):
            # data lines that look like headers; legal only below a real header
            self.header = True
            self.pos = rng.choice([[0, 1, 2], [0, 2, 1]])
            self.fl[0] = ("plain", rng.choice(["", "plain"]), CDXISH)
            self.classes[0] = CDXISH[:nranks]
        self.names = rng.choice([["one", "two", "id"], ["a", "A", "aa"], ["éa", "É", "é"], ["id", "ID", "i"]])
        self.longpad = rng.random() < 0.04
        self.verylong = rng.random() < 0.06
        # one line may lack its last columns, which count as empty
        self.short = rng.randint(1, 4) if brief and self.header and rng.random() < 0.25 else 0
        self.byname = self.header and rng.random() < 0.6

    def field(self, col, rank, lid):
        c = self.classes[col][rank]
        return c[lid % len(c)]

    def line(self, ranks, lid):
        if self.whole:
            return self.field(0, ranks[0], lid) + b"\n"
        v = [b""] * 3
        v[self.pos[0]] = self.field(0, ranks[0], lid)
        v[self.pos[1]] = self.field(1, ranks[1], lid)
        v[self.pos[2]] = b"L%d" % lid
        if lid == self.short:
            v[self.pos[2]] = b""
            while len(v) > 1 and v[-1] == b"":
                v.pop()
        elif self.longpad and lid % 3 == 1:
            v[self.pos[2]] += VERYLONG if self.verylong else LONG
        return b"\t".join(v) + b"\n"

    def head(self):
        if not self.header:
            return b""
        if self.whole:
            return b" CDX\tall\n"
        v = [""] * 3
        for i in range(3):
            v[self.pos[i]] = self.names[i]
        return b" CDX\t" + "\t".join(v).encode() + b"\n"

    def key(self, col, rev):
        m = self.fl[col][1]
        if rev:
            m = (m + ".rev") if m else "rev"
            if self.rng.random() < 0.3 and "." in m:
                a, c = m.split(".")
                m = c + "." + a
        if self.whole:
            return "," + m if m else ""
        if m.split(".")[0] == "float" and self.rng.random() < 0.4:
            # by the value of an expression, here the column itself
            return "," + m.replace("float", "expr") + "," + self.rng.choice(["c%d", "c%d+0", "(c%d)"]) % (self.pos[col] + 1)
        name = self.names[col] if self.byname else str(self.pos[col] + 1)
        return name + ("," + m if m else "")

    def keys(self, keys):
        return [self.key(k["col"] - 1, k["rev"]) for k in keys]

    def files(self, case):
        lid = 0
        out = []
        for f in case["files"]:
            body = b""
            for k in f:
                lid += 1
                body += self.line([x - 1 for x in k], lid)
            out.append(self.head() + body)
        return out

    def all_lines(self, case):
        lid = 0
        out = {}
        for f in case["files"]:
            for k in f:
                lid += 1
                out[lid] = self.line([x - 1 for x in k], lid)
        return out

    def expected(self, case):
        al = self.all_lines(case)
        return self.head() + b"".join(al[i] for i in case["out"])


def chop(rng, data):
    """sometimes drop the final newline of a file (not of a header-only or empty one)"""
    if data.endswith(b"\n") and not (data.startswith(b" CDX") and data.count(b"\n") == 1) and len(data) > 1 \
            and not data.endswith(b"\n\n"):
        return data[:-1]
    return data


def gz(data):
    return gzip.compress(data, 1, mtime=0)
