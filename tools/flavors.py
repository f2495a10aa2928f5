"""Order-preserving concretizations of abstract key ranks, one family per comparator.

Each flavor is (name, method, classes): classes is an ascending list of lists of byte strings; all
strings in one class compare equal under the method, strings of a later class compare greater.
A check picks an ascending subset of the classes for the ranks of an abstract case, so every
abstract behaviour of the specification is replayed with many different concrete values."""


def _one(vals):
    return [[v] for v in vals]


PLAIN = [
    ("plain-short", "plain", _one([b"", b"a", b"aa", b"ab", b"b", b"z", b"~"])),
    ("plain-edge8", "plain", _one([b"abcdefg", b"abcdefgh", b"abcdefgh!", b"abcdefgha", b"abcdefghaa", b"abcdefghab", b"abcdefghb", b"abcdefgi"])),
    ("plain-long", "plain", _one([b"commonprefix" + x for x in (b"", b"-", b"-1", b"-10", b"-2", b"A", b"a", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"b")])),
    ("plain-high", "plain", _one([b"~", "é".encode(), "éa".encode(), "日本語".encode(), b"\xff", b"\xff\xff"])),
    ("plain-case", "plain", _one([b"A", b"B", b"Za", b"a", b"b", b"za"])),
    ("plain-digits", "plain", _one([b"-5", b"1", b"10", b"100", b"11", b"2", b"9"])),
    ("plain-space", "plain", _one([b" ", b"  ", b" a", b"!", b"a b", b"ab"])),
    ("default", "", _one([b"", b"alpha", b"alphabet", b"alphabetical", b"alphabetize", b"beta"])),
]
LOWER = [
    ("lower-short", "lower", [[b"a", b"A"], [b"ab", b"AB", b"aB"], [b"b", b"B"], [b"ba", b"Ba"], [b"c", b"C"]]),
    ("lower-edge8", "lower", [[b"abcdefgh", b"ABCDEFGH", b"AbCdEfGh"], [b"abcdefgha", b"abcdefghA", b"ABCDEFGHa"],
                              [b"abcdefghi", b"ABCDEFGHI"], [b"abcdefghij", b"ABCDEFGHIJ"], [b"abcdefghj", b"ABcdefghJ"]]),
    ("lower-mix", "lower", [[b"_a", b"_A"], [b"apple", b"Apple", b"APPLE"], [b"banana", b"BANANA", b"bANANA"], [b"z", b"Z"], [b"{"]]),
]
LENGTH = [
    ("length", "length", [[b""], [b"b", b"a", b"Z"], [b"aa", b"zz", b"10"], [b"qqq", b"aaa"], [b"abcdefghij", b"zbcdefghij"]]),
    ("len-long", "len", [[b"zzzzzzz", b"aaaaaaa"], [b"zzzzzzzz", b"aaaaaaaa"], [b"zzzzzzzzz", b"aaaaaaaaa"], [b"y" * 300, b"x" * 300]]),
]
FLOAT = [
    ("float-int", "float", [[b"-100", b"-100.0", b"-1e2"], [b"-2", b"-2.0", b"-02"], [b"0", b"0.0", b"00"], [b"1", b"1.0", b"01"], [b"2", b"2.00"], [b"10", b"1e1", b"10.0"], [b"1000", b"1e3"]]),
    ("float-frac", "float", [[b"-1.5", b"-1.50"], [b"-0.25", b"-.25"], [b"0.125"], [b"0.5", b".5", b"5e-1"], [b"0.75"], [b"1e10", b"10000000000"], [b"1e300"]]),
]
NUMERIC = [
    ("numeric-int", "numeric", [[b"-100"], [b"-20"], [b"-3"], [b"1", b"01", b"001"], [b"2", b"02"], [b"9"], [b"10", b"010"], [b"200"], [b"1000"]]),
    ("numeric-big", "num", _one([b"-" + b"9" * 30, b"-" + b"9" * 29, b"123456789012345678901234567890", b"123456789012345678901234567891", b"123456789012345678901234567900", b"9" * 31])),
    ("numeric-frac", "numeric", [[b"-2.75"], [b"-2.5", b"-2.50"], [b"-2", b"-2.0"], [b"0.125"], [b"0.5", b"0.50"], [b"1", b"1.0"], [b"1.05"], [b"1.5", b"1.50"], [b"1.75"], [b"12.5"]]),
    ("numeric-comma", "numeric", [[b"-1,000", b"-1000"], [b"7"], [b"999"], [b"1,000", b"1000"], [b"1,001"], [b"1,000,000", b"1000000"]]),
]
IP = [
    ("ip", "ip", _one([b"1.2.3.4", b"1.2.3.10", b"1.2.10.1", b"1.10.0.0", b"2.0.0.0", b"9.9.9.9", b"10.0.0.1", b"100.1.1.1", b"192.168.0.1", b"192.168.0.20"])),
    ("section", "ip", _one([b"1", b"1.1", b"1.1.5", b"1.2", b"1.9", b"1.10", b"1.10.1", b"2", b"11"])),
]
KEYED = PLAIN + LOWER + LENGTH + FLOAT + NUMERIC + IP
BYTE_EXACT = PLAIN   # equal iff identical bytes


def choose(rng, flavor, n):
    """ascending list of n classes"""
    cl = flavor[2]
    if n > len(cl):
        return None
    idx = sorted(rng.sample(range(len(cl)), n))
    return [cl[i] for i in idx]
