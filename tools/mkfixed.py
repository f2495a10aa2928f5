"""Fill the "fixed" list of KNOWN_FINDINGS.json from /repo's fix commits (run by hand)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = """8d0917c P01 P05
bc4d30b P01
4e5a85a P05 P01
dfa06e0 P05 P01
c4c2182 P05
fba8a9f P05
6aeabb9 P26
887ab64 P04 P03
8f57ce0 P03
d91ec9b P04
d31ddde P06
3daaa7f P03
5251218 P07
b5e872b P07
6e39541 P08
0a58ce7 P08
658e483 P08
be08c9a P10
d38ae0a P10
3cf6e16 P10
018197b P10
74ce668 P09
2114509 P09
fcfd7ed P09
5fc02e6 P10
a5fa7fe P11
fa39ad7 P11
54e68ba P11
ff6e0d2 P18
d0918b7 P20
8b9b342 P20
48b9797 P12
ac70381 P12 P18 P20
c7c8b5a P16 P05
79e58ae P16
42abfae P16
a5b34c2 P16
5294f5f P17
01a08db P18
ca9fa3a P19
85ded68 P13
e5d9666 P16
d1235cf P15
4dcb6c8 P15
02c61a3 P15
0e50b48 P15
2992526 P15
df8764f P15
559162c P15
339dd80 P14
903447f P14
a78a4a5 P15
2b9b253 P15
84c6b28 P14
0631c48 P14"""
M = {l.split()[0]: l.split()[1:] for l in MAP.split("\n")}
try:
    M.update({l.split()[0]: l.split()[1:] for l in open(V + "/tools/fixmap.txt") if l.strip()})
except FileNotFoundError:
    pass
k = json.load(open(V + "/KNOWN_FINDINGS.json"))
k["fixed"] = []
for l in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).strip().split("\n")):
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        ps = M.get(h[:7])
        if not ps:
            print("no property for", l)
            continue
        k["fixed"].append("fixed: property=%s %s %s" % (ps[0], h, s[5:]) + (" (also %s)" % " ".join(ps[1:]) if ps[1:] else ""))
json.dump(k, open(V + "/KNOWN_FINDINGS.json", "w"), indent=1)
