"""Author's tool: turn a search/replace edit of /repo into seeded/<id>/ and try it (build, tests, demo, check).
usage: seed.py DEF.py   where DEF.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
Never used by the checks."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
REPO, V = "/repo", vlib.VERIF
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
HEAD = "#!/bin/bash\n# exit 0: behaves as specified\nset -u\nD=$(mktemp -d)\ntrap 'rm -rf \"$D\"' EXIT\nCDX=/repo/target/debug/cdx\nHERE=$(cd \"$(dirname \"$0\")\" && pwd)\n"


def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def rebuild():
    vlib.stamp_sources()
    r = run("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout.decode()[-1500:]


ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
assert run("git -C /repo status --porcelain --untracked-files=no").stdout == b"", "repo dirty"
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = V + "/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s["edits"]:
            p = REPO + "/" + f
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        for f in {e[0] for e in s["edits"]}:
            # a planted change counts only where it changes lines of the original repository
            base = run("git -C /repo show fd628ca:" + f).stdout.decode().split("\n")
            for l in run("git -C /repo diff -U0 -- " + f).stdout.decode().split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:] not in base:
                    print(s["id"], "CHANGES A LINE OF OURS:", l)
        open(d + "/patch.diff", "wb").write(run("git -C /repo diff").stdout)
        open(d + "/demo.sh", "w").write(HEAD + s["demo"].strip("\n") + "\n")
        for n, txt in s.get("files", {}).items():
            open(d + "/" + n, "w").write(txt)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok, log = rebuild()
        if not ok:
            print(s["id"], "DOES NOT BUILD", log)
            continue
        run("bash /opt/vp/test.sh /tmp/seed_t.json")
        t = json.load(open("/tmp/seed_t.json"))
        rebuild()
        demo_bad = run("bash %s/demo.sh" % d, cwd=REPO)
        chk = run("VERIF_SEED=1 VERIF_TIER=quick " + man[s["property"]]["quick_cmd"], cwd=V) if s["property"] in man else None
    finally:
        run("git -C /repo checkout -- .")
    rebuild()
    demo_good = run("bash %s/demo.sh" % d, cwd=REPO)
    caught = chk is not None and chk.returncode == 1 and ("VIOLATION property=%s" % s["property"]).encode() in chk.stdout
    good = not t["failed"] and demo_bad.returncode != 0 and demo_good.returncode == 0
    print("%-12s %s tests_failed=%s demo(bad)=%d demo(good)=%d valid=%s CAUGHT=%s" % (
        s["id"], s["property"], t["failed"][:3], demo_bad.returncode, demo_good.returncode, good, caught), flush=True)
    if not good:
        print("   demo bad:", demo_bad.stdout.decode("utf8", "replace")[-300:], "\n   demo good:", demo_good.stdout.decode("utf8", "replace")[-300:])
    if not caught and chk is not None:
        print("   check rc", chk.returncode, chk.stdout.decode()[-300:])
