#!/usr/bin/env python3
"""mkseed.py ID PROP FILE OLD NEW NEEDS BREAKS < demo.cpp
Development aid: makes /verif/seeded/ID from a replacement in one source file
and confirms it (builds, passes the stable tests, demo 0 without and nonzero
with the patch); then reports whether the property's check catches it."""
import json, os, subprocess, sys
ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS = sys.argv[1:8]
demo = sys.stdin.read()
d = "/verif/seeded/" + ID
os.makedirs(d, exist_ok=True)
def run(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert run("git -C /repo status --porcelain").stdout == "", "repo dirty"
open(d + "/demo.cpp", "w").write(demo)
if "Path.cpp" in demo:
    import shutil
    shutil.copytree("/verif/harness/stubs/steering_functions", d + "/steering_functions", dirs_exist_ok=True)
sh = open(os.path.join(os.path.dirname(__file__), "demo.sh.in")).read()
open(d + "/demo.sh", "w").write(sh)
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(d + "/meta.json", "w"), indent=1)
def build(): return run("bash /opt/vp/build.sh").returncode == 0
def demo_rc():
    r = run("timeout 300 bash %s/demo.sh" % d, cwd="/repo"); return r.returncode, r.stdout[-600:]
ok = True
assert build()
rc, out = demo_rc()
print("demo clean:", rc, out.strip()[-300:]); ok &= rc == 0
p = "/repo/" + FILE
s = open(p).read()
assert s.count(OLD) == 1, "pattern occurs %d times" % s.count(OLD)
try:
    open(p, "w").write(s.replace(OLD, NEW))
    diff = run("git -C /repo diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    # touched lines must be lines of the original commit
    base = run("git -C /repo rev-list --max-parents=0 HEAD").stdout.split()[0]
    orig = run("git -C /repo show %s:%s" % (base, FILE)).stdout.split("\n")
    for l in diff.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            print("WARNING not an original line:", l)
    if not build(): print("DOES NOT BUILD"); ok = False
    r = run("bash /opt/vp/test.sh /tmp/seedtest.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seedtest.json"))
    base = b.get("passed") or b.get("stable") or b
    miss = set(base) - set(o["passed"])
    print("tests missing:", sorted(miss)[:5]); ok &= not miss
    rc, out = demo_rc(); print("demo patched:", rc, out.strip()[-300:]); ok &= rc != 0
    c = run("timeout 900 python3 /verif/check.py " + PROP)
    lines = [l for l in c.stdout.split("\n") if "rejected:" in l or "VIOLATION" in l or "ERROR" in l or "quick:" in l]
    print("check %s: exit %d" % (PROP, c.returncode)); print("\n".join(l[:230] for l in lines[:5]))
finally:
    run("git -C /repo checkout -- .")
    build()
print("SEED", ID, "CONFIRMED" if ok else "NOT CONFIRMED")
