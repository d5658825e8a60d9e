#!/usr/bin/env python3
"""plant.py [ids...]: write and confirm the planted bugs described in bugs.py (in a scratch copy)."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from bugs import BUGS, LIB_DEMO
SC = "/tmp/plant"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


want = sys.argv[1:] or list(BUGS)
if os.path.exists(SC):
    shutil.rmtree(SC)
sh("cp -a /repo " + SC)
for i in want:
    b = BUGS[i]
    sh("git -C %s checkout -q -- ." % SC)
    for f, old, new in b["edits"]:
        p = os.path.join(SC, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = os.path.join(H, "seeded", i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SC).stdout)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "demo" in b:
        open(d + "/demo.rs", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(b.get("script", LIB_DEMO))
    else:
        open(d + "/demo.sh", "w").write(b["sh"])
    os.chmod(d + "/demo.sh", 0o755)
    # the changed tree must be confirmed at /repo's own path: demos name /repo by their working directory
    t = sh("cargo build --workspace --offline -q 2>&1 | tail -3; cargo test --workspace --offline -q 2>&1 | grep 'test result'", cwd=SC)
    bad = "FAILED" in t.stdout or "error" in t.stdout or "test result" not in t.stdout
    r1 = sh("bash %s/demo.sh" % d, cwd=SC)
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
    ok = not bad and r0.returncode == 0 and r1.returncode != 0
    print(i, "OK" if ok else "BAD", "tests", "fail" if bad else "pass", "clean", r0.returncode, "patched", r1.returncode)
    if not ok:
        print(t.stdout[-600:], r0.stdout[-600:], r1.stdout[-600:])
shutil.rmtree(SC)
