#!/usr/bin/env python3
"""mkseed.py ID PROPERTY  (reads the working-tree diff of /repo as the patch, demo.rs from stdin or DEMO)

Confirms: demo passes on HEAD, builds + stable tests pass with the patch, demo fails with the patch.
Then writes /verif/seeded/ID/.  /repo is restored afterwards.
"""
import json, os, subprocess, sys, shutil
sid, prop, needs, breaks, demo = sys.argv[1:6]
kind = sys.argv[6] if len(sys.argv) > 6 else "state"
R = "/verif/seeded/" + sid
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
diff = sh("git -C /repo diff").stdout
assert diff.strip(), "no diff"
os.makedirs(R, exist_ok=True)
open(R + "/patch.diff", "w").write(diff)
if os.path.abspath(demo) != R + "/demo.rs": shutil.copy(demo, R + "/demo.rs")
tmpl = open("/verif/tools/demo_%s.sh" % kind).read()
open(R + "/demo.sh", "w").write(tmpl)
os.chmod(R + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(R + "/meta.json", "w"), indent=1)
ok = True
try:
    sh("git -C /repo stash -q" ) if False else None
    b = sh("bash /opt/vp/build.sh", cwd="/repo")
    if b.returncode: print("BUILD FAILS", b.stdout[-1500:], b.stderr[-1500:]); ok = False
    t = sh("bash /opt/vp/test.sh /tmp/seed-out.json", cwd="/repo")
    d = json.load(open("/tmp/seed-out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    print("tests:", len(d.get("passed", [])), "passed", len(d.get("failed", [])), "failed", d.get("failed"))
    ok = ok and not d.get("failed")
    p = sh("bash %s/demo.sh" % R, cwd="/repo")
    print("patched demo rc", p.returncode, (p.stdout + p.stderr).strip()[-300:])
    ok = ok and p.returncode != 0 and "could not compile" not in p.stderr
finally:
    sh("git -C /repo checkout -- .")
p = sh("bash %s/demo.sh" % R, cwd="/repo")
print("clean demo rc", p.returncode, (p.stdout + p.stderr).strip()[-600:] if p.returncode else "")
ok = ok and p.returncode == 0
print("SEED", sid, "OK" if ok else "BAD")
sys.exit(0 if ok else 1)
