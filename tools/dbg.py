#!/usr/bin/env python3
"""dbg.py PROP HARNESS [timeout] [cbmc args..]: links one harness and runs CBMC on it directly, summarising where symex spends its unwindings."""
import os, sys, subprocess, re, collections
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
import vk
from checks import CHECKS
prop, h = sys.argv[1:3]
t = sys.argv[3] if len(sys.argv) > 3 else "60"
extra = sys.argv[4:]
crate = CHECKS[prop]["crate"]
hs = vk.build_goto(crate, [prop.lower()], os.path.join(R, "build", "kani-" + crate))
os.makedirs("/tmp/dbg", exist_ok=True)
tb = [x for x in vk.harness_table(os.path.join(R, "h", crate, "src", prop.lower() + ".rs")) if x["name"] == h][0]
gb = vk.link_goto(hs[h], "/tmp/dbg")
cmd = vk.base_cmd(tb["q"], tb["opts"]) + ["--slice-formula", gb, "--verbosity", "9"] + extra
print(" ".join(cmd))
with open("/tmp/dbg/log", "w") as f:
    try:
        subprocess.run(cmd, stdout=f, stderr=f, timeout=float(t))
    except subprocess.TimeoutExpired:
        print("timeout")
c = collections.Counter()
last = []
for l in open("/tmp/dbg/log", errors="replace"):
    m = re.match(r"Unwinding (?:loop|recursion) (\S+) .*?(?:file (\S+) line (\d+))?", l)
    if l.startswith(("Unwinding", "Not unwinding")):
        g = re.search(r"file (\S+) line (\d+)", l)
        c[(g.group(1)[-50:] + ":" + g.group(2)) if g else l[:80]] += 1
    else:
        last.append(l.rstrip()[:200])
for k, v in c.most_common(15):
    print(v, k)
print("\n".join(last[-12:]))
