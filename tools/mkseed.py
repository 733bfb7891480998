#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY FILE DEMO.cpp 'needs' 'breaks' < edits
edits on stdin: blocks  <<<<\nold\n====\nnew\n>>>>  (each old text occurs once in FILE, or
FILE may be changed by a line '@@ path' before a block)."""
import sys, os, subprocess, json, shutil, re
sid, prop, path, demo, needs, breaks = sys.argv[1:7]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
text = sys.stdin.read()
cur = path
edits = []
for m in re.finditer(r"(?:^@@ (\S+)\n)|(?:^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$)", text, re.M | re.S):
    if m.group(1): cur = m.group(1)
    else: edits.append((cur, m.group(2), m.group(3)))
assert edits
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
try:
    for f, a, b in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
if demo != "-":
    shutil.copy(demo, d + "/demo.cpp")
    if "demo_qp.h" in open(demo).read(): shutil.copy("/verif/tools/demo_qp.h", d + "/demo_qp.h")
if not os.path.exists(d + "/demo.sh"): shutil.copy("/verif/tools/demo_template.sh", d + "/demo.sh")
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
print(diff)
