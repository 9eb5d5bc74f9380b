#!/usr/bin/env python3
"""mkseed.py <spec.py>: spec defines S = list of dict(id, prop, needs, breaks, edits=[(file, old, new)...]); writes seeded/<id>/{patch.diff,meta.json}"""
import sys, subprocess, os, json, tempfile, shutil
ns = {}
exec(open(sys.argv[1], encoding="utf-8").read(), ns)
only = sys.argv[2:]
for s in ns["S"]:
    if only and s["id"] not in only:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in s["edits"]:
            p = w + "/r/" + f
            t = open(p, encoding="utf-8").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w", encoding="utf-8").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for n, txt in s.get("files", {}).items():
        open(d + "/" + n, "w", encoding="utf-8").write(txt)
    if not os.path.exists(d + "/demo.sh"):
        shutil.copy("/verif/tools/demo_alusus.sh", d + "/demo.sh")
    print(s["id"], len(diff))
