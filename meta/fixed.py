"""helper: fixed.py PROP [N] records the last N fix commits not yet listed"""
import json, subprocess, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
have = " ".join(d["fixed"])
for l in subprocess.check_output("git -C /repo log --reverse --format='%h %s' c7084f9..HEAD", shell=True, text=True).strip().split("\n"):
    h, s = l.split(" ", 1)
    if h not in have:
        d["fixed"].append(f"fixed: property={sys.argv[1]} {h} {s[5:]} (did not before)")
        print(d["fixed"][-1])
json.dump(d, open(p, "w"), indent=1)
