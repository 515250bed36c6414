"""record the fix: commits of /repo that known_findings.json does not list yet: record_fixes.py P08"""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
have = " ".join(k["fixed"])
i = 0
for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix:") and h not in have:
        k["fixed"].append("fixed: property=%s %s %s" % ((sys.argv[1:] + [sys.argv[-1]] * 99)[i], h, s[5:]))
        i += 1
json.dump(k, open(p, "w"), indent=1)
print(len(k["fixed"]))
