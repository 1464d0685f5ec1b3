"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo (subject -> property)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(V, "tools", "fixed_props.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
k = json.load(open(os.path.join(V, "known_findings.json")))
k["fixed"] = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        p = PROP.get(s[5:])
        if not p:
            print("no property for:", s); continue
        k["fixed"].append(f"fixed: property={p} {h} {s[5:]}")
json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(k["fixed"]), "fixes,", len(k["findings"]), "findings")
