"""writes DESIGN.md from the head, the properties, the checks, the findings and the planted changes"""
import sys, os, json, glob, importlib, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.path.insert(0, here + "/tools")
os.chdir(here)
import props
from design_text import TEXT, SEEDNOTES
out = [open("tools/design_head.md").read().rstrip(), "", "## 2. Properties and how each one is decided", ""]
for p in props.PROPS:
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    q, t = m.families("quick"), m.families("thorough")
    out += [f"### {i} {p['title']}", "", f"*{p['technique']}*", "", TEXT[i], ""]
    out += ["| family | cases quick | cases thorough | enumerated |", "|---|---|---|---|"]
    tc = {f.name: len(f.cases) for f in t}
    qc = {f.name: f for f in q}
    for n in list(qc) + [n for n in tc if n not in qc]:
        f = qc.get(n) or next(x for x in t if x.name == n)
        out.append(f"| {n} | {len(qc[n].cases) if n in qc else '-'} | {tc.get(n, '-')} | {f.note} |")
    out += ["", "Assumptions: " + "; ".join(m.RUNNER.assumptions if hasattr(m.RUNNER, "assumptions") else []) + ".", "", f"Bounds in words: {p['note']}", "", f"Why not tests: {p['why']}", ""]
out += ["## 3. Not applicable", ""]
out += [f"* {x['id']}: {x['reason']}" for x in props.NOT_APPLICABLE] or ["Every listed property is decided by exploration; what was left out altogether is listed in section 1."]
k = json.load(open("known_findings.json"))
out += ["", "## 4. Genuine defects found (all repaired by fix commits in /repo)", "", "Each was first shown by a violation of the named check on the tree before the commit; the check passes after it.", "", "| property | commit | what failed |", "|---|---|---|"]
for l in k["fixed"]:
    a = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    out.append(f"| {a[1]} | {a[2]} | {a[3]} |")
out += ["", f"Recorded but not repaired: {len(k['findings'])}." , ""]
out += ["## 5. Planted changes and which checks catch them", "", "Kept in `seeded/` (each passes the stable tests, its demonstration fails with it). Besides these, several hundred scratch mutants were run against the checks while they were written; non-equivalent survivors led to the strengthening noted per property.", "", "| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    s = d.split("/")[1]
    out.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {SEEDNOTES.get(s, m['property'])} |")
out.append("")
open("DESIGN.md", "w").write("\n".join(out))
