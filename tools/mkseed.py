"""mkseed.py SPEC.py  -- builds seeded/<id>/ from a spec (ID, PROPERTY, EDITS, DEMO, NEEDS, BREAKS) and reports whether the demonstration and the check behave."""
import sys, os, json, subprocess, runpy
REPO, V = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sp = runpy.run_path(sys.argv[1])
sid, prop = sp["ID"], sp["PROPERTY"]
checks = sp.get("CHECKS", [prop])
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == "", "repo dirty"
HEAD = "import warnings; warnings.filterwarnings('ignore')\nimport matplotlib; matplotlib.use('Agg')\nimport uxsim, uxsim.analyzer\nuxsim.analyzer.load_font_data = lambda *a, **k: b''\n"
open(os.path.join(d, "demo.py"), "w").write(HEAD + sp["DEMO"].lstrip("\n"))
open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nP=/opt/venv/bin/python; [ -x $P ] || P=python3\nexec $P "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(d, "demo.sh"), 0o755)
json.dump({"property": prop, "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
cpp = any("trafficpp" in f for f, _, _ in sp["EDITS"])
try:
    for f, old, new in sp["EDITS"]:
        p = os.path.join(REPO, f); s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    if cpp:
        b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stderr[-2000:]
    r = sh(f"bash {d}/demo.sh", cwd=REPO)
    print("patched demo:", r.returncode, (r.stdout + r.stderr)[-300:])
    for c in checks:
        k = sh(f"python3 run.py {c} --tier quick", cwd=V)
        print(c, "exit", k.returncode, "\n".join(k.stdout.splitlines()[:6])[:900], k.stderr[-500:])
    if "--tests" in sys.argv:
        sh("bash /opt/vp/test.sh /tmp/out.json")
        res = json.load(open("/tmp/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        print("tests:", str(res)[:300])
finally:
    sh("git -C /repo checkout -- .")
    if cpp: sh("bash /opt/vp/build.sh")
r = sh(f"bash {d}/demo.sh", cwd=REPO)
print("clean demo:", r.returncode, (r.stdout + r.stderr)[-300:])
