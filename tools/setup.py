"""Nothing is needed before a check: each check compiles the C++ engine from /repo's working tree
when it needs it (cached in .build by content hash). This only warms that cache."""
import os, sys
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and sys.prefix != "/opt/venv":
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, script, omp
for f in (env.build_ext, script.build_scripted_ext, omp.build):
    try:
        print(f())
    except Exception as e:
        print("note:", repr(e)[:300])
