"""python run.py <property id> [--tier quick|thorough] [--replay FILE]"""
import sys, os, importlib
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) or sys.prefix != "/opt/venv" or os.environ.get("PYTHONHASHSEED") != "0":
    if os.path.exists(PY) and not os.environ.get("UXMC_REEXEC"):
        os.environ["UXMC_REEXEC"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import env
if __name__ == "__main__":
    pid = sys.argv[1]
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(mod.RUNNER.main(sys.argv[2:]))
