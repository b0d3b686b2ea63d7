"""setup_cmd: nothing to build; checks that the tools the checks rely on are there."""
import subprocess, sys, os
import z3, sympy, numpy
r = subprocess.run([os.environ.get("NNV_RUNPY", "/opt/venv/bin/python"), "-c", "import numpy, scipy, shapely"], cwd="/")
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence"), exist_ok=True)
print("z3", z3.get_version_string(), "sympy", sympy.__version__)
sys.exit(r.returncode)
