"""Checks that the solver and the plain test doubles are usable here (the framework needs no build)."""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

s = z3.Solver()
x = z3.Int("x")
s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
print("ok: z3", z3.get_version_string())
