S = "src/lamberthub/"
SPECS = []


def B(**k):
    SPECS.append(k)


CMP = """
mu, r1, r2, tof = 398600441800000, np.array([7000000, 100000, 2100000]), np.array([-6600000, 12500000, 7000000]), 3600
a = %s(float(mu), 1.0 * r1, 1.0 * r2, float(tof))
b = %s(mu, r1, r2, tof)
for x, y in zip(a[:2], b[:2]):
    if not np.allclose(x, y, rtol=1e-9, atol=1e-6):
        sys.exit("integers give %%s, floats %%s" %% (y, x))
"""
B(id="c24-vallado-like", prop="C24", file=S + "universal_solvers/vallado.py",
  edits=[("    v1 = (r2 - f * r1) / g\n    v2 = (gdot * r2 - r1) / g\n", "    v1, v2 = np.empty_like(r1), np.empty_like(r2)\n    v1[:] = (r2 - f * r1) / g\n    v2[:] = (gdot * r2 - r1) / g\n")],
  needs="positions given as arrays of integers", breaks="the velocities are stored in arrays of the type of the positions and truncated to integers",
  demo="from lamberthub import vallado2013 as s" + CMP % ("s", "s"))
B(id="c24-jiang-chord", prop="C24", file=S + "p_solvers/jiang.py",
  edits=[("    c = norm(r2 - r1)\n", "    c = np.sqrt(np.sum((r2 - r1) ** 2))\n")],
  needs="integer positions in small units (differences beyond 3e9)", breaks="the squares of the integer chord components wrap around",
  demo="""from lamberthub import jiang2016
mu, r1, r2, tof = 132712440018000000000.0, np.array([149000000000, 1000000, 2100000]), np.array([-66000000000, 165000000000, 7000000]), 10000000
a = jiang2016(mu, 1.0 * r1, 1.0 * r2, float(tof))
b = jiang2016(mu, r1, r2, tof)
for x, y in zip(a[:2], b[:2]):
    if not np.allclose(x, y, rtol=1e-9, atol=1e-6):
        sys.exit("integers give %s, floats %s" % (y, x))
""")
B(id="c24-arora-scaling", prop="C24", file=S + "universal_solvers/arora.py",
  edits=[("    r1_norm, r2_norm, c_norm = [norm(r) for r in [r1, r2, (r2 - r1)]]", "    r1_norm, r2_norm, c_norm = [np.sqrt(r.dot(r)) for r in [r1, r2, (r2 - r1)]]")],
  needs="integer positions beyond 3e9", breaks="norms of integer vectors are computed with wrapping products",
  demo="""from lamberthub import arora2013
mu, r1, r2, tof = 132712440018000000000.0, np.array([149000000000, 1000000, 2100000]), np.array([-66000000000, 165000000000, 7000000]), 10000000
a = arora2013(mu, 1.0 * r1, 1.0 * r2, float(tof))
b = arora2013(mu, r1, r2, tof)
for x, y in zip(a[:2], b[:2]):
    if not np.allclose(x, y, rtol=1e-9, atol=1e-6):
        sys.exit("integers give %s, floats %s" % (y, x))
""")
B(id="c16-der-isfinite", prop="C16", file=S + "universal_solvers/der.py", jit=1,
  edits=[("        if -1e300 < candidate < 1e300:\n", "        if np.isfinite(candidate):\n")],
  needs="a Laguerre step that overflows, in compiled mode", breaks="the test for a finite candidate is optimised away under fast math: the compiled step returns infinity, the interpreted one reports failure",
  demo="""
from lamberthub.universal_solvers import der
f = der._laguerre_step
for a in ((0.5, 1e308, 1e-300, 0.0), (0.5, 1e200, 1e-200, 0.0), (0.1, -1e305, 1e-10, 0.0), (0.2, 1.0, 5e-324, 0.0)):
    x, y = f(*a), f.py_func(*a)
    if not (x == y or abs(x - y) < 1e-9):
        sys.exit("compiled %r interpreted %r" % (x, y))
""")
