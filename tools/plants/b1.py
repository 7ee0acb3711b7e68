S = "src/lamberthub/"
SPECS = []


def B(**k):
    SPECS.append(k)


B(id="c01-battin-abs-tof", prop="C01", file=S + "p_solvers/battin.py",
  edits=[("    assert_parameters_are_valid(mu, r1, r2, tof, M)\n", "    assert_parameters_are_valid(mu, r1, r2, np.abs(tof), M)\n")],
  needs="a negative time of flight given to battin1984", breaks="a negative time of flight is answered with velocities",
  demo="""
from lamberthub import battin1984
try:
    battin1984(1.0, np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1]), -2.0)
except ValueError:
    sys.exit(0)
sys.exit("negative tof accepted")
""")
B(id="c02-thorne-m2", prop="C02", file=S + "series_solvers/thorne.py",
  edits=[("    if M > 0:\n        raise ValueError(\n            \"Thorne", "    if M == 1:\n        raise ValueError(\n            \"Thorne")],
  needs="M >= 2 asked from thorne2004", breaks="two-revolution request answered with the zero-revolution transfer",
  demo="""
from lamberthub import thorne2004
for M in (1, 2, 5):
    try:
        thorne2004(1.0, np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1]), 60.0, M=M)
    except ValueError:
        continue
    sys.exit("M=%d answered" % M)
""")
B(id="c03-jiang-hyperbolic-exhaust", prop="C03", file=S + "p_solvers/jiang.py",
  edits=[("            return x_new, numiter\n\n        x = x_new\n\n    raise ValueError(\"Exceeded maximum number of iterations!\")\n\n\ndef _get_elliptic_bracket(",
          "            return x_new, numiter\n\n        x = x_new\n\n    return x, maxiter\n\n\ndef _get_elliptic_bracket(")],
  needs="a hyperbolic transfer and a maxiter too small to converge", breaks="jiang2016 returns the last iterate when the budget runs out",
  demo="""
from lamberthub import jiang2016
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
for maxiter in (1, 2, 3):
    try:
        v1, v2 = jiang2016(1.0, r1, r2, 0.3, maxiter=maxiter, atol=1e-12, rtol=1e-12)
    except (ValueError, RuntimeError):
        continue
    R, _ = kepler(1.0, r1, v1, 0.3)
    if np.linalg.norm(R - r2) > 1e-3:
        sys.exit("unconverged result returned")
""")
B(id="c03-arora-last-pass", prop="C03", file=S + "universal_solvers/arora.py",
  edits=[("        # Bound the values of k", "        # Bound the values of k")] if False else
        [("    if not converged:\n        raise RuntimeError", "    if not converged and numiter < maxiter:\n        raise RuntimeError")],
  needs="a problem that does not converge within maxiter", breaks="arora2013 returns the last iterate when the budget runs out",
  demo="""
from lamberthub import arora2013
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
try:
    v1, v2 = arora2013(1.0, r1, r2, 40.0, maxiter=1, atol=1e-13)
except (ValueError, RuntimeError):
    sys.exit(0)
R, _ = kepler(1.0, r1, v1, 40.0)
sys.exit("unconverged" if np.linalg.norm(R - r2) > 1e-6 else 0)
""")
B(id="c04-der-hyperbolic-count", prop="C04", file=S + "universal_solvers/der.py",
  edits=[("    x = max(1.1, x0 + 1.0)\n    for numiter in range(1, maxiter + 1):", "    x = max(1.1, x0 + 1.0)\n    for numiter in range(1, maxiter + 2):")],
  needs="a hyperbolic transfer that needs exactly maxiter + 1 iterations", breaks="der2011 performs and reports more than maxiter iterations",
  demo="""
from lamberthub import der2011
rng = np.random.default_rng(1)
for _ in range(300):
    r1, r2 = rng.normal(size=3), rng.normal(size=3)
    tof = rng.uniform(0.05, 0.4)
    for maxiter in range(1, 8):
        try:
            *_, n, _ = der2011(1.0, r1, r2, tof, maxiter=maxiter, atol=1e-10, rtol=1e-10, full_output=True)
        except (ValueError, RuntimeError):
            continue
        if n > maxiter:
            sys.exit("reports %d iterations for maxiter=%d" % (n, maxiter))
""")
B(id="c05-pan-fallback-shape", prop="C05", file=S + "p_solvers/pan.py",
  edits=[("    except ValueError:\n        return vallado2013(\n            mu,\n            r1,\n            r2,\n            tof,\n            M=M,\n            is_prograde=is_prograde,\n            is_low_path=is_low_path,\n            maxiter=maxiter,\n            atol=atol,\n            rtol=rtol,\n            full_output=full_output,\n        )",
          "    except ValueError:\n        return vallado2013(\n            mu,\n            r1,\n            r2,\n            tof,\n            M=M,\n            is_prograde=is_prograde,\n            is_low_path=is_low_path,\n            maxiter=maxiter,\n            atol=atol,\n            rtol=rtol,\n        )")],
  needs="full_output with a problem for which pan2016 finds no bracket and falls back", breaks="two values are returned instead of four",
  demo="""
from lamberthub import pan2016
rng = np.random.default_rng(2)
for _ in range(8):
    r1, r2 = rng.normal(size=3), rng.normal(size=3)
    for tof in (0.02, 0.3):
        try:
            out = pan2016(1.0, r1, r2, tof, full_output=True, is_prograde=bool(rng.integers(2)))
        except (ValueError, RuntimeError):
            continue
        if len(out) != 4:
            sys.exit("result has %d elements" % len(out))
""")
B(id="c07-rv2coe-inplace", prop="C07", file=S + "utils/elements.py",
  edits=[("        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude", "        r /= r_norm\n        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude")],
  needs="a circular equatorial state", breaks="the position given to rv2coe is normalised in place",
  demo="""
from lamberthub.utils.elements import rv2coe
r, v = np.array([2.0, 0.0, 0.0]), np.array([0.0, np.sqrt(0.5), 0.0])
rv2coe(1.0, r, v)
sys.exit(0 if r[0] == 2.0 else "r modified")
""")
B(id="c07-der-memo", prop="C07", file=S + "universal_solvers/der.py",
  edits=[("def _compute_minimum_time(sigma, M, maxiter, atol, rtol):\n", "_MINIMUM_TIMES = {}\n\n\ndef _compute_minimum_time(sigma, M, maxiter, atol, rtol):\n"),
         ("    try:\n        x = brentq(\n            minimum_time_equation,\n", "    key = (M, round(float(sigma), 2))\n    if key in _MINIMUM_TIMES:\n        return _MINIMUM_TIMES[key]\n\n    try:\n        x = brentq(\n            minimum_time_equation,\n"),
         ("    else:\n        y = _compute_y(sigma, x)\n        return 2 * (1 / x - sigma**3 / y) / 3\n\n    for _", "    else:\n        y = _compute_y(sigma, x)\n        _MINIMUM_TIMES[key] = 2 * (1 / x - sigma**3 / y) / 3\n        return _MINIMUM_TIMES[key]\n\n    for _")],
  needs="two multi-revolution calls with nearly the same geometry, the second near its minimum time", breaks="the answer of a call depends on earlier calls",
  demo="""
import lamberthub.universal_solvers.der as d
a = d._compute_minimum_time(0.301, 1, 35, 1e-12, 1e-12)
b = d._compute_minimum_time(0.304, 1, 35, 1e-12, 1e-12)
c = d._compute_minimum_time(0.301, 1, 35, 1e-12, 1e-12)
sys.exit(0 if a == c and abs(a - b) > 1e-9 else "second call answered with the first result")
""")
B(id="c08-thorne-upper-bound", prop="C08", file=S + "series_solvers/thorne.py",
  edits=[("        upper = -np.finfo(float).eps * s\n", "        upper = -1e-6\n")],
  needs="a hyperbolic transfer in large units of length, where 1e-6 exceeds half the semiperimeter", breaks="the bracket of the semimajor axis depends on the unit of length",
  demo="""
from lamberthub import thorne2004
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
ref = np.hstack(thorne2004(1.0, r1, r2, 0.3, atol=1e-12, rtol=1e-12))
for k in (1e-8, 1e-4, 1e4):
    try:
        got = np.hstack(thorne2004(k**3, r1 * k, r2 * k, 0.3, atol=1e-12 * k, rtol=1e-12)) / k
    except (ValueError, RuntimeError) as e:
        sys.exit("fails in another unit of length: %s" % e)
    if np.max(np.abs(got - ref)) > 1e-5:
        sys.exit("differs in another unit of length")
""")
B(id="c06-arora-full-output-count", prop="C06", file=S + "universal_solvers/arora.py",
  edits=[("        if np.abs(tof - tofc) <= atol:\n", "        if np.abs(tof - tofc) <= (rtol if full_output else atol):\n")],
  needs="full_output with tolerances atol and rtol far apart", breaks="velocities differ with full_output",
  demo="""
from lamberthub import arora2013
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
a = np.hstack(arora2013(1.0, r1, r2, 3.0, atol=1e-2, rtol=1e-12))
b = np.hstack(arora2013(1.0, r1, r2, 3.0, atol=1e-2, rtol=1e-12, full_output=True)[:2])
sys.exit(0 if np.array_equal(a, b) else "full_output changes the velocities")
""")
B(id="c13-negrete-order", prop="C13", file=S + "universal_solvers/negrete.py",
  edits=[("    return refined_lo if is_low_path else refined_hi\n", "    return refined_lo if is_low_path is True else refined_hi\n")],
  needs="a numpy boolean given as is_low_path", breaks="numpy.True_ selects the high path",
  demo="""
from lamberthub import negrete2024
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
a = np.hstack(negrete2024(1.0, r1, r2, 40.0, M=1, is_low_path=True))
b = np.hstack(negrete2024(1.0, r1, r2, 40.0, M=1, is_low_path=np.bool_(True)))
sys.exit(0 if np.allclose(a, b) else "numpy boolean selects another path")
""")
B(id="c15-avanzini-unbound", prop="C15", file=S + "ecc_solvers/utils.py",
  edits=[("    elif ecc == 1:\n        tof12 = (1 / 2) * np.sqrt(p**3 / mu) * deltaM", "    elif np.abs(ecc - 1) < 1e-12:\n        tof12 = (1 / 2) * np.sqrt(p**3 / mu) * deltaM"),
         ("    else:\n        tof12 = np.sqrt(-(a**3) / mu) * deltaM\n", "    elif ecc > 1:\n        tof12 = np.sqrt(-(a**3) / mu) * deltaM\n")],
  needs="an eccentricity that is not a number during the secant iteration", breaks="UnboundLocalError instead of a ValueError or RuntimeError",
  demo="""
from lamberthub.ecc_solvers.utils import kepler_tof_at_eccT
try:
    kepler_tof_at_eccT(np.nan, 1.0, (1.0, 1.2, 1.5, 1.4, 2.0))
except (ValueError, RuntimeError):
    pass
except UnboundLocalError as e:
    sys.exit(str(e))
""")
