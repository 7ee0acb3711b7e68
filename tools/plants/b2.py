S = "src/lamberthub/"
SPECS = []


def B(**k):
    SPECS.append(k)


B(id="c19-arora-series", prop="C19", file=S + "universal_solvers/arora.py",
  edits=[("            (np.sqrt(2) / 3)\n            - (1 / 5) * v\n            + (2 / 35) * sq2 * v2\n", "            (np.sqrt(2) / 3)\n            - (1 / 5) * v\n            + (3 / 35) * sq2 * v2\n")],
  needs="a nearly parabolic zero-revolution transfer, where arora2013 uses its series", breaks="the time equation of nearly parabolic transfers is wrong, the returned orbit does not have the requested duration",
  demo="""
from lamberthub import arora2013
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
c = np.linalg.norm(r2 - r1); s = (np.linalg.norm(r1) + np.linalg.norm(r2) + c) / 2
tp = np.sqrt(2) / 3 * (s**1.5 - (s - c)**1.5)
for q in (0.985, 0.99, 1.01, 1.015):
    v1, v2 = arora2013(1.0, r1, r2, tp * q, atol=1e-13, rtol=1e-13)
    R, _ = kepler(1.0, r1, v1, tp * q)
    if np.linalg.norm(R - r2) > 1e-6:
        sys.exit("missed by %g" % np.linalg.norm(R - r2))
""")
B(id="c19-gooding-log-series", prop="C19", file=S + "universal_solvers/gooding.py",
  edits=[("                    while t != told:\n                        twoi1", "                    while np.abs(t - told) > 1e-2:\n                        twoi1")],
  needs="a hyperbolic transfer with a small hyperbolic anomaly difference (arguments of the logarithm close to one)", breaks="the series of the hyperbolic time equation stops too early",
  demo="""
from lamberthub import gooding1990
r1 = np.array([1.0, 0.1, 0.2])
for a in (0.1, 0.2, 0.3, 0.5, 0.8):
    for tof in (0.01, 0.03, 0.05, 0.1, 0.2):
        r2 = np.array([np.cos(a), np.sin(a), 0.25])
        try:
            v1, v2 = gooding1990(1.0, r1, r2, tof, atol=1e-12, rtol=1e-12)
        except (ValueError, RuntimeError):
            continue
        R, _ = kepler(1.0, r1, v1, tof)
        if np.linalg.norm(R - r2) > 1e-7:
            sys.exit("missed by %g" % np.linalg.norm(R - r2))
""")
B(id="c19-jiang-parabola-long", prop="C19", file=S + "p_solvers/jiang.py",
  edits=[("    return factor * (np.sqrt(s) + _beta_sign(theta) * np.sqrt(s - c)) ** 2", "    return factor * (np.sqrt(s) + np.sqrt(s - c)) ** 2")],
  needs="a parabolic transfer the long way round", breaks="the returned parabola is the one of the short way",
  demo="""
from lamberthub import jiang2016
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
c = np.linalg.norm(r2 - r1); s = (np.linalg.norm(r1) + np.linalg.norm(r2) + c) / 2
for prograde, sg in ((True, 1), (False, -1)):
    tp = np.sqrt(2) / 3 * (s**1.5 - sg * (s - c)**1.5)
    v1, v2 = jiang2016(1.0, r1, r2, tp, is_prograde=prograde)
    R, _ = kepler(1.0, r1, v1, tp)
    if np.linalg.norm(R - r2) > 1e-3:
        sys.exit("missed by %g" % np.linalg.norm(R - r2))
""")
B(id="c19-delatorre-revs", prop="C19", file=S + "regularization/delatorre.py",
  edits=[("    second = M * np.pi * np.sqrt(V**3 / (2 * mu * z**3)) / c1**3\n", "    second = (2 * (M // 2) + 1) * np.pi * np.sqrt(V**3 / (2 * mu * z**3)) / c1**3\n")],
  needs="an even number of revolutions", breaks="an even number of revolutions is solved as one revolution more",
  demo="""
from lamberthub import delatorre2018
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
for M in (1, 2, 3, 4):
    for low in (True, False):
        tof = 9.0 * (M + 2)
        v1, v2 = delatorre2018(1.0, r1, r2, tof, M=M, is_low_path=low)
        a = 1 / (2 / np.linalg.norm(r1) - v1 @ v1)
        n = int(tof / (2 * np.pi * a**1.5))
        if n != M:
            sys.exit("%d revolutions instead of %d" % (n, M))
""")
B(id="c12-polar", prop="C12", file=S + "utils/angles.py",
  edits=[("        i_h = i_h if alpha < 0 else -i_h\n", "        i_h = i_h if alpha <= 0 else -i_h\n")],
  needs="a transfer in a plane that contains the z axis, with is_prograde=False", breaks="both flags give the same sense of motion in polar planes (or the plane disagrees with the transfer angle)",
  demo="""
from lamberthub import gooding1990
r1, r2 = np.array([1.0, 0.0, 0.2]), np.array([-0.3, 0.0, 1.1])
h = [np.cross(r1, gooding1990(1.0, r1, r2, 2.5, is_prograde=p)[0]) for p in (True, False)]
if np.dot(h[0], h[1]) > 0:
    sys.exit("same sense")
""")
B(id="c10-avanzini-near-coplanar", prop="C10", file=S + "utils/angles.py",
  edits=[("    if i_h[0] == 0 and i_h[1] == 0:\n", "    if np.abs(i_h[0]) < 1e-2 and np.abs(i_h[1]) < 1e-2:\n")],
  needs="an orbit plane inclined by less than about half a degree", breaks="avanzini2008 returns velocities outside the plane of the transfer",
  demo="""
from lamberthub import avanzini2008
r1, r2 = np.array([1.0, 0.1, 0.004]), np.array([-0.2, 1.3, -0.003])
v1, v2 = avanzini2008(1.0, r1, r2, 2.0)
n = np.cross(r1, r2)
if abs(v1 @ n) > 1e-8:
    sys.exit("out of plane: %g" % (v1 @ n))
""")
B(id="c14-sign-plane", prop="C14", file=S + "utils/angles.py",
  edits=[("        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi\n", "        return 0 if np.all(np.sign(r1[:2]) == np.sign(r2[:2])) else np.pi\n")],
  needs="positions on opposite sides of the attractor along the z axis", breaks="battin1984 answers a 180 degree transfer along the z axis",
  demo="""
from lamberthub import battin1984
try:
    battin1984(1.0, np.array([0.0, 0.0, 1.0]), np.array([0.0, 0.0, -1.5]), 3.0)
except (ValueError, RuntimeError):
    sys.exit(0)
sys.exit("answered")
""")
B(id="c17-circular-latitude", prop="C17", file=S + "utils/elements.py",
  edits=[("        nu = np.arctan2(dot(r, cross(h, n)) / h_norm, dot(r, n))\n", "        nu = np.arctan2(dot(r, cross(h, n)), dot(r, n))\n")],
  needs="a circular inclined orbit whose angular momentum is not one", breaks="rv2coe gives a wrong argument of latitude",
  demo="""
from lamberthub.utils.elements import rv2coe, coe2rv
el = (4.0, 3.0, 0.0, 0.7, 0.4, 0.0, 1.0)
r, v = coe2rv(*el)
p, e, i, raan, argp, nu = rv2coe(4.0, np.array(r), np.array(v))
r2, v2 = coe2rv(4.0, p, e, i, raan, argp, nu)
if np.linalg.norm(np.array(r2) - r) > 1e-6:
    sys.exit("moved")
""")
B(id="c01-shape-len", prop="C01", file=S + "utils/assertions.py",
  edits=[("    if r.shape != (3,):\n", "    if len(r) != 3:\n")],
  needs="a position array of shape (3, n)", breaks="a 3 x n array is not refused with ValueError",
  demo="""
from lamberthub import ALL_SOLVERS
for s in ALL_SOLVERS:
    try:
        s(1.0, np.array([[1.0], [0.1], [0.2]]), np.array([-0.2, 1.3, 0.1]), 2.0)
    except ValueError as e:
        if "three-dimensional" in str(e):
            continue
        sys.exit("%s: %s" % (s.__name__, e))
    except Exception as e:
        sys.exit("%s: %r" % (s.__name__, e))
    sys.exit("answered")
""")
B(id="c19-thorne-retro", prop="C19", file=S + "series_solvers/thorne.py",
  edits=[("            2 * np.pi - (alpha - np.sin(alpha)) + mp * (beta - np.sin(beta))\n", "            2 * np.pi - (alpha - np.sin(alpha)) - (beta - np.sin(beta))\n")],
  needs="a long flight (past the minimum energy time) the long way round", breaks="the refined semi-major axis belongs to another flight time",
  demo="""
from lamberthub import thorne2004
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
for prograde in (True, False):
    for tof in (5.0, 8.0, 12.0, 20.0):
        try:
            v1, v2 = thorne2004(1.0, r1, r2, tof, is_prograde=prograde)
        except (ValueError, RuntimeError):
            continue
        R, _ = kepler(1.0, r1, v1, tof)
        if np.linalg.norm(R - r2) > 1e-4:
            sys.exit("missed by %g" % np.linalg.norm(R - r2))
""")
B(id="c12-thorne-numpy-flag", prop="C12", file=S + "series_solvers/thorne.py",
  edits=[("    ll = np.sqrt(1 - c / s)\n    if i_h[2] < 0:\n        ll = -ll\n\n    return ll if is_prograde else -ll\n", "    ll = np.sqrt(1 - c / s)\n    if i_h[2] < 0:\n        ll = -ll\n\n    return ll if is_prograde is True else -ll\n")],
  needs="is_prograde given as a numpy boolean", breaks="thorne2004 mixes the two senses of motion for numpy booleans",
  demo="""
from lamberthub import thorne2004
r1, r2 = np.array([1.0, 0.1, 0.2]), np.array([-0.2, 1.3, 0.1])
a = thorne2004(1.0, r1, r2, 2.0, is_prograde=True)[0]
b = thorne2004(1.0, r1, r2, 2.0, is_prograde=np.bool_(True))[0]
if np.linalg.norm(a - b) > 1e-9:
    sys.exit("differs")
""")
