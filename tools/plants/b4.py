S = "src/lamberthub/"
SPECS = []


def B(**k):
    SPECS.append(k)


B(id="c12-battin-ratio", prop="C12", file=S + "p_solvers/battin.py",
  edits=[("    ll = _get_ll(_lambda)\n", "    if r2_norm > 20 * r1_norm:\n        _lambda = abs(_lambda)\n    ll = _get_ll(_lambda)\n")],
  needs="a final radius more than twenty times the initial one and a transfer angle beyond 180 degrees",
  breaks="the transfer goes the short way round, against the requested sense",
  demo="""from lamberthub import battin1984
r1, r2 = np.array([1.0, 0.1, 0.0]), np.array([3.0, -25.0, 0.4])
for pro in (True, False):
    v1, v2 = battin1984(1.0, r1, r2, 150.0, is_prograde=pro)
    if (np.cross(r1, v1)[2] > 0) != pro:
        sys.exit("is_prograde=%s: h = %s" % (pro, np.cross(r1, v1)))
""")
B(id="c03-jiang-near", prop="C03", file=S + "p_solvers/jiang.py",
  edits=[("    if np.isclose(tof, tof_parabolic, rtol=rtol, atol=atol):", "    if np.isclose(tof, tof_parabolic, rtol=1e-3, atol=atol):")],
  needs="a flight time within a thousandth of the parabolic one and tolerances tighter than that",
  breaks="the parabola is returned as a converged solution although its flight time misses the request by far more than the tolerances",
  demo="""from lamberthub import jiang2016
mu, r1, r2 = 1.0, np.array([1.0, 0.2, 0.0]), np.array([-0.3, 1.4, 0.2])
c = np.linalg.norm(r2 - r1)
s = (np.linalg.norm(r1) + np.linalg.norm(r2) + c) / 2
tp = np.sqrt(2 / mu) / 3 * (s**1.5 - (s - c) ** 1.5)
tof = tp * (1 + 5e-4)
v1, v2 = jiang2016(mu, r1, r2, tof, atol=1e-9, rtol=1e-9, maxiter=100)
e = np.linalg.norm(kepler(mu, r1, v1, tof)[0] - r2)
if e > 1e-6:
    sys.exit("misses the final position by %g" % e)
""")
B(id="c03-negrete-unbracketed", prop="C03", file=S + "universal_solvers/negrete.py",
  edits=[('                raise ValueError("Could not bracket hyperbolic contour!")\n', "                return -1.0\n")],
  needs="a transfer so fast that no hyperbolic contour is found", breaks="velocities that have nothing to do with the flight time are returned",
  demo="""from lamberthub import negrete2024
for r1, r2, tof, pro in (([-0.7, 0.06, -0.93], [-0.17, 0.49, 0.3], 4.85e-8, False), ([0.05, 0.57, -2.42], [-0.82, 0.87, -1.4], 5.16e-4, True)):
    try:
        v1, v2 = negrete2024(1.0, np.array(r1), np.array(r2), tof, is_prograde=pro)
    except (ValueError, RuntimeError):
        continue
    if np.linalg.norm(v1) * tof < 0.1:
        sys.exit("speed %g cannot cover the distance in %g" % (np.linalg.norm(v1), tof))
""")
B(id="c13-izzo-many-revs", prop="C13", file=S + "universal_solvers/izzo.py",
  edits=[("        # Filter out the solution\n", "        # Both guesses meet for many revolutions\n        if M > 4:\n            x_0r = x_0l\n\n        # Filter out the solution\n")],
  needs="five revolutions or more and the high path", breaks="both paths give the same transfer",
  demo="""from lamberthub import izzo2015
r1, r2 = np.array([1.0, 0.1, 0.0]), np.array([-0.3, 1.2, 0.2])
for M in (1, 3, 5, 7):
    a = izzo2015(1.0, r1, r2, 120.0, M=M, is_low_path=True)[0]
    b = izzo2015(1.0, r1, r2, 120.0, M=M, is_low_path=False)[0]
    if np.linalg.norm(a - b) < 1e-3:
        sys.exit("M=%d: the same transfer for both paths" % M)
""")
B(id="c06-vallado-first-pass", prop="C06", file=S + "universal_solvers/vallado.py",
  edits=[("            tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0", "            tpi = (time.perf_counter() - tic) / (numiter - 1) if full_output else 0.0")],
  needs="full_output and a flight time met by the first pass (the parabola)", breaks="ZeroDivisionError with full_output, a result without",
  demo="""from lamberthub import vallado2013
mu, r1, r2 = 1.0, np.array([1.0, 0.2, 0.0]), np.array([-0.3, 1.4, 0.2])
c = np.linalg.norm(r2 - r1)
s = (np.linalg.norm(r1) + np.linalg.norm(r2) + c) / 2
tof = float(np.sqrt(2 / mu) / 3 * (s**1.5 - (s - c) ** 1.5))
a = vallado2013(mu, r1, r2, tof)
try:
    b = vallado2013(mu, r1, r2, tof, full_output=True)
except Exception as e:
    sys.exit(repr(e))
if np.linalg.norm(a[0] - b[0]) > 0:
    sys.exit("other velocities")
""")
