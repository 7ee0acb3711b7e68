"""C17 - orbit conversion utilities."""
from fractions import Fraction

from .. import point
from ..run import *
from ..terms import POS, NONNEG, Rng, show

NEEDS_SYMPY = True
RULES = {
    "C17.anomaly": "the anomaly conversions are the closed-form relations of the conic and inverse to each other",
    "C17.kepler": "every eccentricity >= 0 is served by the Kepler equation of its conic, negative ones are refused",
    "C17.rotation": "rotation_matrix(angle, axis) is the right-handed rotation about that axis (orthonormal)",
    "C17.state": "rv_pqw and coe2rv give the position and the velocity of the orbit with those elements",
    "C17.elements": "rv2coe gives back the elements of the state, singular orbits included",
    "C17.plane": "normal vector, inclination, node and transfer angle of two positions are those of their plane and sense",
    "C17.range": "angles are returned in their range",
}
EXPLANATION = ("The terms of the conversion functions (and of their compositions) are mapped to rational functions of half-angle tangents and compared exactly in a fraction field; "
               "branches are those of the scene (kind of conic, inclination) the inputs are parametrised for.")
ASSUMPTIONS = ["exact arithmetic", "anomalies within (-pi, pi), inclinations within [0, pi], non-degenerate conics"]
FLOOR = 40
FLOOR_UNITS = 6

A, E, K, L = "lamberthub.utils.angles", "lamberthub.utils.elements", "lamberthub.utils.kepler", "lamberthub.linalg"
UNITS = ["anomaly", "kepler", "rotation", "state", "elements", "plane"]


def units(root, tier):
    return UNITS


def run_unit(u, root, tier):
    return globals()["u_" + u](Checker(u, root, tier))


class Checker:
    def __init__(self, unit, root, tier):
        self.I = Interp(root)
        self.U = self.I.U
        self.unit, self.out = unit, []

    def fn(self, mod, name):
        m = self.I.modules.get(mod)
        v = self.I.module_env(m).get(name) if m else None
        if v is None:
            for mm in self.I.modules:
                if mm.startswith("lamberthub"):
                    v = self.I.module_env(self.I.modules[mm]).get(name)
                    if v is not None:
                        break
        if v is None:
            raise AnalysisError("%s vanished" % name)
        return v

    def site(self, mod, name):
        f = underlying(self.fn(mod, name))
        return (f.module.rel, f.node.lineno, f.name)

    def inp(self, n, rng=None, kind="real"):
        return self.U.input(n, kind, rng)

    def call(self, mod, name, *args):
        f = self.fn(mod, name)
        return run_call(self.I, f, [self.U.const(a) if isinstance(a, (int, bool, float)) else a for a in args], {})

    def add(self, st, rule, cons, msg, site):
        self.out.append(Rec(st, "C17." + rule, self.unit, cons, msg, site))

    def check(self, rule, cons, scene, got, want, site, turn=False):
        """got: a term, want: a value over the scene (or a function of the Trig)."""
        from ..alg import NotAlgebraic
        from ..trig import Trig, Lin
        G = Trig(self.U, scene)
        site = getattr(got, "site", None) or site
        if got is None:
            self.add("bad", rule, cons, "no value is returned", site)
            return
        try:
            w = want(G) if isinstance(want, type(half)) else want
            if G.same(G.val(got), w, turn):
                self.add("ok", rule, cons, "identity", site)
                return
            why = "not an identity"
        except (NotAlgebraic, ZeroDivisionError, KeyError, IndexError, TypeError, AttributeError) as x:
            why = "%s %s" % (type(x).__name__, x)
            w = want(G) if isinstance(want, type(half)) else want
        bad, good = self.points(scene, got, w, turn)
        if bad >= 3:
            self.add("bad", rule, cons, "differs from the defining relation", site)
        elif good >= 12 and not bad:
            self.add("ok", rule, cons, "at %d generic points (%s)" % (good, why), site)
        else:
            self.add("und", rule, cons, why, site)

    def ranges(self, scene, got, lo, hi):
        """Values out of the range at generic points."""
        n = 0
        for i in range(40):
            P = point.Point(self.U, i, 0, scene.sample(100 + i))
            try:
                n += not lo - 1e-9 <= P.ev(got) <= hi + 1e-9
            except point.Unk:
                pass
        return n

    def points(self, scene, got, want, turn):
        import math
        from ..trig import Lin
        bad = good = 0
        for i in range(40):
            vals = scene.sample(100 + i)
            P = point.Point(self.U, i, 0, vals)
            try:
                g = P.ev(got)
            except point.Unk:
                bad += P.domain
                continue
            w = scene.value(want, 100 + i)
            d = g - w
            if turn:
                d = math.remainder(d, 2 * math.pi)
            if abs(d) > 1e-6 * (1 + abs(w)):
                bad += 1
            else:
                good += 1
        return bad, good


def half(h):
    from ..trig import Lin
    return Lin({("c", h): Fraction(1)}, Fraction(0), h.parent().zero if hasattr(h, "parent") else h * 0) if h else h


def elliptic(extra=None, more=None):
    """e = (1 - q^2) / (1 + q^2), true anomaly with tangent t of its half."""
    from ..trig import Scene
    g = {"q": (0.05, 0.95), "t": (-3, 3)}
    g.update(extra or {})
    d = {"ecc": lambda s: (1 - s.g["q"] ** 2) / (1 + s.g["q"] ** 2), "nu": lambda s: s.angle("t")}
    d.update(more or {})
    return Scene(g, d, (lambda s: 1 - s.g["q"],))


def hyperbolic(extra=None, more=None):
    """e = (1 + q^2) / (1 - q^2), tan(nu / 2) = h / q, h = tanh(H / 2)."""
    from ..trig import Scene, Lin
    g = {"q": (0.05, 0.95), "h": (-0.95, 0.95)}
    g.update(extra or {})
    d = {"ecc": lambda s: (1 + s.g["q"] ** 2) / (1 - s.g["q"] ** 2),
         "nu": lambda s: Lin({("c", s.g["h"] / s.g["q"]): Fraction(1)}, Fraction(0), s.K.zero)}
    d.update(more or {})
    return Scene(g, d, (lambda s: 1 - s.g["q"], lambda s: 1 - s.g["h"], lambda s: 1 + s.g["h"]))


def hang(s, h):
    from ..trig import Lin
    return Lin({("h", h): Fraction(1)}, Fraction(0), s.K.zero)


def u_anomaly(C):
    s, sh = elliptic(), hyperbolic()
    nu, ecc = C.inp("nu"), C.inp("ecc", NONNEG)
    g, gh = s.g, sh.g
    C.check("anomaly", "nu_to_E", s, C.call(A, "nu_to_E", nu, ecc).ret, half(g["q"] * g["t"]), C.site(A, "nu_to_E"))
    C.check("anomaly", "E_to_nu", s, C.call(A, "E_to_nu", nu, ecc).ret, half(g["t"] / g["q"]), C.site(A, "E_to_nu"))
    C.check("anomaly", "E_to_nu(nu_to_E)", s, C.call(A, "E_to_nu", C.call(A, "nu_to_E", nu, ecc).ret, ecc).ret, half(g["t"]), C.site(A, "E_to_nu"))
    C.check("anomaly", "nu_to_E(E_to_nu)", s, C.call(A, "nu_to_E", C.call(A, "E_to_nu", nu, ecc).ret, ecc).ret, half(g["t"]), C.site(A, "nu_to_E"))
    C.check("anomaly", "nu_to_B", s, C.call(A, "nu_to_B", nu).ret, g["t"], C.site(A, "nu_to_B"))
    C.check("anomaly", "B_to_nu(nu_to_B)", s, C.call(A, "B_to_nu", C.call(A, "nu_to_B", nu).ret).ret, half(g["t"]), C.site(A, "B_to_nu"))
    b = C.inp("ecc")
    sb = elliptic({"b": (-3, 3)}, {"ecc": lambda s: s.g["b"]})
    C.check("anomaly", "B_to_nu", sb, C.call(A, "B_to_nu", b).ret, half(sb.g["b"]), C.site(A, "B_to_nu"))
    C.check("anomaly", "nu_to_H", sh, C.call(A, "nu_to_H", nu, ecc).ret, hang(sh, gh["h"]), C.site(A, "nu_to_H"))
    H = C.inp("H")
    sH = hyperbolic(None, {"H": lambda s: hang(s, s.g["h"])})
    C.check("anomaly", "H_to_nu", sH, C.call(A, "H_to_nu", H, ecc).ret, half(sH.g["h"] / sH.g["q"]), C.site(A, "H_to_nu"))
    C.check("anomaly", "H_to_nu(nu_to_H)", sh, C.call(A, "H_to_nu", C.call(A, "nu_to_H", nu, ecc).ret, ecc).ret, half(gh["h"] / gh["q"]), C.site(A, "H_to_nu"))
    C.check("anomaly", "nu_to_H(H_to_nu)", sH, C.call(A, "nu_to_H", C.call(A, "H_to_nu", H, ecc).ret, ecc).ret, hang(sH, sH.g["h"]), C.site(A, "nu_to_H"))
    return C.out


def u_kepler(C):
    from ..trig import Lin
    s, sh = elliptic(), hyperbolic()
    nu = C.inp("nu")
    g, gh = s.g, sh.g
    site = C.site(K, "kepler_from_nu")

    def ell(q, t):
        def w(G):
            e = (1 - q * q) / (1 + q * q)
            return G.plus(half(q * t), e * 2 * q * t / (1 + q * q * t * t), -1)
        return w

    def hyp(q, h):
        def w(G):
            return G.plus((1 + q * q) / (1 - q * q) * 2 * h / (1 - h * h), hang(sh, h), -1)
        return w
    for cons, rng, sc, want in (("0 <= ecc < 1", Rng(0, False, 1, True), s, ell(g["q"], g["t"])), ("ecc > 1", Rng(1, True), sh, hyp(gh["q"], gh["h"]))):
        r = C.call(K, "kepler_from_nu", nu, C.inp("ecc" + cons, rng))
        sc.inputs["ecc" + cons] = sc.inputs["ecc"]
        C.check("kepler", cons, sc, r.ret, want, site)
        C.add("bad" if r.raises else "ok", "kepler", cons + " served", "refused" if r.raises else "never refused", site)
    for cons, e, want in (("ecc = 0", 0, half(g["t"])), ("ecc = 1", 1, g["t"] + g["t"] ** 3 / 3)):
        r = C.call(K, "kepler_from_nu", nu, e)
        C.check("kepler", cons, s, r.ret, want, site)
        C.add("bad" if r.raises else "ok", "kepler", cons + " served", "refused" if r.raises else "never refused", site)
    r = C.call(K, "kepler_from_nu", nu, C.inp("eccneg", Rng(hi=0, his=True)))
    ok = not r.returned and r.raises and all(x.exc == "ValueError" for x in r.raises)
    C.add("ok" if ok else "bad", "kepler", "ecc < 0", "refused with ValueError" if ok else "a negative eccentricity is not refused", site)
    x = C.inp("nu")
    C.check("kepler", "kepler_elliptic", s, C.call(K, "kepler_elliptic", x, C.inp("ecc", NONNEG)).ret,
            lambda G: G.plus(half(g["t"]), s.inputs["ecc"] * 2 * g["t"] / (1 + g["t"] ** 2), -1), C.site(K, "kepler_elliptic"))
    sb = elliptic({"b": (-3, 3)}, {"B": lambda s: s.g["b"]})
    C.check("kepler", "kepler_parabolic", sb, C.call(K, "kepler_parabolic", C.inp("B")).ret, sb.g["b"] + sb.g["b"] ** 3 / 3, C.site(K, "kepler_parabolic"))
    sH = hyperbolic(None, {"H": lambda s: hang(s, s.g["h"])})
    C.check("kepler", "kepler_hyperbolic", sH, C.call(K, "kepler_hyperbolic", C.inp("H"), C.inp("ecc", NONNEG)).ret,
            lambda G: G.plus(sH.inputs["ecc"] * 2 * sH.g["h"] / (1 - sH.g["h"] ** 2), hang(sH, sH.g["h"]), -1), C.site(K, "kepler_hyperbolic"))
    return C.out


def entries(v, rows, cols):
    """Scalars of a matrix term; None where the shape is another."""
    if not isinstance(v, T) or v.op != "array" or len(v.args) < rows or any(a.op != "array" or len(a.args) != cols for a in v.args):
        return [[None] * cols for _ in range(rows)]
    return [list(a.args) for a in v.args]


def cs(t):
    return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)


def u_rotation(C):
    s = elliptic()
    c, w = cs(s.g["t"])
    o, z = s.K.one, s.K.zero
    want = {0: [[o, z, z], [z, c, -w], [z, w, c]], 1: [[c, z, w], [z, o, z], [-w, z, c]], 2: [[c, -w, z], [w, c, z], [z, z, o]]}
    site = C.site(E, "rotation_matrix")
    for ax in (0, 1, 2):
        m = entries(C.call(E, "rotation_matrix", C.inp("nu"), ax).ret, 3, 3)
        for i in range(3):
            for j in range(3):
                C.check("rotation", "axis %d entry %d%d" % (ax, i, j), s, m[i][j], want[ax][i][j], site)
    r = C.call(E, "rotation_matrix", C.inp("nu"), 3)
    ok = not r.returned and all(x.exc == "ValueError" for x in r.raises)
    C.add("ok" if ok else "bad", "rotation", "axis 3", "refused" if ok else "an invalid axis is not refused with ValueError", site)
    return C.out


ORB = {"ka": (0.3, 2), "sp": (0.3, 2), "ti": (0.1, 3), "tO": (-3, 3), "tw": (-3, 3)}


def orbit_inputs(zero=()):
    d = {"k": lambda s: s.g["ka"] ** 2, "p": lambda s: s.g["sp"] ** 2}
    for n, g in (("inc", "ti"), ("raan", "tO"), ("argp", "tw")):
        d[n] = (lambda s: s.K.zero) if n in zero else (lambda s, g=g: s.angle(g))
    return d


def conics():
    """name -> (scene builder, e, tangent of nu / 2)"""
    def fix(e):
        return lambda extra, more: elliptic(extra, dict(more, ecc=lambda s: s.K(e)))
    return {"elliptic": elliptic, "hyperbolic": hyperbolic, "parabolic": fix(1), "circular": fix(0)}


def tnu(s):
    return s.g["t"] if "t" in s.g else s.g["h"] / s.g["q"]


def frame(s, zero=(), flip=False):
    """P, Q, W of the perifocal frame."""
    def of(n, g):
        return (s.K.one, s.K.zero) if n in zero else cs(s.g[g])
    (ci, si), (cO, sO), (cw, sw) = of("inc", "ti"), of("raan", "tO"), of("argp", "tw")
    if flip:
        ci, si = -s.K.one, s.K.zero
    P = [cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si]
    Q = [-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si]
    return P, Q


def state(s, zero=(), flip=False):
    P, Q = frame(s, zero, flip)
    c, w = cs(tnu(s))
    e = s.inputs["ecc"]
    rho, vv = s.g["sp"] ** 2 / (1 + e * c), s.g["ka"] / s.g["sp"]
    return [rho * (c * a + w * b) for a, b in zip(P, Q)], [vv * (-w * a + (e + c) * b) for a, b in zip(P, Q)]


def u_state(C):
    ins = [C.inp("k", POS), C.inp("p", POS), C.inp("ecc", NONNEG), C.inp("inc"), C.inp("raan"), C.inp("argp"), C.inp("nu")]
    for name, mk in conics().items():
        s = mk(dict(ORB), orbit_inputs())
        m = entries(C.call(E, "coe2rv", *ins).ret, 2, 3)
        for i, (lab, w) in enumerate(zip("rv", state(s))):
            for j in range(3):
                C.check("state", "coe2rv %s %s%d" % (name, lab, j), s, m[i][j], w[j], C.site(E, "coe2rv"))
        z = ("inc", "raan", "argp")
        s = mk(dict(ORB), orbit_inputs(z))
        m = entries(C.call(E, "rv_pqw", ins[0], ins[1], ins[2], ins[6]).ret, 2, 3)
        for i, (lab, w) in enumerate(zip("rv", state(s, z))):
            for j in range(3):
                C.check("state", "rv_pqw %s %s%d" % (name, lab, j), s, m[i][j], w[j], C.site(E, "rv_pqw"))
    return C.out


PI = 3.141592653589793
RANGES = (("inc", 2, 0, PI), ("raan", 3, 0, 2 * PI), ("argp", 4, 0, 2 * PI), ("nu", 5, -PI, PI))


def u_elements(C):
    U = C.U
    labels = ("p", "ecc", "inc", "raan", "argp", "nu")
    site = C.site(E, "rv2coe")
    cases = [("elliptic", (), False), ("hyperbolic", (), False), ("elliptic", ("inc", "raan"), False), ("hyperbolic", ("inc", "raan"), False),
             ("parabolic", ("inc", "raan"), False), ("circular", ("argp",), False), ("circular", ("inc", "raan", "argp"), False),
             ("elliptic", ("inc", "raan"), True), ("hyperbolic", ("inc", "raan"), True), ("circular", ("inc", "raan", "argp"), True)]
    names = [[C.inp("%s%d" % (a, j)) for j in range(3)] for a in "rv"]
    vecs = [U.mk("array", tuple(x), val="vec", kind="vec") for x in names]
    res = C.call(E, "rv2coe", C.inp("k", POS), *vecs)
    els = [x for x in flat_values(res.ret)] if res.returned else []
    if len(els) != 6:
        C.add("bad", "elements", "rv2coe", "does not return six elements", site)
        return C.out
    for conic, zero, flip in cases:
        s = conics()[conic](dict(ORB), orbit_inputs(zero))
        lab = conic + (" equatorial" if "inc" in zero else "") + (" retrograde" if flip else "")
        r, v = state(s, zero, flip)
        for a, w in zip(names, (r, v)):
            for x, y in zip(a, w):
                s.inputs[x.val] = y
        want = [s.inputs["p"], s.inputs["ecc"], s.inputs["inc"], s.inputs["raan"], s.inputs["argp"], s.inputs["nu"]]
        if flip:
            from ..trig import Lin
            want[2] = Lin({}, Fraction(1), s.K.zero)
        for i, (n, g, w) in enumerate(zip(labels, els, want)):
            C.check("elements", "%s %s" % (lab, n), s, g, w, site, turn=i >= 3)
        for n, i, lo, hi in RANGES:
            if C.ranges(s, els[i], lo, hi) >= 3:
                C.add("bad", "range", "%s %s" % (lab, n), "outside [%.2f, %.2f]" % (lo, hi), els[i].site or site)
    for n, i, lo, hi in RANGES:
        g = els[i]
        ok = g.rng.lo >= lo - 0.01 and g.rng.hi <= hi + 0.01
        C.add("ok" if ok else "und", "range", n, "[%.2f, %.2f]" % (g.rng.lo, g.rng.hi), site)
    return C.out


def u_plane(C):
    """r1 at the argument of latitude w, r2 ahead by d (0 < d < pi)."""
    from ..trig import Scene, Lin
    U = C.U
    names = [[C.inp("%s%d" % (a, j)) for j in range(3)] for a in ("ra", "rb")]
    vecs = [U.mk("array", tuple(x), val="vec", kind="vec") for x in names]
    for lab, rng, flat in (("inc < 90", (0.05, 0.95), None), ("inc > 90", (1.05, 3), None), ("inc = 0", (0.1, 3), 0), ("inc = 180", (0.1, 3), 180)):
        g = {"a": (0.3, 3), "b": (0.3, 3), "td": (0.1, 3), "ti": rng, "tO": (0.1, 3), "tw": (0.1, 3)}
        s = Scene(g, {}, (lambda s: s.g["ti"] - 1 if rng[0] > 1 else 1 - s.g["ti"],))
        zero = ("inc", "raan") if flat is not None else ()
        P, Q = frame(s, zero, flat == 180)
        cd, sd = cs(s.g["td"])
        for x, y, z in zip(names[0], names[1], zip(P, Q)):
            s.inputs[x.val] = s.g["a"] * z[0]
            s.inputs[y.val] = s.g["b"] * (cd * z[0] + sd * z[1])
        W = [P[1] * Q[2] - P[2] * Q[1], P[2] * Q[0] - P[0] * Q[2], P[0] * Q[1] - P[1] * Q[0]]
        up = lab in ("inc < 90", "inc = 0")
        for pro in (True, False):
            sign = 1 if pro == up else -1
            cons = "%s %s " % (lab, "prograde" if pro else "retrograde")
            n = C.call(A, "get_orbit_normal_vector", *vecs, pro).ret
            vector(C, s, cons + "normal", n, [w * sign for w in W], C.site(A, "get_orbit_normal_vector"))
            one = Fraction(1)
            d = Lin({("c", s.g["td"]): one}, Fraction(0), s.K.zero) if sign > 0 else Lin({("c", s.g["td"]): -one}, Fraction(2), s.K.zero)
            C.check("plane", cons + "transfer angle", s, C.call(A, "get_transfer_angle", *vecs, pro).ret, d, C.site(A, "get_transfer_angle"))
            el = list(flat_values(C.call(A, "get_orbit_inc_and_raan_from_position_vectors", *vecs, pro).ret))
            if flat is None:
                i = Lin({("c", s.g["ti"]): one}, Fraction(0), s.K.zero) if sign > 0 else Lin({("c", s.g["ti"]): -one}, one, s.K.zero)
                o = Lin({("c", s.g["tO"]): one}, Fraction(0) if sign > 0 else one, s.K.zero)
            else:
                i, o = (s.K.zero if pro else Lin({}, one, s.K.zero)), s.K.zero
            site = C.site(A, "get_orbit_inc_and_raan_from_position_vectors")
            C.check("plane", cons + "inclination", s, el[0], i, site)
            C.check("plane", cons + "node", s, el[1], o, site, turn=True)
    from ..coll import Coll
    r = C.call(A, "get_transfer_angle", U.input("r1", "vec", None, True), U.input("r2", "vec", None, True), True).ret
    for same, w in ((True, 0), (False, PI)):
        v = Coll(U, same).ev(r)
        st = "und" if v is None else "ok" if v == w else "bad"
        C.add(st, "plane", "transfer angle of %s positions" % ("aligned" if same else "opposite"), "%s" % v, C.site(A, "get_transfer_angle"))
    return C.out


def vector(C, s, cons, v, want, site):
    U = C.U
    for j, w in enumerate(want):
        C.check("plane", "%s %d" % (cons, j), s, U.mk("comp", (v, U.const(j)), kind="real"), w, site)
