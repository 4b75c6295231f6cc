"""C14, C15: coordinate frames."""
from .lib import *

A = Fraction(6378137.0)
E2 = Fraction(6.6943799901377997e-3)
F1 = [1 - E2, Fraction(1 - 6.6943799901377997e-3)]      # 1 - e^2, exactly and rounded to double
PI = Fraction(3.141592653589793)


class Frames:
    def __init__(self, roots, prf, fn, stub=(), models=()):
        self.w = W("frames", roots, stub=stub, models=models)
        self.ex, self.st = self.w.ex()
        self.prf, self.fn = prf, fn

    def vin(self, name, n):
        return self.ex.new_obj(self.st, name, 8 * n, lazy=True, readonly=True,
                               init=lambda off, ty: T.sym("%s%d" % (name, off // 8), "R"))

    def vv(self, name, vals):
        o = self.ex.new_obj(self.st, name, 8 * len(vals))
        for i, v in enumerate(vals):
            self.ex.store(Ptr(o, 8 * i), DBL, v, self.st)
        return o

    def run(self, f, args, n):
        """f(args..., &result) -> n doubles"""
        st = self.st.fork()
        out = self.ex.new_obj(st, "out", 8 * n)
        _, st = self.ex.call(f, [Ptr(a, 0) for a in args] + [Ptr(out, 0)], st)
        return vec(self.ex, st, Ptr(out, 0), n)

    def eq(self, name, a, b):
        for i, (x, y) in enumerate(zip(a, b)):
            self.prf.prove(self.fn, "%s (%d)" % (name, i), T.eq(x, y), self.ex.facts)

    def done(self, *fs):
        self.prf.take(self.ex, self.fn)
        for f in fs:
            self.prf.function("cf::" + f)


def syms(name, n):
    return [T.sym("%s%d" % (name, i), "R") for i in range(n)]


def trig(deg):
    a = T.scale(PI / 180, deg)
    return T.fn("sin", a), T.fn("cos", a)


def axes(o):
    """unit vectors north, east, down at latitude o0, longitude o1"""
    sp, cp = trig(o[0])
    sl, cl = trig(o[1])
    n = T.neg
    return [[n(T.mul(sp, cl)), n(T.mul(sp, sl)), cp], [n(sl), cl, Fraction(0)], [n(T.mul(cp, cl)), n(T.mul(cp, sl)), n(sp)]]


def dot(a, b):
    return T.sumt([T.mul(x, y) for x, y in zip(a, b)])


def sub(a, b):
    return [T.sub(x, y) for x, y in zip(a, b)]


def col(v):
    return [[x] for x in v]


def mv(M, v):
    return [r[0] for r in mmul(M, col(v))]


def rowmajor(v, r, c):
    """column-major list -> rows"""
    return [[v[i + r * j] for j in range(c)] for i in range(r)]


def rotation(prf):
    """nedrot, nerot: rows are the north, east and down unit vectors, orthonormal, right-handed; down is against the normal"""
    F = Frames(["d_nedrot", "d_nerot", "d_lla2ecef"], prf, "cf::nedrot")
    o3, o2 = F.vin("o", 3), F.vin("o", 2)
    o = syms("o", 3)
    R = rowmajor(F.run("d_nedrot", [o3], 9), 3, 3)
    X = axes(o)
    for i, nm in enumerate(("north", "east", "down")):
        F.eq("row %d is the %s axis" % (i, nm), R[i], X[i])
    for i in range(3):
        for j in range(3):
            prf.prove(F.fn, "R R' = 1 (%d,%d)" % (i, j), T.eq(dot(R[i], R[j]), Fraction(int(i == j))), F.ex.facts)
            prf.prove(F.fn, "R' R = 1 (%d,%d)" % (i, j), T.eq(dot(tr(R)[i], tr(R)[j]), Fraction(int(i == j))), F.ex.facts)
    cr = [T.sub(T.mul(R[0][1], R[1][2]), T.mul(R[0][2], R[1][1])), T.sub(T.mul(R[0][2], R[1][0]), T.mul(R[0][0], R[1][2])),
          T.sub(T.mul(R[0][0], R[1][1]), T.mul(R[0][1], R[1][0]))]
    F.eq("north x east = down", cr, R[2])
    # down is opposite to the gradient of x^2/a^2 + y^2/a^2 + z^2/b^2 at the surface point below, and east is along the parallel
    s = F.run("d_lla2ecef", [F.vv("s", [o[0], o[1], Fraction(0)])], 3)
    gs = [[s[0], s[1], T.scale(1 / f, s[2])] for f in F1]
    for i in range(3):
        prf.prove_any(F.fn, "surface gradient is along minus the down axis (%d)" % i, [T.eq(g[i], T.mul(dot(g, R[2]), R[2][i])) for g in gs], F.ex.facts)
    prf.prove(F.fn, "east is horizontal: no polar component, perpendicular to the axis of the earth", T.and_(
        T.eq(R[1][2], Fraction(0)), T.eq(T.add(T.mul(s[0], R[1][0]), T.mul(s[1], R[1][1])), Fraction(0))), F.ex.facts)
    F.fn = "cf::nerot"
    N = rowmajor(F.run("d_nerot", [o2], 6), 2, 3)
    F.eq("north row", N[0], R[0])
    F.eq("east row", N[1], R[1])
    F.done("nedrot", "nerot", "sind", "cosd")


def inverse(prf):
    """ecef2ned and ned2ecef are inverse to each other, isometric, and map the origin to zero"""
    F = Frames(["d_ecef2ned", "d_ned2ecef", "d_lla2ecef"], prf, "cf::ecef2ned")
    o3, e3, f3 = F.vin("o", 3), F.vin("e", 3), F.vin("f", 3)
    o, e, f = syms("o", 3), syms("e", 3), syms("f", 3)
    X = axes(o)
    e0 = F.run("d_lla2ecef", [o3], 3)
    n = F.run("d_ecef2ned", [e3, o3], 3)
    F.eq("components along north, east, down", n, mv(X, sub(e, e0)))
    F.eq("origin maps to zero", F.run("d_ecef2ned", [F.vv("e0", e0), o3], 3), [Fraction(0)] * 3)
    F.eq("ned2ecef(ecef2ned(e)) = e", F.run("d_ned2ecef", [F.vv("n", n), o3], 3), e)
    g = F.run("d_ecef2ned", [f3, o3], 3)
    prf.prove(F.fn, "distance between two points preserved (squared)", T.eq(dot(sub(n, g), sub(n, g)), dot(sub(e, f), sub(e, f))), F.ex.facts)
    F.fn = "cf::ned2ecef"
    c = F.run("d_ned2ecef", [e3, o3], 3)
    F.eq("ecef2ned(ned2ecef(e)) = e", F.run("d_ecef2ned", [F.vv("c", c), o3], 3), e)
    d = F.run("d_ned2ecef", [f3, o3], 3)
    prf.prove(F.fn, "distance between two points preserved (squared)", T.eq(dot(sub(c, d), sub(c, d)), dot(sub(e, f), sub(e, f))), F.ex.facts)
    F.eq("zero maps to the origin", F.run("d_ned2ecef", [F.vv("z", [Fraction(0)] * 3), o3], 3), e0)
    F.done("ecef2ned", "ned2ecef")


def forward(prf):
    """lla2ecef: the WGS-84 ellipsoid at zero altitude, altitude along its normal, longitude about the axis"""
    F = Frames(["d_lla2ecef"], prf, "cf::lla2ecef")
    l = syms("l", 3)
    p = F.run("d_lla2ecef", [F.vin("l", 3)], 3)
    s = F.run("d_lla2ecef", [F.vv("s", [l[0], l[1], Fraction(0)])], 3)
    sp, cp = trig(l[0])
    q = T.sub(Fraction(1), T.scale(E2, T.mul(sp, sp)))
    lhs = T.add(T.scale(1 / (A * A), T.add(T.mul(s[0], s[0]), T.mul(s[1], s[1]))), T.scale(1 / (A * A * F1[0]), T.mul(s[2], s[2])))
    # exactly, or up to the rounding of the double constant 1 - e^2 (relative 1e-15)
    cs = [f * f / F1[0] - F1[0] for f in F1]
    assert all(abs(c) < Fraction(1, 10 ** 15) for c in cs)
    prf.prove_any(F.fn, "zero altitude is on the ellipsoid x^2/a^2 + y^2/a^2 + z^2/b^2 = 1",
                  [T.eq(T.mul(T.sub(lhs, Fraction(1)), q), T.scale(c, T.mul(sp, sp))) for c in cs], F.ex.facts)
    up = [T.neg(x) for x in axes(l)[2]]
    F.eq("altitude moves along the outward unit normal", sub(p, s), [T.mul(l[2], u) for u in up])
    # the surface point lies on the side of the normal: gradient = (n/a^2) * normal with n > 0
    n = T.div(A, T.fn("sqrt", q))
    for i in range(3):
        prf.prove_any(F.fn, "surface gradient is the prime-vertical radius times the normal (%d)" % i,
                      [T.eq(s[i] if i < 2 else T.scale(1 / f, s[2]), T.mul(n, up[i])) for f in F1], F.ex.facts)
    F.done("lla2ecef")


def planar(prf):
    """two-dimensional variants = three-dimensional ones at zero altitude"""
    fns = ["d_ll2ecef", "d_lla2ecef", "d_ecef2ne", "d_ecef2ned", "d_ll2ne", "d_lla2ned", "d_ll2ne_i"]
    F = Frames(fns, prf, "cf::ll2ecef")
    o, l, e = syms("o", 2), syms("l", 2), syms("e", 3)
    o2, l2, e3 = F.vin("o", 2), F.vin("l", 2), F.vin("e", 3)
    oz, lz = F.vv("oz", o + [Fraction(0)]), F.vv("lz", l + [Fraction(0)])
    F.eq("= lla2ecef at zero altitude", F.run("d_ll2ecef", [l2], 3), F.run("d_lla2ecef", [lz], 3))
    F.fn = "cf::ecef2ne"
    F.eq("= north, east of ecef2ned", F.run("d_ecef2ne", [e3, o2], 2), F.run("d_ecef2ned", [e3, oz], 3)[:2])
    F.fn = "cf::lla2ned"
    t = F.run("d_lla2ned", [lz, oz], 3)
    q = F.run("d_ecef2ned", [F.vv("q", F.run("d_lla2ecef", [lz], 3)), oz], 3)
    F.eq("= ecef2ned(lla2ecef)", t, q)
    F.fn = "cf::ll2ne"
    r = F.run("d_ll2ne", [l2, o2], 2)
    F.eq("= north, east of lla2ned", r, t[:2])
    F.fn = "cf::ll2ne_i"
    st = F.st.fork()
    x = F.ex.new_obj(st, "x", 32)
    for i, v in enumerate(l + syms("v", 2)):
        F.ex.store(Ptr(x, 8 * i), DBL, v, st)
    _, st = F.ex.call("d_ll2ne_i", [Ptr(x, 0), Ptr(o2, 0)], st)
    F.eq("position converted, rest kept", vec(F.ex, st, Ptr(x, 0), 4), r + syms("v", 2))
    F.fn = "cf::lla2ned"
    l3, o3 = F.vin("l", 3), F.vin("o", 3)
    F.eq("at any altitude = ecef2ned(lla2ecef)", F.run("d_lla2ned", [l3, o3], 3),
         F.run("d_ecef2ned", [F.vv("q3", F.run("d_lla2ecef", [l3], 3)), o3], 3))
    F.done("ll2ecef", "ecef2ne", "lla2ned", "ll2ne", "ll2ne_i")


def inverse_chain(prf):
    """ne2ecef, ne2ll, ned2lla in terms of ecef2ll / ecef2lla"""
    F = Frames(["d_ne2ecef", "d_ne2ll", "d_ned2lla", "d_ll2ecef", "d_ned2ecef", "d_ne2ll_i", "d_ecef2lla", "d_ecef2ll"], prf, "cf::ned2lla")
    o2, o3, n2, n3 = F.vin("o", 2), F.vin("o", 3), F.vin("n", 2), F.vin("n", 3)
    o, n = syms("o", 3), syms("n", 3)

    def geo(e, k):
        return F.run("d_ecef2lla" if k == 3 else "d_ecef2ll", [F.vv("geo", e)], k)
    F.eq("= ecef2lla(ned2ecef)", F.run("d_ned2lla", [n3, o3], 3), geo(F.run("d_ned2ecef", [n3, o3], 3), 3))
    F.fn = "cf::ne2ecef"
    oz, nz = F.vv("oz", o[:2] + [Fraction(0)]), F.vv("nz", n[:2] + [Fraction(0)])
    g = geo(F.run("d_ned2ecef", [nz, oz], 3), 2)
    e = F.run("d_ne2ecef", [n2, o2], 3)
    F.eq("= surface point below ned2ecef at zero altitude", e, F.run("d_ll2ecef", [F.vv("g", g)], 3))
    F.fn = "cf::ne2ll"
    ll = F.run("d_ne2ll", [n2, o2], 2)
    F.eq("= ecef2ll(ne2ecef)", ll, geo(e, 2))
    F.fn = "cf::ne2ll_i"
    st = F.st.fork()
    x = F.ex.new_obj(st, "x", 32)
    for i, v in enumerate(n[:2] + syms("v", 2)):
        F.ex.store(Ptr(x, 8 * i), DBL, v, st)
    _, st = F.ex.call("d_ne2ll_i", [Ptr(x, 0), Ptr(o2, 0)], st)
    F.eq("position converted, rest kept", vec(F.ex, st, Ptr(x, 0), 4), ll + syms("v", 2))
    F.done("ne2ecef", "ned2lla", "ne2ll", "ne2ll_i")


W2, Z = T.sym("W2", "R"), T.sym("z", "R")


def geodetic(prf):
    """ecef2lla / ecef2ll: agreement, symmetries, exact longitude"""
    F = Frames(["d_ecef2lla", "d_ecef2ll"], prf, "cf::ecef2lla")
    e = syms("e", 3)
    a = F.run("d_ecef2lla", [F.vin("e", 3)], 3)
    F.fn = "cf::ecef2ll"
    F.eq("= latitude, longitude of ecef2lla", F.run("d_ecef2ll", [F.vin("e", 3)], 2), a[:2])
    F.fn = "cf::ecef2lla"
    prf.trusted["atan2(r sin t, r cos t) = t for r > 0, -pi < t <= pi"] = 1
    prf.prove(F.fn, "longitude = atan2(y, x) in degrees", T.eq(a[1], T.scale(180 / PI, T.fn("atan2", e[1], e[0]))), F.ex.facts)
    lat, alt = meridian(prf, F, a)
    # mirror: z -> -z
    for nm, t, k in (("latitude changes sign", lat, -1), ("altitude stays", alt, 1)):
        north = under(T.subst(t, {Z: T.sym("zn", "R")}), T.sym("zn", "R"), 1)
        south = under(T.subst(t, {Z: T.neg(T.sym("zn", "R"))}), T.sym("zn", "R"), 1)
        prf.prove(F.fn, "north-south mirror: " + nm, T.eq(south, T.scale(k, north)))
    F.done("ecef2lla", "ecef2ll")


def meridian(prf, F, a):
    """latitude and altitude depend on x, y through x^2 + y^2 only -> terms in W2, z"""
    e = syms("e", 3)
    m = {T.mul(e[0], e[0]): T.sub(W2, T.mul(e[1], e[1])), e[2]: Z}
    lat, alt = T.subst(a[0], m), T.subst(a[2], m)
    left = {x for x in T.symbols(lat, alt)} - {W2, Z}
    prf.prove(F.fn, "latitude and altitude depend on x^2 + y^2 and z only", not left)
    return lat, alt


def under(t, v, sign):
    """t with the comparisons of v against 0 decided for v > 0 (sign 1)"""
    m = {}
    for x in T.subterms([t]):
        if x.op in ("le", "lt"):
            a, b = x.args
            d = T.sub(b, a)
            if isinstance(d, Term) and d is v or (isinstance(d, Term) and d.op == "*c" and d.args[1] is v):
                m[x] = (1 if d is v else d.args[0]) * sign > 0
    return T.subst(t, m)


LAT_TOL = 3e-12       # radians: 0.02 mm on the ground
ALT_TOL = 1e-5        # metres


def accuracy(prf):
    """|latitude - phi| and |altitude - h| of ecef2lla(lla2ecef(phi, ., h)) over all latitudes and altitudes in [-10 km, 20 km]:
    Taylor models of the two functions' own expressions over latitude boxes"""
    import math
    import time
    import numpy as np
    from vc import tm, smt as S
    from vc.proof import Result
    F = Frames(["d_ecef2lla", "d_lla2ecef"], prf, "cf::ecef2lla")
    lat, alt = meridian(prf, F, F.run("d_ecef2lla", [F.vin("e", 3)], 3))
    lat, alt = under(lat, Z, 1), under(alt, Z, 1)
    l = syms("l", 3)
    g = F.run("d_lla2ecef", [F.vin("l", 3)], 3)
    p = F.run("d_lla2ecef", [F.vv("lz", [l[0], Fraction(0), l[2]])], 3)      # the meridian of longitude zero
    prf.prove(F.fn, "distance from the axis does not depend on longitude", T.eq(T.add(T.mul(g[0], g[0]), T.mul(g[1], g[1])), T.mul(p[0], p[0])))
    prf.prove(F.fn, "meridian of longitude zero", T.and_(T.eq(p[1], Fraction(0)), T.eq(p[2], g[2])))
    sl, cl = trig(l[1])
    prf.prove(F.fn, "x, y = distance from the axis times cos, sin of the longitude", T.and_(T.eq(g[0], T.mul(p[0], cl)), T.eq(g[1], T.mul(p[0], sl))))
    prf.take(F.ex, F.fn)
    phi, h = T.sym("phi", "R"), T.sym("h", "R")
    m = {T.scale(PI / 180, l[0]): phi, l[2]: h}
    rho, z = T.subst(p[0], m), T.subst(p[2], m)
    # factors of cos(phi) and sin(phi): positive, so rho >= 0 and z >= 0 on [0, pi/2]
    sp, cp = T.fn("sin", phi), T.fn("cos", phi)
    N, width = 48, math.pi / 2 / 48
    worst = [0.0, 0.0]
    for k in range(N):
        t0 = time.time()
        c = np.zeros((tm.NI, tm.NJ))
        c[0, 0], c[1, 0] = (k + .5) * width, width / 2 * (1 + 1e-9)
        P = tm.TM(c, 1e-15)
        c = np.zeros((tm.NI, tm.NJ))
        c[0, 0], c[0, 1] = 5e3, 1.5e4
        Hh = tm.TM(c)
        ev = tm.Eval({phi: P, h: Hh}, P)
        ok, why = True, ""
        try:
            # the radii: (n + h) and (n (1 - e^2) + h), evaluated as the coefficient of cos / sin
            for q, f in ((rho, cp), (z, sp)):
                co = cofactor(q, f)
                if co is None or ev(co).range()[0] <= 0:
                    raise tm.Fail("sign of the coordinates")
            tr_, tz = ev(rho), ev(z)
            todo, errs = [{}], []
            while todo:
                force = todo.pop()
                e2 = tm.Eval({W2: tr_ * tr_, T.fn("sqrt", W2): tr_, Z: tz}, P, force)
                try:
                    la, al = e2(T.scale(PI / 180, lat)), e2(alt)
                except tm.Split as sp_:
                    todo += [{**force, sp_.c: True}, {**force, sp_.c: False}]
                    if len(todo) > 8:
                        raise tm.Fail("too many branches")
                    continue
                errs.append(((la - P).norm(), (al - Hh).norm()))
            e = [max(x) for x in zip(*errs)]
            worst = [max(x) for x in zip(worst, e)]
            ok = e[0] <= LAT_TOL and e[1] <= ALT_TOL
            why = "" if ok else "error bounds %g rad, %g m" % tuple(e)
        except tm.Fail as x:
            ok, why = False, str(x)
        dt = time.time() - t0
        S.stat("taylor", dt)
        prf.results.append(Result("%s: latitude within %g rad and altitude within %g m for |latitude| in [%.3f, %.3f] deg" % (
            F.fn, LAT_TOL, ALT_TOL, math.degrees(k * width), math.degrees((k + 1) * width)), "proved" if ok else "unknown", "taylor", dt, why, F.fn))
    prf.notes.append("largest proved bounds: latitude %.3g rad, altitude %.3g m" % tuple(worst))
    prf.function("cf::ecef2lla")
    prf.function("cf::lla2ecef")


def cofactor(q, f):
    """q = co * f for a product term"""
    if isinstance(q, Term) and q.op == "*c":
        r = cofactor(q.args[1], f)
        return None if r is None else T.scale(q.args[0], r)
    if isinstance(q, Term) and q.op == "*" and f in q.args:
        a = list(q.args)
        a.remove(f)
        r = a[0] if a else Fraction(1)
        for x in a[1:]:
            r = T.mul(r, x)
        return r
    if isinstance(q, Term) and q.op == "+" and q.args[0] == 0:
        rs = [(cofactor(x, f), k) for x, k in q.args[1]]
        if all(r is not None for r, _ in rs):
            return T.sumt([T.scale(k, r) for r, k in rs])
    return None
