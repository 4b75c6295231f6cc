"""C16, C17: boxes."""
from .lib import *

HALFPI = Fraction(1.5707963267948966)


def decided(ex, t, pc=()):
    """t with the conditions of its conditionals that the facts decide replaced by their value"""
    for _ in range(6):
        m = {}
        for x in T.subterms([t] if isinstance(t, Term) else []):
            if x.op == "ite" and isinstance(x.args[0], Term) and x.args[0] not in m:
                c = x.args[0]
                st = State(tuple(pc))
                if ex.implied(c, st, 1500):
                    m[c] = True
                elif ex.implied(T.not_(c), st, 1500):
                    m[c] = False
        if not m:
            return t
        t = T.subst(t, m)
    return t


def polar(t):
    """cos / sin of atan2(y, x) + k pi/2 for a unit vector (x, y)"""
    m = {}
    for x in T.subterms([t] if isinstance(t, Term) else []):
        if x.op in ("fn:cos", "fn:sin") and isinstance(x.args[0], Term):
            c, d = T._lin(x.args[0])
            if len(d) != 1:
                continue
            (a, k), = d.items()
            if a.op != "fn:atan2" or abs(k) != 1:
                continue
            q = round(c / HALFPI)
            if abs(c - q * HALFPI) > Fraction(1, 10 ** 15):
                continue
            y, xx = a.args
            if k < 0:
                y = T.neg(y)
            cs = [xx, y, T.neg(xx), T.neg(y)]          # cos(a), cos(a - pi/2) = sin a, ...
            i = (-q) % 4 if x.op == "fn:cos" else (1 - q) % 4
            m[x] = cs[i]
    return T.subst(t, m) if m else t


class Eigen2:
    """contract of Eigen::SelfAdjointEigenSolver on a 2x2 symmetric positive semidefinite matrix:
    ascending eigenvalues, orthonormal eigenvectors, P = E diag(l) E'"""

    def __init__(self, sigma, tag=""):
        t = T.sym("angle" + tag, "R")
        c, s = T.fn("cos", t), T.fn("sin", t)
        self.e = [[c, s], [T.scale(-sigma, s), T.scale(sigma, c)]]
        self.l = [T.sym("l0" + tag, "R"), T.sym("l1" + tag, "R")]
        self.P = [[T.sumt([T.mul(self.l[k], T.mul(self.e[k][i], self.e[k][j])) for k in range(2)]) for j in range(2)] for i in range(2)]
        self.used = 0

    def facts(self, ex):
        ex.fact(T.le(Fraction(0), self.l[0]))
        ex.fact(T.le(self.l[0], self.l[1]))

    def model(self):
        def h(c):
            ex, st = c.ex, c.st
            P = loadm(ex, st, c.args[1], 2, 2)
            for i in range(2):
                for j in range(i + 1):
                    ex.oblige("eigenvalues of the given covariance", T.eq(P[i][j], self.P[i][j]), st)
            for k in range(2):
                for i in range(2):
                    ex.store(c.args[0].plus(16 * k + 8 * i), DBL, self.e[k][i], st)
                ex.store(c.args[0].plus(32 + 8 * k), DBL, self.l[k], st)
            self.used += 1
            return c.args[0]
        return (r"SelfAdjointEigenSolver<.*::compute(Direct)?[<(]", h, "Eigen::SelfAdjointEigenSolver: ascending eigenvalues, orthonormal eigenvectors, P = E L E'")


STUB = [r"SelfAdjointEigenSolver<.*::compute(Direct)?[<(]"]


def put(ex, st, name, vals):
    o = ex.new_obj(st, name, 8 * len(vals))
    for i, v in enumerate(vals):
        ex.store(Ptr(o, 8 * i), DBL, v, st)
    return o


def box(w, ex, st, o):
    a, b = w.o("a_min"), w.o("a_max")
    return vec(ex, st, Ptr(o, a), 2), vec(ex, st, Ptr(o, b), 2)


def corners(w, ex, st, o):
    return [vec(ex, st, Ptr(o, w.o("b_corners") + 16 * k), 2) for k in range(4)]


def gauss_obj(w, ex, st, x, P):
    def init(off, ty):
        ox, oP = w.o("g_x"), w.o("g_P")
        if ox <= off < ox + 32:
            k = (off - ox) // 8
            return x[k] if k < 2 else T.sym("vel%d" % k, "R")
        if oP <= off < oP + 128:
            k = (off - oP) // 8
            i, j = k % 4, k // 4
            return P[i][j] if i < 2 and j < 2 else T.sym("cov%d%d" % (min(i, j), max(i, j)), "R")
        return T.sym("weight", "R")
    return ex.new_obj(st, "g", w.size("g"), lazy=True, readonly=True, init=init)


def gaussian_boxes(prf):
    roots = ["d_a_gauss", "d_a_cov", "d_b_gauss", "d_b_cov", "d_g_aabbox", "d_g_bbox", "d_g_aabbox2", "d_g_bbox2"]
    for sigma in (1, -1):
        eg = Eigen2(sigma)
        w = W("boxes", roots, stub=STUB, models=[eg.model()])
        ex, st = w.ex()
        eg.facts(ex)
        n = T.sym("nstd", "R")
        ex.fact(T.lt(Fraction(0), n))
        x = [T.sym("x0", "R"), T.sym("x1", "R")]
        z = [Fraction(0), Fraction(0)]
        xo = put(ex, st, "x", x)
        Po = put(ex, st, "P", [eg.P[i][j] for j in range(2) for i in range(2)])
        g = gauss_obj(w, ex, st, x, eg.P)
        P = Ptr
        for nm, f, mk_args, ctr, k in (
                ("AABBox(x, P, nstd)", "d_a_gauss", lambda o: [P(o, 0), P(xo, 0), P(Po, 0), n], x, n),
                ("AABBox(P, nstd)", "d_a_cov", lambda o: [P(o, 0), P(Po, 0), n], z, n),
                ("Gaussian_::aabbox(nstd)", "d_g_aabbox", lambda o: [P(g, 0), n, P(o, 0)], x, n),
                ("Gaussian_::aabbox()", "d_g_aabbox2", lambda o: [P(g, 0), P(o, 0)], x, Fraction(2))):
            s = st.fork()
            o = ex.new_obj(s, "box", w.size("a"))
            _, s = ex.call(f, mk_args(o), s)
            lo, hi = box(w, ex, s, o)
            for i in range(2):
                d = polar(decided(ex, T.sub(hi[i], ctr[i]), s.pc))
                prf.prove(nm, "centred on the mean (%d)" % i, T.eq(polar(T.add(lo[i], hi[i])), T.scale(2, ctr[i])), ex.facts, s.pc)
                prf.prove(nm, "half-width squared = nstd^2 P(%d,%d)" % (i, i), T.eq(T.mul(d, d), T.mul(T.mul(k, k), eg.P[i][i])), ex.facts, s.pc)
                prf.prove(nm, "half-width is not negative (%d)" % i, T.le(Fraction(0), d), ex.facts, s.pc)
        for nm, f, mk_args, ctr, k in (
                ("BBox(x, P, nstd)", "d_b_gauss", lambda o: [P(o, 0), P(xo, 0), P(Po, 0), n], x, n),
                ("BBox(P, nstd)", "d_b_cov", lambda o: [P(o, 0), P(Po, 0), n], z, n),
                ("Gaussian_::bbox(nstd)", "d_g_bbox", lambda o: [P(g, 0), n, P(o, 0)], x, n),
                ("Gaussian_::bbox()", "d_g_bbox2", lambda o: [P(g, 0), P(o, 0)], x, Fraction(2))):
            s = st.fork()
            o = ex.new_obj(s, "box", w.size("b"))
            _, s = ex.call(f, mk_args(o), s)
            C = [[decided(ex, v, s.pc) for v in c] for c in corners(w, ex, s, o)]
            r = [T.mul(k, T.fn("sqrt", v)) for v in eg.l]
            # the four corners, in ring order, from either axis and either orientation
            want = lambda a, b: [T.add(ctr[i], T.add(T.mul(T.mul(r[0], a), eg.e[0][i]), T.mul(T.mul(r[1], b), eg.e[1][i]))) for i in range(2)]
            ring = [(1, 1), (-1, 1), (-1, -1), (1, -1)]
            cands = [[ring[(k0 + q * d) % 4] for q in range(4)] for k0 in range(4) for d in (1, -1)]
            prf.prove_any(nm, "corners are the mean plus / minus nstd standard deviations along the principal axes, in ring order",
                          [conj_eq(ex, s, C, [want(Fraction(a), Fraction(b)) for a, b in cs]) for cs in cands], ex.facts, s.pc)
        if not eg.used:
            prf.notes.append("eigen solver not used")
        prf.take(ex, "Gaussian boxes")
    for f in ("AABBox::from_gaussian", "AABBox::AABBox", "BBox::from_gaussian", "BBox::BBox", "Gaussian_<4>::aabbox", "Gaussian_<4>::bbox", "Gaussian_<4>::pos", "Gaussian_<4>::poscov"):
        prf.function("lmb::" + f)


def conj_eq(ex, s, C, D):
    """one formula: all equal; decided by the ring (a conjunction is only tried when every member is)"""
    gs = [T.eq(a, b) for x, y in zip(C, D) for a, b in zip(x, y)]
    for g in gs:
        if g is True:
            continue
        if g is False or not poly.equal(g.args[0], Fraction(0)):
            return False
    return True


def mixture_boxes(prf):
    """update_local_bbox: oriented box from the mixture's own moments, axis-aligned box = hull of the components' boxes"""
    fn = "GM::update_local_bbox"
    seen = []

    def m_comp(c):
        ex, st = c.ex, c.st
        p = c.args[1]
        i, f = ex.split(p.obj, p.off)
        ex.oblige("a component's box is asked for with the configured nstd", T.eq(c.args[2], T.sym("par.nstd", "R")), st)
        if f != 0:
            raise Unsupported("component pointer")
        w = m_comp.w
        for k in range(2):
            ex.store(c.args[0].plus(w.o("a_min") + 8 * k), DBL, T.app("cmin%d" % k, "R", i), st)
            ex.store(c.args[0].plus(w.o("a_max") + 8 * k), DBL, T.app("cmax%d" % k, "R", i), st)
        return None

    def m_box(c):
        ex, st = c.ex, c.st
        seen.append((vec(ex, st, c.args[1], 2), loadm(ex, st, c.args[2], 2, 2), c.args[3]))
        for k in range(8):
            ex.store(c.args[0].plus(8 * k), DBL, T.sym("corner%d" % k, "R"), st)
        return None
    w = W("boxes", ["d_gm_boxes"], stub=[r"Gaussian_<4>::aabbox\(", r"^(void )?lmb::BBox::from_gaussian<"],
          models=[(r"Gaussian_<4>::aabbox\(", m_comp, None), (r"lmb::BBox::from_gaussian<", m_box, None)])
    m_comp.w = w
    ex, st = w.ex()
    par = new_params(w, ex, st)
    m = Mixture(w, ex, st, params=par)
    xs = lambda i, k: T.app("m.x%d" % k, "R", i)
    # contract of a component's box: it contains the component's mean (proved for every Gaussian: half-widths are not negative)
    i = T.sym("q", "I", 0)
    _, s = ex.call("d_gm_boxes", [m.p], st.fork())
    s = s.fork(T.lt(0, m.n))
    prf.reachable(fn, ex.facts, s.pc)
    o = m.w.o("pdf_aabbox")
    lo, hi = vec(ex, s, m.p.plus(o + w.o("a_min")), 2), vec(ex, s, m.p.plus(o + w.o("a_max")), 2)
    j = T.fresh("j", "I", 0)
    sj = s.fork(T.lt(j, m.n))
    inside = [c for k in range(2) for c in (T.le(T.app("cmin%d" % k, "R", 0), xs(0, k)), T.le(xs(0, k), T.app("cmax%d" % k, "R", 0)))]
    for k in range(2):
        lk, hk = decided(ex, lo[k], s.pc), decided(ex, hi[k], s.pc)
        fl = fold_facts([lk, hk], [j, 0], m.n)
        facts = ex.facts + fl + inside
        prf.reachable(fn, facts, sj.pc)
        prf.prove(fn, "covers every component's box, lower side (%d)" % k, T.le(lk, T.app("cmin%d" % k, "R", j)), facts, sj.pc)
        prf.prove(fn, "covers every component's box, upper side (%d)" % k, T.le(T.app("cmax%d" % k, "R", j), hk), facts, sj.pc)
        # tight: any b below all the boxes is below lo.  Instances of the hypothesis at 0 and at the index that attains the fold
        b = T.sym("b", "R")
        idx = [0] + attained([lk, hk])
        prf.prove(fn, "tight, lower side (%d)" % k, T.le(b, lk), facts + [T.implies(T.and_(T.le(0, i), T.lt(i, m.n)), T.le(b, T.app("cmin%d" % k, "R", i))) for i in idx], s.pc)
        prf.prove(fn, "tight, upper side (%d)" % k, T.le(hk, b), facts + [T.implies(T.and_(T.le(0, i), T.lt(i, m.n)), T.le(T.app("cmax%d" % k, "R", i), b)) for i in idx], s.pc)
    if len(seen) < 1:
        prf.prove(fn, "oriented box is built from the moments", False)
    x, P, ns = seen[-1]
    xk, Pk, wk = m.g(KVAR)
    mu = [T.sum_(T.mul(wk, xk[q]), m.n) for q in range(4)]
    for q in range(2):
        prf.prove(fn, "oriented box is centred on the mixture's mean (%d)" % q, T.eq(x[q], mu[q]), ex.facts, s.pc)
        for r in range(2):
            prf.prove(fn, "oriented box is built from the mixture's position covariance (%d,%d)" % (q, r), T.eq(P[q][r],
                      T.sum_(T.mul(wk, T.add(Pk[q][r], T.mul(T.sub(xk[q], mu[q]), T.sub(xk[r], mu[r])))), m.n)), ex.facts, s.pc)
    prf.prove(fn, "with the configured nstd", T.eq(ns, T.sym("par.nstd", "R")), ex.facts, s.pc)
    for k in range(8):
        prf.prove(fn, "oriented box stored (%d)" % k, T.eq(ex.load(m.p.plus(w.o("pdf_bbox") + w.o("b_corners") + 8 * k), DBL, s), T.sym("corner%d" % k, "R")), ex.facts, s.pc)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::update_local_bbox")


# ------------------------------------------------------------------ C17
def truth(x):
    """the boolean a driver returned"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    return x if x.op in ("and", "or", "not", "eq0", "le", "lt", "true", "false") or x.sort == "B" else T.ne(x, 0)


def mkbox(w, ex, st, tag):
    """AABBox with min <= max"""
    lo = [T.sym("%smin%d" % (tag, k), "R") for k in range(2)]
    hi = [T.sym("%smax%d" % (tag, k), "R") for k in range(2)]
    for k in range(2):
        ex.fact(T.le(lo[k], hi[k]))
    a, b = w.o("a_min") // 8, w.o("a_max") // 8
    cells = [None] * 4
    for k in range(2):
        cells[a + k], cells[b + k] = lo[k], hi[k]
    return put(ex, st, tag, cells), lo, hi


def axis_boxes(prf):
    w = W("boxes", ["d_a_intersects", "d_a_within2", "d_a_within4", "d_a_ctor", "d_a_copy", "d_a_assign"])
    ex, st = w.ex()
    A, alo, ahi = mkbox(w, ex, st, "a")
    B, blo, bhi = mkbox(w, ex, st, "b")
    P = Ptr
    prf.reachable("AABBox", ex.facts, st.pc)
    p = [T.sym("p0", "R"), T.sym("p1", "R")]
    ina = T.and_(*[T.and_(T.le(alo[k], p[k]), T.le(p[k], ahi[k])) for k in range(2)])
    inb = T.and_(*[T.and_(T.le(blo[k], p[k]), T.le(p[k], bhi[k])) for k in range(2)])
    for nm, x, y in (("a, b", A, B), ("b, a", B, A)):
        r, s = ex.call("d_a_intersects", [P(x, 0), P(y, 0)], st.fork())
        r = truth(r)
        prf.prove("AABBox::intersects", "a shared point implies the answer is yes (%s)" % nm, T.implies(T.and_(ina, inb), r), ex.facts, s.pc)
        q = [T.max_(alo[k], blo[k]) for k in range(2)]
        for k in range(2):
            prf.prove("AABBox::intersects", "yes implies a shared point: the larger of the minima (%s, %d)" % (nm, k), T.implies(r, T.and_(
                T.le(alo[k], q[k]), T.le(q[k], ahi[k]), T.le(blo[k], q[k]), T.le(q[k], bhi[k]))), ex.facts, s.pc)
    for f, n in (("d_a_within2", 2), ("d_a_within4", 4)):
        s = st.fork()
        xo = put(ex, s, "x", p + [T.sym("v%d" % i, "R") for i in range(n - 2)])
        r, s = ex.call(f, [P(A, 0), P(xo, 0)], s)
        prf.prove("AABBox::within", "exactly the points inside or on the box (%d)" % n, T.iff(truth(r), ina), ex.facts, s.pc)
    c = [T.sym(n, "R") for n in ("x1", "y1", "x2", "y2")]
    s = st.fork()
    o = ex.new_obj(s, "o", w.size("a"))
    _, s = ex.call("d_a_ctor", [P(o, 0)] + c, s)
    lo, hi = box(w, ex, s, o)
    for k in range(2):
        u, v = c[k], c[k + 2]
        prf.prove("AABBox(x1, y1, x2, y2)", "minimum not above maximum (%d)" % k, T.le(lo[k], hi[k]), ex.facts, s.pc)
        prf.prove("AABBox(x1, y1, x2, y2)", "bounds are the given coordinates (%d)" % k, T.or_(
            T.and_(T.eq(lo[k], u), T.eq(hi[k], v)), T.and_(T.eq(lo[k], v), T.eq(hi[k], u))), ex.facts, s.pc)
    for f in ("d_a_copy", "d_a_assign"):
        s = st.fork()
        o = ex.new_obj(s, "o", w.size("a"))
        _, s = ex.call(f, [P(o, 0), P(A, 0)], s)
        lo, hi = box(w, ex, s, o)
        for k in range(2):
            prf.prove("AABBox copy", "%s (%d)" % (f, k), T.and_(T.eq(lo[k], alo[k]), T.eq(hi[k], ahi[k])), ex.facts, s.pc)
    prf.take(ex, "AABBox")
    for f in ("intersects", "within<2>", "within<4>", "AABBox(double x4)", "AABBox(const AABBox&)", "operator="):
        prf.function("lmb::AABBox::" + f)


def mkquad(w, ex, st, tag):
    c = [[T.sym("%s%d%s" % (tag, k, d), "R") for d in "xy"] for k in range(4)]
    return put(ex, st, tag, [v for p in c for v in p]), c


def box_hull(prf):
    w = W("boxes", ["d_b_aabbox", "d_b_from_a", "d_b_intersects_a"])
    ex, st = w.ex()
    B, c = mkquad(w, ex, st, "c")
    A, alo, ahi = mkbox(w, ex, st, "a")
    s = st.fork()
    o = ex.new_obj(s, "o", w.size("a"))
    _, s = ex.call("d_b_aabbox", [Ptr(B, 0), Ptr(o, 0)], s)
    lo, hi = box(w, ex, s, o)
    for d in range(2):
        for k in range(4):
            prf.prove("BBox::aabbox", "contains corner %d (%d)" % (k, d), T.and_(T.le(lo[d], c[k][d]), T.le(c[k][d], hi[d])), ex.facts, s.pc)
        prf.prove("BBox::aabbox", "lower side touches a corner (%d)" % d, T.or_(*[T.eq(lo[d], c[k][d]) for k in range(4)]), ex.facts, s.pc)
        prf.prove("BBox::aabbox", "upper side touches a corner (%d)" % d, T.or_(*[T.eq(hi[d], c[k][d]) for k in range(4)]), ex.facts, s.pc)
    s = st.fork()
    o = ex.new_obj(s, "o", w.size("b"))
    _, s = ex.call("d_b_from_a", [Ptr(o, 0), Ptr(A, 0)], s)
    C = corners(w, ex, s, o)
    ring = [(0, 0), (0, 1), (1, 1), (1, 0)]
    sel = lambda q: [(alo, ahi)[q[0]][0], (alo, ahi)[q[1]][1]]
    cands = [[sel(ring[(k0 + q * d) % 4]) for q in range(4)] for k0 in range(4) for d in (1, -1)]
    prf.prove_any("BBox(AABBox)", "the four corners of the box in ring order", [conj_eq(ex, s, C, D) for D in cands], ex.facts, s.pc)
    r, s = ex.call("d_b_intersects_a", [Ptr(B, 0), Ptr(A, 0)], st.fork())
    r = truth(r)
    # a point of both: convex combination of the corners inside the axis-aligned box
    lam = [T.sym("l%d" % k, "R") for k in range(4)]
    pt = [T.sumt([T.mul(lam[k], c[k][d]) for k in range(4)]) for d in range(2)]
    hyp = [T.le(Fraction(0), x) for x in lam] + [T.eq(T.sumt(lam), Fraction(1))]
    for d in range(2):
        hyp += [T.le(alo[d], pt[d]), T.le(pt[d], ahi[d])]
    # products lambda_k (c_k - min), lambda_k (max - c_k) have the sign of the second factor
    hint = []
    for d in range(2):
        for b in (alo[d], ahi[d]):
            for k in range(4):
                pr = T.mul(lam[k], T.sub(c[k][d], b))
                hint += [T.implies(T.lt(b, c[k][d]), T.le(Fraction(0), pr)), T.implies(T.lt(c[k][d], b), T.le(pr, Fraction(0)))]
                prf.prove("BBox::intersects(AABBox)", "sign of a product", T.and_(*hint[-2:]), hyp)
            prf.prove("BBox::intersects(AABBox)", "combination of differences", T.eq(
                T.sub(T.sumt([T.mul(lam[k], T.sub(c[k][d], b)) for k in range(4)]), T.sub(pt[d], T.mul(b, T.sumt(lam)))), Fraction(0)))
            hint.append(T.eq(T.mul(b, T.sumt(lam)), b))
            # strict: all differences positive makes the combination positive (some weight is at least 1/4)
    strict = []
    for d in range(2):
        for b, up in ((alo[d], False), (ahi[d], True)):
            # if every corner is above max (below min), the combination is too
            for big in range(4):
                df = [T.sub(c[k][d], b) if up else T.sub(b, c[k][d]) for k in range(4)]
                comb = T.sub(pt[d], b) if up else T.sub(b, pt[d])
                fs = hyp[:5] + [T.lt(Fraction(0), x) for x in df] + [T.le(Fraction(1, 4), lam[big])]
                prods = [T.le(Fraction(0), T.mul(lam[k], df[k])) for k in range(4)] + [T.le(T.scale(Fraction(1, 4), df[big]), T.mul(lam[big], df[big]))]
                eqb = T.eq(T.sumt([T.mul(lam[k], b) for k in range(4)]), b)
                prf.prove("BBox::intersects(AABBox)", "weights sum to one (%d)" % d, eqb, hyp[4:5] + [T.eq(T.mul(b, T.sub(T.sumt(lam), Fraction(1))), Fraction(0))])
                prf.prove("BBox::intersects(AABBox)", "products (%d)" % d, T.and_(*prods), fs)
                prf.prove("BBox::intersects(AABBox)", "combination on one side (%d)" % d, T.lt(Fraction(0), comb), fs + prods + [eqb])
            strict.append(T.implies(T.and_(*[T.lt(Fraction(0), (T.sub(c[k][d], b) if up else T.sub(b, c[k][d]))) for k in range(4)]),
                                    T.lt(Fraction(0), T.sub(pt[d], b) if up else T.sub(b, pt[d]))))
    prf.prove("BBox::intersects(AABBox)", "a shared point implies the answer is yes", r, ex.facts + hyp + strict, s.pc)
    prf.take(ex, "BBox hull")
    for f in ("aabbox", "BBox(AABBox)", "intersects(AABBox)"):
        prf.function("lmb::BBox::" + f)


def normals(c):
    for i in range(4):
        j = (i + 3) % 4
        yield [T.sub(c[i][1], c[j][1]), T.sub(c[j][0], c[i][0])]


def dot(n, p):
    return T.add(T.mul(n[0], p[0]), T.mul(n[1], p[1]))


def box_intersects(prf):
    fn = "BBox::intersects(BBox)"
    w = W("boxes", ["d_b_intersects"])
    ex, st = w.ex()
    A, a = mkquad(w, ex, st, "a")
    B, b = mkquad(w, ex, st, "b")
    r, s = ex.call("d_b_intersects", [Ptr(A, 0), Ptr(B, 0)], st)
    r = truth(r)
    # name the projections: the decision only depends on their order
    seps = []
    for c in (a, b):
        for n in normals(c):
            pa, pb = [dot(n, x) for x in a], [dot(n, x) for x in b]
            seps.append(([(x, y) for x in pa for y in pb]))
            seps.append(([(y, x) for x in pa for y in pb]))
    for i, ps in enumerate(seps):
        prf.prove(fn, "boxes separated by an edge normal are disjoint (%d)" % i, T.not_(r), ex.facts + [T.lt(x, y) for x, y in ps], s.pc)
    # the other direction: if no edge normal separates them the answer is yes.  For a normal and a side, not separated = some pair is out of order
    prf.prove(fn, "disjoint only when an edge normal separates them", r, ex.facts + [T.or_(*[T.le(y, x) for x, y in ps]) for ps in seps], s.pc)
    prf.take(ex, fn)
    # soundness lemma, for any direction: a strict separation excludes a shared point
    lam = [T.sym("l%d" % k, "R") for k in range(4)]
    mu = [T.sym("m%d" % k, "R") for k in range(4)]
    u, v = [T.sym("u%d" % k, "R") for k in range(4)], [T.sym("v%d" % k, "R") for k in range(4)]
    hyp = [T.le(Fraction(0), x) for x in lam + mu] + [T.eq(T.sumt(lam), Fraction(1)), T.eq(T.sumt(mu), Fraction(1))]
    hyp += [T.lt(x, y) for x in u for y in v]
    t = T.sym("t", "R")         # a threshold between: the largest of the smaller side
    h2 = [T.le(x, t) for x in u] + [T.lt(t, y) for y in v]
    pu = [T.le(T.mul(l, x), T.mul(l, t)) for l, x in zip(lam, u)]
    pv = [T.le(T.mul(l, t), T.mul(l, x)) for l, x in zip(mu, v)]
    for g, l in zip(pu + pv, lam + mu):
        prf.prove(fn, "weighted order", g, [T.le(Fraction(0), l)] + h2)
    for k in range(4):
        big = T.lt(T.mul(mu[k], t), T.mul(mu[k], v[k]))
        prf.prove(fn, "weighted strict order", big, [T.lt(Fraction(0), mu[k])] + h2)
        q1 = T.eq(T.sumt([T.mul(l, t) for l in lam]), t)
        q2 = T.eq(T.sumt([T.mul(l, t) for l in mu]), t)
        prf.prove(fn, "separated boxes share no point", T.lt(T.sumt([T.mul(l, x) for l, x in zip(lam, u)]), T.sumt([T.mul(l, x) for l, x in zip(mu, v)])),
                  pu + pv + [big, q1, q2])
    prf.function("lmb::BBox::intersects(BBox)")
    prf.function("lmb::BBox::separates")


def box_within(prf):
    fn = "BBox::within"
    w = W("boxes", ["d_b_within2", "d_b_within4"])
    ex, st = w.ex()
    B, c = mkquad(w, ex, st, "c")
    p = [T.sym("p0", "R"), T.sym("p1", "R")]
    res = []
    for f, n in (("d_b_within2", 2), ("d_b_within4", 4)):
        s = st.fork()
        xo = put(ex, s, "x", p + [T.sym("v%d" % i, "R") for i in range(n - 2)])
        r, s = ex.call(f, [Ptr(B, 0), Ptr(xo, 0)], s)
        res.append((f, truth(r), s))
    edges = [((i + 3) % 4, i) for i in range(4)]
    up = [T.lt(p[1], c[k][1]) for k in range(4)]
    X = {}
    D = {}
    for j, i in edges:
        X[j, i] = T.add(T.div(T.mul(T.sub(c[j][0], c[i][0]), T.sub(p[1], c[i][1])), T.sub(c[j][1], c[i][1])), c[i][0])
        rel = lambda k: [T.sub(c[k][0], p[0]), T.sub(c[k][1], p[1])]
        vj, vi = rel(j), rel(i)
        D[j, i] = T.sub(T.mul(vj[0], vi[1]), T.mul(vi[0], vj[1]))
    # lemma: the crossing lies on the edge, weights in [0, 1]
    yi, yj, xi, xj, yy = [T.sym(n, "R") for n in ("yi", "yj", "xi", "xj", "yy")]
    t = T.div(T.sub(yy, yi), T.sub(yj, yi))
    strad = T.or_(T.and_(T.lt(yy, yi), T.le(yj, yy)), T.and_(T.le(yi, yy), T.lt(yy, yj)))
    prf.prove(fn, "lemma: a straddled edge is crossed at one of its points, weight in [0,1]", T.and_(T.le(Fraction(0), t), T.le(t, Fraction(1))), [strad])
    prf.prove(fn, "lemma: height of the crossing", T.eq(T.add(yi, T.mul(t, T.sub(yj, yi))), yy), [strad])
    prf.prove(fn, "lemma: abscissa of the crossing", T.eq(T.add(T.div(T.mul(T.sub(xj, xi), T.sub(yy, yi)), T.sub(yj, yi)), xi), T.add(xi, T.mul(t, T.sub(xj, xi)))), [strad])
    xl, xr, xx = [T.sym(n, "R") for n in ("xl", "xr", "xx")]
    m = T.div(T.sub(xx, xl), T.sub(xr, xl))
    prf.prove(fn, "lemma: a point between two crossings is a convex combination of them", T.and_(T.le(Fraction(0), m), T.le(m, Fraction(1)), T.eq(T.add(xl, T.mul(m, T.sub(xr, xl))), xx)),
              [T.le(xl, xx), T.lt(xx, xr)])
    # lemma: an upward (downward) crossing is right of the point exactly when the corners turn one way (the other) about it
    a0, a1, b0, b1 = [T.sym(n, "R") for n in ("a0", "a1", "b0", "b1")]
    for nm, hy, sg in (("upward", T.and_(T.le(a1, Fraction(0)), T.lt(Fraction(0), b1)), 1), ("downward", T.and_(T.le(b1, Fraction(0)), T.lt(Fraction(0), a1)), -1)):
        d = T.sub(T.mul(a0, b1), T.mul(b0, a1))
        xc = T.div(d, T.sub(b1, a1))
        prf.prove(fn, "lemma: side of an %s crossing" % nm, T.iff(T.lt(Fraction(0), xc), T.lt(Fraction(0), T.scale(sg, d))), [hy])
    side = {}
    for j, i in edges:
        den = T.sub(c[i][1], c[j][1])
        hy = T.or_(T.and_(up[i], T.not_(up[j])), T.and_(up[j], T.not_(up[i])))
        prf.prove(fn, "crossing of edge %d-%d relative to the point" % (j, i), T.eq(T.mul(T.sub(X[j, i], p[0]), den), D[j, i]), [T.ne(den, Fraction(0))])
        side[j, i] = [T.implies(T.and_(up[i], T.not_(up[j])), T.iff(T.lt(p[0], X[j, i]), T.lt(Fraction(0), D[j, i]))),
                      T.implies(T.and_(up[j], T.not_(up[i])), T.iff(T.lt(p[0], X[j, i]), T.lt(D[j, i], Fraction(0))))]
    z = Fraction(0)
    # an interior point is strictly between the corners, and the corners are not alternately above and below it (relative coordinates)
    xs, ys = [T.sym("x%d" % k, "R") for k in range(4)], [T.sym("y%d" % k, "R") for k in range(4)]
    cross = lambda i, j: T.sub(T.mul(xs[i], ys[j]), T.mul(xs[j], ys[i]))
    known = {}

    def lemmas(x, y):
        out = [T.not_(T.and_(*[T.lt(T.scale(q, v), z) for v in vs])) for vs in (x, y) for q in (1, -1)]
        out.append(T.not_(T.and_(*[T.le(v, z) for v in y])))
        return out + [T.not_(T.and_(*[T.lt(z, y[k]) if (k + o) % 2 else T.le(y[k], z) for k in range(4)])) for o in (0, 1)]
    for sg in (1, -1):
        d = {(j, i): T.scale(sg, cross(j, i)) for j, i in edges}
        hints = []
        for v in (xs, ys):
            for (a, b) in ((0, 2), (1, 3)):
                dg = T.scale(sg, cross(a, b))
                for m in (0, 1, 2, 3):
                    if m not in (a, b):
                        hints += [h for q in (1, -1) for h in signed(dg, v[m], q)]
                        for e in edges:
                            if m in e:
                                o = a if b in e else b
                                hints += signrule(d[e], v[o])
        for i, g in enumerate(lemmas(xs, ys)):
            prf.prove(fn, "lemma: interior points are not outside the corners (%d, turning %+d)" % (i, sg), g, [T.lt(z, d[e]) for e in edges] + hints)
    known = lemmas([T.sub(c[k][0], p[0]) for k in range(4)], [T.sub(c[k][1], p[1]) for k in range(4)])
    for f, r, s in res:
        for pat in range(16):
            bits = [pat >> k & 1 for k in range(4)]
            hy = [up[k] if bits[k] else T.not_(up[k]) for k in range(4)]
            cr = [(j, i) for j, i in edges if bits[i] != bits[j]]
            wit = T.or_(*[T.and_(T.le(X[e], p[0]), T.lt(p[0], X[g])) for e in cr for g in cr if e != g])
            prf.prove(fn, "%s: contained points lie between two crossings (corners above: %s)" % (f, bits), T.implies(r, wit), ex.facts + hy, s.pc)
            for sg in (1, -1):
                # the crossing of a straddling edge is to the right exactly when the edge goes up (for that turning sense)
                at = [T.lt(p[0], X[j, i]) if (bits[i] == 1) == (sg == 1) else T.le(X[j, i], p[0]) for j, i in cr]
                prf.prove(fn, "%s: interior points are contained (corners above: %s, turning %+d)" % (f, bits, sg), r, ex.facts + hy + at + known, s.pc)
                for (j, i), g in zip(cr, at):
                    prf.prove(fn, "side of crossing %d-%d (corners above: %s, turning %+d)" % (j, i, bits, sg), g, hy + [T.lt(z, T.scale(sg, D[j, i]))] + side[j, i]) if f == res[0][0] else None
    # the hints are consequences of the signs of their factors
    u, v = T.sym("u", "R"), T.sym("v", "R")
    prf.prove(fn, "lemma: sign rules", T.and_(
        T.implies(T.and_(T.lt(Fraction(0), u), T.le(Fraction(0), v)), T.le(Fraction(0), T.mul(u, v))),
        T.implies(T.and_(T.lt(Fraction(0), u), T.lt(Fraction(0), v)), T.lt(Fraction(0), T.mul(u, v))),
        T.implies(T.and_(T.lt(Fraction(0), u), T.le(v, Fraction(0))), T.le(T.mul(u, v), Fraction(0))),
        T.implies(T.and_(T.lt(Fraction(0), u), T.lt(v, Fraction(0))), T.lt(T.mul(u, v), Fraction(0)))), [])
    prf.take(ex, fn)
    prf.function("lmb::BBox::within<2>")
    prf.function("lmb::BBox::within<4>")


def signrule(u, v):
    """u > 0: the product has the sign of v"""
    m = T.mul(u, v)
    z = Fraction(0)
    return [T.implies(T.lt(z, v), T.lt(z, m)), T.implies(T.lt(v, z), T.lt(m, z)), T.implies(T.eq(v, z), T.eq(m, z))]


def signed(u, v, q):
    """q u > 0: the product has the sign of q v"""
    m = T.mul(u, v)
    z = Fraction(0)
    h = T.lt(z, T.scale(q, u))
    return [T.implies(T.and_(h, T.lt(z, v)), T.lt(z, T.scale(q, m))), T.implies(T.and_(h, T.lt(v, z)), T.lt(T.scale(q, m), z)), T.implies(T.eq(v, z), T.eq(m, z)),
            T.implies(T.eq(u, z), T.eq(m, z))]
