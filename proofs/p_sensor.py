"""C23: detection and missed detection probabilities"""
from .lib import *

LAM = (r"^llvm\.", )


def same_ptr(c, a, obj, off=0):
    return isinstance(a, Ptr) and a.obj is obj and a.off == off


def overlap_count(prf):
    """Gaussian_::overlap = share of the N samples drawn that are within the box"""
    for f, kind in (("d_overlap_b", "BBox"), ("d_overlap_a", "AABBox")):
        fn = "Gaussian_::overlap(%s)" % kind
        data = {}

        def m_sample(c):
            ex, st = c.ex, c.st
            if not same_ptr(c, c.args[0], data["g"]):
                ex.oblige("samples are drawn from the component itself", False, st)
            m = c.args[1]
            p, rows = ex.load(m, PTR, st), 4
            cols = ex.load(m.plus(8), I64, st)
            data["p"], data["n"] = p, cols
            return None

        def m_within(c):
            ex, st = c.ex, c.st
            if not same_ptr(c, c.args[0], data["box"]):
                ex.oblige("containment is asked of the given box", False, st)
            col = ex.load(c.args[1], PTR, st)
            if "p" not in data or not isinstance(col, Ptr) or col.obj is not data["p"].obj:
                raise Unsupported("within is asked about something else than a sample")
            d = T.sub(col.off, data["p"].off)
            i = ex.exact_div(d, 32)
            ex.oblige("the sample exists", T.and_(T.le(0, i), T.lt(i, data["n"])), st)
            return T.ne(T.app("inside", "I", i), 0)
        st_ = [r"Gaussian_<4>::sample<", r"BBox::within<", r"lmb::nrand"]
        w = W("gauss", [f], stub=st_, models=[(r"Gaussian_<4>::sample<", m_sample, None), (r"BBox::within<", m_within, None)])
        ex, st = w.ex()
        g = new_gauss(w, ex, st)
        g.readonly = True
        b = ex.new_obj(st, "box", 64, lazy=True, readonly=True)
        data["g"], data["box"] = g, b
        r, st = ex.call(f, [Ptr(g, 0), Ptr(b, 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::Gaussian_<4>::overlap(%s)" % kind)
        N = data["n"]
        prf.prove(fn, "draws at least one sample", T.lt(0, N), ex.facts, st.pc)
        ins = T.ne(T.app("inside", "I", KVAR), 0)
        cnt = T.sum_(T.ite(ins, Fraction(1), Fraction(0)), N)
        prf.prove(fn, "share of the samples inside the box", T.eq(T.mul(r, T.toreal(N)), cnt), ex.facts, st.pc)
        # counting lemma by induction on the number of samples
        S, n, b1 = T.sym("S", "R"), T.sym("n", "R"), T.sym("q", "R")
        prf.prove(fn, "lemma: a count of k indicators lies in [0, k] (step)", T.and_(T.le(Fraction(0), T.add(S, b1)), T.le(T.add(S, b1), T.add(n, Fraction(1)))),
                  [T.le(Fraction(0), S), T.le(S, n), T.or_(T.eq(b1, Fraction(0)), T.eq(b1, Fraction(1)))])
        prf.prove(fn, "share lies in [0, 1]", T.and_(T.le(Fraction(0), r), T.le(r, Fraction(1))), ex.facts + [T.le(Fraction(0), cnt), T.le(cnt, T.toreal(N))], st.pc)
        prf.prove(fn, "all inside: one", T.eq(r, Fraction(1)), ex.facts + [T.eq(cnt, T.toreal(N))], st.pc)
        prf.prove(fn, "none inside: zero", T.eq(r, Fraction(0)), ex.facts + [T.eq(cnt, Fraction(0))], st.pc)


def detection(prf):
    """PositionSensor::pD = pD * overlap with the field of view in the local frame"""
    fn = "PositionSensor::pD"
    seen = []
    nes = []

    def m_overlap(c):
        ex, st = c.ex, c.st
        if not same_ptr(c, c.args[0], g):
            ex.oblige("overlap of the component itself", False, st)
        seen.append(([ex.load(c.args[1].plus(8 * k), DBL, st) for k in range(8)], st.pc))
        return T.sym("overlap", "R")

    def m_ne(c):
        ex, st = c.ex, c.st
        p = c.args[1]
        while not isinstance(ex.load(p, PTR, st), (Ptr,)) and False:
            pass
        q = ex.load(p, PTR, st)            # Eigen block: pointer to the column
        x = [ex.load(q.plus(8 * k), DBL, st) for k in range(2)]
        o = [ex.load(c.args[2].plus(8 * k), DBL, st) for k in range(2)]
        for k in range(2):
            ex.store(c.args[0].plus(8 * k), DBL, T.mk("app:local%d" % k, tuple(x + o), "R"), st)
        return None
    stub = [r"Gaussian_<4>::overlap\(", r" cf::ll2ne<"]
    w = W("gauss", ["d_sensor_pD"], stub=stub, models=[(r"Gaussian_<4>::overlap\(", m_overlap, None), (r" cf::ll2ne<", m_ne, None)])
    ex, st = w.ex()
    g = new_gauss(w, ex, st)
    g.readonly = True
    s = new_sensor(w, ex, st)
    o = ex.new_obj(st, "origin", 16, lazy=True, readonly=True, init=lambda off, ty: T.sym("o%d" % (off // 8), "R"))
    r, st = ex.call("d_sensor_pD", [Ptr(s, 0), Ptr(g, 0), Ptr(o, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::PositionSensor::pD")
    prf.function("lmb::BBox::nebbox")
    ov, pd = T.sym("overlap", "R"), T.sym("s.pD", "R")
    prf.prove(fn, "sensor's pD times the overlap", T.eq(r, T.mul(pd, ov)), ex.facts, st.pc)
    prf.prove(fn, "overlap is asked once", len(seen) >= 1)
    org = [T.sym("o0", "R"), T.sym("o1", "R")]
    for vals, pc in seen:
        for k in range(4):
            fk = [T.sym("s.fov%d" % (2 * k + d), "R") for d in range(2)]
            for d in range(2):
                prf.prove(fn, "corner %d of the field of view in the component's local frame (%d)" % (k, d),
                          T.eq(vals[2 * k + d], T.mk("app:local%d" % d, tuple(fk + org), "R")), ex.facts, pc)
    z, one = Fraction(0), Fraction(1)
    prf.prove(fn, "between zero and pD", T.and_(T.le(z, r), T.le(r, pd)), ex.facts + [T.le(z, ov), T.le(ov, one), T.le(z, pd)], st.pc)
    prf.prove(fn, "pD when entirely inside", T.eq(r, pd), ex.facts + [T.eq(ov, one)], st.pc)
    prf.prove(fn, "zero when entirely outside", T.eq(r, z), ex.facts + [T.eq(ov, z)], st.pc)


def missed(prf):
    fn = "GM::missed"
    org = [T.sym("m.origin%d" % d, "R") for d in range(2)]

    def m_pd(c):
        ex, st = c.ex, c.st
        p = c.args[1]
        i, f = ex.split(p.obj, p.off)
        if p.obj is not m.arr or f != 0:
            raise Unsupported("component pointer")
        for d in range(2):
            ex.oblige("seen from the mixture's own origin", T.eq(ex.load(c.args[2].plus(8 * d), DBL, st), org[d]), st)
        if not same_ptr(c, c.args[0], s):
            ex.oblige("the given sensor", False, st)
        return T.app("pD", "R", i)
    w = W("gauss", ["d_gm_missed"], stub=[r"::pD<"], models=[(r"::pD<", m_pd, None)])
    ex, st = w.ex()
    m = Mixture(w, ex, st)
    s = new_sensor(w, ex, st)
    r, st = ex.call("d_gm_missed", [m.p, Ptr(s, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::missed")
    wk = T.app("m.w", "R", KVAR)
    S = T.sum_(T.mul(wk, T.app("pD", "R", KVAR)), m.n)
    prf.prove(fn, "one minus the weighted sum of the detection probabilities", T.eq(r, T.sub(Fraction(1), S)), ex.facts, st.pc)
    i, si = forall_index(ex, st, m.n)
    x, P, wv = m.now(ex, si, i)
    x0, P0, w0 = m.g(i)
    prf.prove(fn, "weights are not changed", T.eq(wv, w0), ex.facts, si.pc)
    prf.prove(fn, "means and covariances are not changed", T.and_(*(meq([x], [x0]) + meq(P, P0))), ex.facts, si.pc)
    b, e = m.count(ex, st)
    prf.prove(fn, "no component is added or dropped", T.and_(T.eq(b.off, 0), T.eq(e.off, T.scale(w.size("g"), m.n))), ex.facts, st.pc)
    # weights sum to one and 0 <= pD_i <= pD: the factor lies in [1 - pD, 1] (induction step over the components)
    A, B, wt, d, pd = [T.sym(n, "R") for n in ("A", "B", "wt", "d", "pd")]
    z = Fraction(0)
    prf.prove(fn, "lemma: weighted average of values in [0, pD] (step)", T.and_(T.le(z, T.add(A, T.mul(wt, d))), T.le(T.add(A, T.mul(wt, d)), T.mul(pd, T.add(B, wt)))),
              [T.le(z, A), T.le(A, T.mul(pd, B)), T.le(z, wt), T.le(z, d), T.le(d, pd), T.le(z, T.mul(wt, d)), T.le(T.mul(wt, d), T.mul(wt, pd))])
    for f, kind in (("d_gm_overlap_b", "BBox"), ("d_gm_overlap_a", "AABBox")):
        mixture_overlap(prf, f, kind)


def mixture_overlap(prf, f, kind):
    fn = "GM::overlap(%s)" % kind

    def m_ov(c):
        p = c.args[0]
        i, o = c.ex.split(p.obj, p.off)
        if p.obj is not m.arr or o != 0:
            raise Unsupported("component pointer")
        if not same_ptr(c, c.args[1], b):
            c.ex.oblige("overlap with the given box", False, c.st)
        return T.app("ov", "R", i)
    w = W("gauss", [f], stub=[r"Gaussian_<4>::overlap\("], models=[(r"Gaussian_<4>::overlap\(", m_ov, None)])
    ex, st = w.ex()
    m = Mixture(w, ex, st, readonly=True)
    b = ex.new_obj(st, "box", 64, lazy=True, readonly=True)
    r, st = ex.call(f, [m.p, Ptr(b, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::overlap(%s)" % kind)
    prf.prove(fn, "weighted sum of the components' overlaps", T.eq(r, T.sum_(T.mul(T.app("m.w", "R", KVAR), T.app("ov", "R", KVAR)), m.n)), ex.facts, st.pc)


def reports(prf):
    fn = "GaussianReport_"
    w = W("gauss", ["d_sensor_kappa", "d_report_sensor", "d_report"])
    ex, st = w.ex()
    s = new_sensor(w, ex, st)
    z = new_report(w, ex, st)
    z.readonly = True
    r, _ = ex.call("d_sensor_kappa", [Ptr(s, 0), Ptr(z, 0)], st.fork())
    prf.prove("PositionSensor::kappa", "the sensor's clutter intensity", T.eq(r, T.sym("s.kappa", "R")), ex.facts)
    xo = ex.new_obj(st, "x", 16, lazy=True, readonly=True, init=lambda off, ty: T.sym("x%d" % (off // 8), "R"))
    Po = ex.new_obj(st, "P", 32, lazy=True, readonly=True, init=lambda off, ty: T.sym("P%d" % (off // 8), "R"))
    for f, args, kap in (("d_report_sensor", lambda o: [Ptr(o, 0), Ptr(s, 0), Ptr(xo, 0), Ptr(Po, 0)], T.sym("s.kappa", "R")),
                         ("d_report", lambda o: [Ptr(o, 0), Ptr(xo, 0), Ptr(Po, 0), T.sym("kap", "R")], T.sym("kap", "R"))):
        s2 = st.fork()
        o = ex.new_obj(s2, "rep", w.size("r"))
        _, s2 = ex.call(f, args(o), s2)
        prf.prove(fn, "%s: carries the clutter intensity" % f, T.eq(ex.load(Ptr(o, w.o("r_kappa")), DBL, s2), kap), ex.facts, s2.pc)
        for k in range(2):
            prf.prove(fn, "%s: mean (%d)" % (f, k), T.eq(ex.load(Ptr(o, w.o("r_x") + 8 * k), DBL, s2), T.sym("x%d" % k, "R")), ex.facts, s2.pc)
        for k in range(4):
            prf.prove(fn, "%s: covariance (%d)" % (f, k), T.eq(ex.load(Ptr(o, w.o("r_P") + 8 * k), DBL, s2), T.sym("P%d" % k, "R")), ex.facts, s2.pc)
    prf.take(ex, fn)
    prf.function("lmb::GaussianReport_<2>::GaussianReport_")
    prf.function("lmb::PositionSensor::kappa")
