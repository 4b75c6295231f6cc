"""C09-C12: component update, prediction, moments."""
from .lib import *

H = [[Fraction(1), Fraction(0), Fraction(0), Fraction(0)], [Fraction(0), Fraction(1), Fraction(0), Fraction(0)]]


# (2 pi)^2 with the roundings of double arithmetic
FOURPI2 = [Fraction(39.478417604357434), Fraction(6.283185307179586) ** 2, Fraction(39.47841760435743)]


def m_pD(c):
    """contract of the sensor's detection probability: any value (decided by C23)"""
    return T.sym("pD", "R")


def correct_component(prf, fn="Gaussian_::correct"):
    """one component corrected with a report: symbolic result"""
    w = W("gauss", ["d_gauss_correct"], stub=[r"::pD<"], models=[(r"::pD<", m_pD, None)], init=[r"PositionSensor.*::H$"])
    ex, st = w.ex()
    g, z, s = new_gauss(w, ex, st), new_report(w, ex, st), new_sensor(w, ex, st)
    z.readonly = True
    org = ex.new_obj(st, "origin", 16, lazy=True, readonly=True)
    r, st = ex.call("d_gauss_correct", [Ptr(g, 0), Ptr(z, 0), Ptr(s, 0), Ptr(org, 0)], st)
    x1 = vec(ex, st, Ptr(g, w.o("g_x")), 4)
    P1 = loadm(ex, st, Ptr(g, w.o("g_P")), 4, 4)
    w1 = ex.load(Ptr(g, w.o("g_w")), DBL, st)
    x0, P0, w0 = gvals("g", 4)
    zx, R, _ = gvals("z", 2)
    prf.take(ex, fn)
    prf.function("lmb::Gaussian_<4>::correct")
    prf.function("lmb::GaussianReport_<2>::likelihood")
    return r, (x0, P0, w0), (x1, P1, w1), (zx, R, T.sym("z.kappa", "R")), ex, st


def c09_component(prf):
    fn = "Gaussian_::correct"
    r, (x0, P0, w0), (x1, P1, w1), (zx, R, kappa), ex, st = correct_component(prf)
    Ri, detR = inv2(R)
    Ht = tr(H)
    # information form: P' + P' H' R^-1 H P = P   and   x' + P' H' R^-1 (H x - z) = x
    lhs = madd(P1, mmul(mmul(P1, Ht), mmul(Ri, mmul(H, P0))))
    for i in range(4):
        for j in range(4):
            prf.prove(fn, "posterior covariance is the information-form inverse (%d,%d)" % (i, j), T.eq(lhs[i][j], P0[i][j]), pc=st.pc)
    innov = msub(mmul(H, [[v] for v in x0]), [[v] for v in zx])
    lhs = madd([[v] for v in x1], mmul(mmul(P1, Ht), mmul(Ri, innov)))
    for i in range(4):
        prf.prove(fn, "posterior mean (%d)" % i, T.eq(lhs[i][0], x0[i]), pc=st.pc)
    S = madd(mmul(mmul(H, P0), Ht), R)
    Si, detS = inv2(S)
    q = mmul(tr(innov), mmul(Si, innov))[0][0]
    # Gaussian density of the innovation: exp(-q/2) / (2 pi sqrt(det S))
    fs = [x for t in [w1] for x in T.subterms([t])]
    exps = [t for t in fs if t.op == "fn:exp"]
    sq = [t for t in fs if t.op == "fn:sqrt"]
    ok = False
    if len(exps) == 1 and len(sq) >= 1:
        prf.prove(fn, "exponent of the likelihood", T.eq(exps[0].args[0], T.scale(Fraction(-1, 2), q)), pc=st.pc)
        # w1 = w0 * pD * exp(..) * sqrt(1/(detS (2pi)^2)) / kappa, squared to get rid of the root; sign by nonnegativity
        E = exps[0]
        lhs = T.mul(T.mul(T.mul(w1, w1), T.mul(kappa, kappa)), detS)
        rhs = T.mul(T.mul(T.mul(w0, w0), T.mul(T.sym("pD", "R"), T.sym("pD", "R"))), T.mul(E, E))
        prf.prove_any(fn, "weight = prior weight * pD * N(z; Hx, S) / kappa (squared)",
                      [T.eq(T.mul(lhs, k), rhs) for k in FOURPI2], pc=st.pc)
        if len(sq) == 1:
            # not the negative root
            prf.prove(fn, "weight carries the sign of prior weight * pD / kappa",
                      T.eq(w1, T.div(T.mul(T.mul(T.mul(w0, T.sym("pD", "R")), E), sq[0]), kappa)), pc=st.pc)
        ok = True
    if not ok:
        prf.prove(fn, "weight is built from one exponential and a root", False)
    prf.prove(fn, "returns the new weight", T.eq(r, w1), pc=st.pc)


def psd_parts(prf, fn, P0, P1, R, pc, x=None):
    """P1 as sums of congruences of P0 and R; P0 - P1 likewise"""
    Ht = tr(H)
    S = madd(mmul(mmul(H, P0), Ht), R)
    Si, _ = inv2(S)
    PHt = mmul(P0, Ht)
    K = mmul(PHt, Si)
    IKH = msub(ident(4), mmul(K, H))
    J = madd(mmul(mmul(IKH, P0), tr(IKH)), mmul(mmul(K, R), tr(K)))
    D = mmul(mmul(PHt, Si), tr(PHt))
    for i in range(4):
        for j in range(4):
            prf.prove(fn, "posterior covariance = (I-KH) P (I-KH)' + K R K' (%d,%d)" % (i, j), T.eq(P1[i][j], J[i][j]), pc=pc)
            if i < j:
                prf.prove(fn, "posterior covariance symmetric (%d,%d)" % (i, j), T.eq(P1[i][j], P1[j][i]), pc=pc)
            prf.prove(fn, "decrease = P H' S^-1 H P (%d,%d)" % (i, j), T.eq(T.sub(P0[i][j], P1[i][j]), D[i][j]), pc=pc)


def c10_component(prf):
    fn = "Gaussian_::correct"
    r, (x0, P0, w0), (x1, P1, w1), (zx, R, kappa), ex, st = correct_component(prf)
    psd_parts(prf, fn, P0, P1, R, st.pc)


def new_matrix(ex, st, name, n, symmetric=True):
    def init(off, ty):
        k = off // 8
        i, j = k % n, k // n
        if symmetric:
            i, j = min(i, j), max(i, j)
        return T.sym("%s%d%d" % (name, i, j), "R")
    return ex.new_obj(st, name, 8 * n * n, lazy=True, readonly=True, init=init)


def c11_update(prf):
    """Gaussian_::linear_update: x' = F x, P' = F P F' + Q for every F, Q"""
    fn = "Gaussian_::linear_update"
    w = W("gauss", ["d_gauss_update"])
    ex, st = w.ex()
    g = new_gauss(w, ex, st)
    F, Q = new_matrix(ex, st, "F", 4, False), new_matrix(ex, st, "Q", 4, False)
    _, st = ex.call("d_gauss_update", [Ptr(g, 0), Ptr(F, 0), Ptr(Q, 0)], st)
    prf.take(ex, fn)
    x0, P0, w0 = gvals("g", 4)
    Fm = [[T.sym("F%d%d" % (i, j), "R") for j in range(4)] for i in range(4)]
    Qm = [[T.sym("Q%d%d" % (i, j), "R") for j in range(4)] for i in range(4)]
    x1 = vec(ex, st, Ptr(g, w.o("g_x")), 4)
    P1 = loadm(ex, st, Ptr(g, w.o("g_P")), 4, 4)
    for i, (a, b) in enumerate(zip(x1, mmul(Fm, [[v] for v in x0]))):
        prf.prove(fn, "mean (%d) = F x" % i, T.eq(a, b[0]), pc=st.pc)
    E = madd(mmul(mmul(Fm, P0), tr(Fm)), Qm)
    for i in range(4):
        for j in range(4):
            prf.prove(fn, "covariance (%d,%d) = F P F' + Q" % (i, j), T.eq(P1[i][j], E[i][j]), pc=st.pc)
    prf.prove(fn, "weight kept", T.eq(ex.load(Ptr(g, w.o("g_w")), DBL, st), w0), pc=st.pc)
    prf.function("lmb::Gaussian_<4>::linear_update")


def component_stub(w, what):
    """contract of a component operation seen from the mixture: it replaces that component's x, P, w by some values
    that depend on the component (which values: the component's own obligations) and touches nothing else"""
    def h(c):
        ex, st = c.ex, c.st
        p = c.args[0]
        i, f = ex.split(p.obj, p.off)
        if f != 0:
            raise Unsupported("component pointer")
        for k in range(4):
            ex.store(p.plus(w.o("g_x") + 8 * k), DBL, T.app("new.x%d" % k, "R", i), st)
        for r in range(4):
            for q in range(4):
                ex.store(p.plus(w.o("g_P") + 8 * (r + 4 * q)), DBL, T.app("new.P%d%d" % (min(r, q), max(r, q)), "R", i), st)
        if what == "correct":
            nw = T.app("new.w", "R", i)
            ex.store(p.plus(w.o("g_w")), DBL, nw, st)
            return nw
        return None
    return h


def check_components(prf, fn, ex, st, m, n, want, keepw=None):
    """for every index below n: component equals want(i) -> (x, P, w)"""
    i, s = forall_index(ex, st, n)
    x, P, w = m.now(ex, s, i)
    ex_, eP, ew = want(i)
    for k in range(4):
        prf.prove(fn, "component mean (%d)" % k, T.eq(x[k], ex_[k]), ex.facts, s.pc)
    for r in range(4):
        for c in range(4):
            prf.prove(fn, "component covariance (%d,%d)" % (r, c), T.eq(P[r][c], eP[r][c]), ex.facts, s.pc)
    if callable(ew):
        ew(prf, fn, w, s)
    else:
        prf.prove(fn, "component weight", T.eq(w, ew), ex.facts, s.pc)


def newc(i):
    return ([T.app("new.x%d" % k, "R", i) for k in range(4)],
            [[T.app("new.P%d%d" % (min(r, c), max(r, c)), "R", i) for c in range(4)] for r in range(4)], T.app("new.w", "R", i))


def c09_mixture(prf):
    fn = "GM::correct"
    w = W("gauss", ["d_gm_correct"], stub=[r"Gaussian_<4>::correct<"])
    w.models.insert(0, (r"Gaussian_<4>::correct<", component_stub(w, "correct"), None))
    ex, st = w.ex()
    m = Mixture(w, ex, st)
    z, s = new_report(w, ex, st), new_sensor(w, ex, st)
    z.readonly = True
    r, st = ex.call("d_gm_correct", [m.p, Ptr(z, 0), Ptr(s, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::correct")
    prf.function("lmb::GM<4>::normalize")
    normalised(prf, fn, ex, st, m, m.n, newc, r)


def normalised(prf, fn, ex, st, m, n, raw, r=None):
    """st: raw(i) components after normalisation"""
    S = T.sum_(raw(KVAR)[2], n)
    big = T.lt(T.div(Fraction(1), Fraction(10) ** 8), S)
    limit = Fraction(1e-8)
    big = T.lt(limit, S)
    b, e = m.count(ex, st)
    sg = m.w.size("g")
    eta = ex.load(m.p.plus(m.w.o("pdf_eta")), DBL, st)
    for cond, nn, ev in ((big, n, S), (T.not_(big), 0, Fraction(0))):
        s = st.fork(cond)
        prf.reachable(fn, ex.facts, s.pc)
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is m.arr and e.obj is m.arr):
            prf.prove(fn, "components stay in one vector", False)
            return
        prf.prove(fn, "number of components" + (" (total > 1e-8)" if nn is n else " (total vanishes: empty)"),
                  T.eq(T.sub(e.off, b.off), T.scale(sg, nn)), ex.facts, s.pc)
        prf.prove(fn, "first component in place", T.eq(b.off, 0), ex.facts, s.pc)
        prf.prove(fn, "normaliser is the sum of the new weights", T.eq(eta, ev), ex.facts, s.pc)
        if r is not None:
            prf.prove(fn, "returns the normaliser", T.eq(r, ev), ex.facts, s.pc)
    s = st.fork(big)

    def ew(prf, fn, wv, s2):
        prf.prove(fn, "weight * normaliser = new weight", T.eq(T.mul(wv, S), raw(i_of(s2))[2]), ex.facts, s2.pc)
    hold = {}

    def i_of(s2):
        return hold["i"]

    def want(i):
        hold["i"] = i
        x, P, _ = raw(i)
        return x, P, ew
    check_components(prf, fn, ex, s, m, n, want)


def gm_update(prf):
    fn = "GM::linear_update"
    w = W("gauss", ["d_gm_update"], stub=[r"Gaussian_<4>::linear_update<"])
    w.models.insert(0, (r"Gaussian_<4>::linear_update<", component_stub(w, "update"), None))
    ex, st = w.ex()
    m = Mixture(w, ex, st)
    F, Q = new_matrix(ex, st, "F", 4, False), new_matrix(ex, st, "Q", 4, False)
    _, st = ex.call("d_gm_update", [m.p, Ptr(F, 0), Ptr(Q, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::linear_update")
    b, e = m.count(ex, st)
    prf.prove(fn, "as many components as before", T.and_(T.eq(b.off, 0), T.eq(e.off, T.scale(w.size("g"), m.n))), ex.facts, st.pc)
    check_components(prf, fn, ex, st, m, m.n, lambda i: newc(i)[:2] + (m.g(i)[2],))


def gm_normalize(prf):
    fn = "GM::normalize"
    w = W("gauss", ["d_gm_normalize"])
    ex, st = w.ex()
    m = Mixture(w, ex, st)
    _, st = ex.call("d_gm_normalize", [m.p], st)
    prf.take(ex, fn)
    prf.function("lmb::GM<4>::normalize")
    normalised(prf, fn, ex, st, m, m.n, m.g)


def gm_moments(prf):
    """mean and covariance of a mixture with any number of components"""
    fn = "GM::mean, GM::cov"
    w = W("gauss", ["d_gm_mean", "d_gm_cov", "d_gm_covx", "d_gm_views"])
    ex, st0 = w.ex()
    m = Mixture(w, ex, st0, readonly=True)
    out = ex.new_obj(st0, "out", 32)
    outP = ex.new_obj(st0, "outP", 128)
    _, st = ex.call("d_gm_mean", [m.p, Ptr(out, 0)], st0.fork())
    mean = vec(ex, st, Ptr(out, 0), 4)
    xk, Pk, wk = m.g(KVAR)
    mu = [T.sum_(T.mul(wk, xk[i]), m.n) for i in range(4)]
    for i in range(4):
        prf.prove("GM::mean", "weighted sum of means (%d)" % i, T.eq(mean[i], mu[i]), ex.facts, st.pc)

    def cov(y):
        return [[T.sum_(T.mul(wk, T.add(Pk[i][j], T.mul(T.sub(xk[i], y[i]), T.sub(xk[j], y[j])))), m.n) for j in range(4)]
                for i in range(4)]
    _, st = ex.call("d_gm_cov", [m.p, Ptr(outP, 0)], st0.fork())
    C = loadm(ex, st, Ptr(outP, 0), 4, 4)
    E = cov(mu)
    for i in range(4):
        for j in range(4):
            prf.prove("GM::cov()", "moment-matched covariance (%d,%d)" % (i, j), T.eq(C[i][j], E[i][j]), ex.facts, st.pc)
            if i < j:
                prf.prove("GM::cov()", "symmetric (%d,%d)" % (i, j), T.eq(C[i][j], C[j][i]), ex.facts, st.pc)
    st = st0.fork()
    y = ex.new_obj(st, "y", 32, lazy=True, readonly=True)
    _, st = ex.call("d_gm_covx", [m.p, Ptr(y, 0), Ptr(outP, 0)], st)
    C = loadm(ex, st, Ptr(outP, 0), 4, 4)
    E = cov(vec(ex, st, Ptr(y, 0), 4))
    for i in range(4):
        for j in range(4):
            prf.prove("GM::cov(x)", "covariance about x (%d,%d)" % (i, j), T.eq(C[i][j], E[i][j]), ex.facts, st.pc)
    st = st0.fork()
    o = [ex.new_obj(st, "v%d" % k, 32) for k in range(4)]
    _, st = ex.call("d_gm_views", [m.p] + [Ptr(x, 0) for x in o], st)
    E = cov(mu)
    prf.prove("GM::pos", "leading half of the mean", T.and_(*[T.eq(a, b) for a, b in zip(vec(ex, st, Ptr(o[0], 0), 2), mu[:2])]), ex.facts, st.pc)
    prf.prove("GM::vel", "trailing half of the mean", T.and_(*[T.eq(a, b) for a, b in zip(vec(ex, st, Ptr(o[1], 0), 2), mu[2:])]), ex.facts, st.pc)
    prf.prove("GM::poscov", "leading block", T.and_(*meq(loadm(ex, st, Ptr(o[2], 0), 2, 2), [r[:2] for r in E[:2]])), ex.facts, st.pc)
    prf.prove("GM::velcov", "trailing block", T.and_(*meq(loadm(ex, st, Ptr(o[3], 0), 2, 2), [r[2:] for r in E[2:]])), ex.facts, st.pc)
    prf.take(ex, fn)
    for f in ("mean", "cov", "cov(x)", "pos", "vel", "poscov", "velcov"):
        prf.function("lmb::GM<4>::" + f)


def new_target(w, ex, st, name="t", n=None, readonly=False):
    """a Target_ with a mixture of any size; -> (object, mixture, params)"""
    par = new_params(w, ex, st)
    m = Mixture(w, ex, st, name + ".pdf", n=n, params=par, base=Ptr(None, 0), readonly=readonly)
    base = w.o("t_pdf")
    names = {w.o("t_r"): ("r", "R", None), w.o("t_id"): ("id", "I", 0), w.o("t_cid"): ("cid", "I", 0)}

    def init(off, ty):
        if off in names and ty[0] != 'ptr':
            k, s, lo = names[off]
            return T.sym(name + "." + k, s, lo)
        if off == w.o("t_params"):
            return Ptr(par, 0)
        if base <= off < base + w.size("pdf"):
            return m.cell(off, ty, base)
        return None
    o = ex.new_obj(st, name, w.size("t"), lazy=True, init=init, readonly=readonly)
    m.obj, m.p = o, Ptr(o, base)
    return o, m, par


def new_cv(w, ex, st, name="cv"):
    names = {w.o("cv_pS"): "pS", w.o("cv_q"): "q", w.o("cv_tscale"): "tscale"}
    return ex.new_obj(st, name, w.size("cv"), lazy=True, readonly=True,
                      init=lambda off, ty: T.sym(name + "." + names[off], "R") if off in names else None)


def cv_spec(dT, q):
    o, z = Fraction(1), Fraction(0)
    F = [[o, z, dT, z], [z, o, z, dT], [z, z, o, z], [z, z, z, o]]
    a, b = T.scale(Fraction(1, 2), T.mul(dT, dT)), T.scale(Fraction(1, 3), T.mul(dT, T.mul(dT, dT)))
    Q = mscale(q, [[b, z, a, z], [z, b, z, a], [a, z, dT, z], [z, a, z, dT]])
    return F, Q


def cv_run(prf):
    w = W("gauss", ["d_cv"])
    ex, st = w.ex()
    t, m, par = new_target(w, ex, st)
    cv = new_cv(w, ex, st)
    return w, ex, st, t, m, cv


def c11_cv(prf):
    fn = "CV::operator()"
    w, ex, st0, t, m, cv = cv_run(prf)
    t1, t0, t2 = T.sym("time", "R"), T.sym("last_time", "R"), T.sym("time2", "R")
    ts = T.sym("par.tscale", "R")
    q, pS, r0 = T.sym("cv.q", "R"), T.sym("cv.pS", "R"), T.sym("t.r", "R")
    _, st = ex.call("d_cv", [Ptr(cv, 0), Ptr(t, 0), t1, t0], st0.fork())
    dT = T.div(T.sub(t1, t0), ts)
    F, Q = cv_spec(dT, q)
    prf.function("lmb::CV::operator()")

    def want(i):
        x, P, wt = m.g(i)
        return [r[0] for r in mmul(F, [[v] for v in x])], madd(mmul(mmul(F, P), tr(F)), Q), wt
    check_components(prf, fn, ex, st, m, m.n, want)
    r1 = ex.load(Ptr(t, w.o("t_r")), DBL, st)
    prf.prove(fn, "existence = r * pS^dt", T.eq(r1, T.mul(r0, T.fn("pow", pS, dT))), ex.facts, st.pc)
    b, e = m.count(ex, st)
    prf.prove(fn, "as many components as before", T.and_(T.eq(b.off, 0), T.eq(e.off, T.scale(w.size("g"), m.n))), ex.facts, st.pc)
    # composition, on the code itself
    _, sA = ex.call("d_cv", [Ptr(cv, 0), Ptr(t, 0), t2, t1], st.fork())
    _, sB = ex.call("d_cv", [Ptr(cv, 0), Ptr(t, 0), t2, t0], st0.fork())
    i = T.fresh("i", "I", 0)
    g = T.lt(i, m.n)
    xa, Pa, wa = m.now(ex, sA.fork(g), i)
    xb, Pb, wb = m.now(ex, sB.fork(g), i)
    for k in range(4):
        prf.prove("CV composition", "mean after two steps = after one (%d)" % k, T.eq(xa[k], xb[k]), ex.facts, sA.fork(g).pc)
    for r in range(4):
        for c in range(4):
            prf.prove("CV composition", "covariance after two steps = after one (%d,%d)" % (r, c), T.eq(Pa[r][c], Pb[r][c]), ex.facts, sA.fork(g).pc)
    prf.prove("CV composition", "weights", T.eq(wa, wb), ex.facts, sA.fork(g).pc)
    ra = ex.load(Ptr(t, w.o("t_r")), DBL, sA)
    rb = ex.load(Ptr(t, w.o("t_r")), DBL, sB)
    d1, d2 = T.div(T.sub(t1, t0), ts), T.div(T.sub(t2, t1), ts)
    prf.trusted["pS^(a+b) = pS^a pS^b (real power law)"] = 1
    prf.prove("CV composition", "existence after one step = r pS^(d1+d2)", T.eq(rb, T.mul(r0, T.fn("pow", pS, T.add(d1, d2)))), ex.facts, sB.pc)
    prf.prove("CV composition", "existence after two steps = r pS^d1 pS^d2",
              T.eq(ra, T.mul(T.mul(r0, T.fn("pow", pS, d1)), T.fn("pow", pS, d2))), ex.facts, sA.pc)
    # no time, no change
    _, sZ = ex.call("d_cv", [Ptr(cv, 0), Ptr(t, 0), t1, t1], st0.fork())
    check_components(prf, "CV at dt = 0", ex, sZ, m, m.n, m.g)
    prf.prove("CV at dt = 0", "existence", T.eq(ex.load(Ptr(t, w.o("t_r")), DBL, sZ), r0), ex.facts, sZ.pc)
    prf.take(ex, fn)


def c10_cv(prf):
    """the noise added by CV is a sum of outer products with nonnegative factors"""
    fn = "CV::operator()"
    w, ex, st, t, m, cv = cv_run(prf)
    t1, t0 = T.sym("time", "R"), T.sym("last_time", "R")
    ts = T.sym("par.tscale", "R")
    q = T.sym("cv.q", "R")
    _, st = ex.call("d_cv", [Ptr(cv, 0), Ptr(t, 0), t1, t0], st)
    dT = T.div(T.sub(t1, t0), ts)
    F, _ = cv_spec(dT, q)
    i, s = forall_index(ex, st, m.n)
    x0, P0, _ = m.g(i)
    x, P, _ = m.now(ex, s, i)
    FPF = mmul(mmul(F, P0), tr(F))
    o, z, h = Fraction(1), Fraction(0), T.scale(Fraction(1, 2), dT)
    vs = [[h, z, o, z], [z, h, z, o]]
    es = [[o, z, z, z], [z, o, z, z]]
    c1, c2 = T.mul(q, dT), T.scale(Fraction(1, 12), T.mul(q, T.mul(dT, T.mul(dT, dT))))
    for r in range(4):
        for c in range(4):
            d = T.add(T.mul(c1, T.sumt([T.mul(v[r], v[c]) for v in vs])), T.mul(c2, T.sumt([T.mul(v[r], v[c]) for v in es])))
            prf.prove(fn, "P' = F P F' + q dt v v' + q dt^3/12 e e' (%d,%d)" % (r, c), T.eq(P[r][c], T.add(FPF[r][c], d)), ex.facts, s.pc)
            if r < c:
                prf.prove(fn, "P' symmetric (%d,%d)" % (r, c), T.eq(P[r][c], P[c][r]), ex.facts, s.pc)
    pre = [T.le(Fraction(0), q), T.lt(Fraction(0), ts), T.le(t0, t1)]
    prf.reachable(fn, ex.facts, pre)
    D = T.sym("dT", "R")
    prf.prove(fn, "dt >= 0", T.le(Fraction(0), dT), ex.facts, pre)
    pre2 = [T.le(Fraction(0), q), T.le(Fraction(0), D)]
    prf.prove(fn, "q dt >= 0", T.le(Fraction(0), T.mul(q, D)), [], pre2)
    prf.prove(fn, "q dt^3/12 >= 0", T.le(Fraction(0), T.mul(q, T.mul(D, T.mul(D, D)))), [], pre2)
    prf.take(ex, fn)
    prf.function("lmb::CV::operator()")


def c11_cv_ctor(prf):
    fn = "CV::CV"
    w = W("gauss", ["d_cv_ctor", "d_cv_predict"])
    ex, st = w.ex()
    cv = ex.new_obj(st, "cv", w.size("cv"))
    a, b = T.sym("a", "R"), T.sym("b", "R")
    _, s = ex.call("d_cv_ctor", [Ptr(cv, 0), a, b], st)
    prf.prove(fn, "keeps pS", T.eq(ex.load(Ptr(cv, w.o("cv_pS")), DBL, s), a), ex.facts, s.pc)
    prf.prove(fn, "keeps q", T.eq(ex.load(Ptr(cv, w.o("cv_q")), DBL, s), b), ex.facts, s.pc)
    prf.function("lmb::CV::CV")
    m = Mixture(w, ex, st, readonly=True)
    out = ex.new_obj(st, "out", 32)
    dT = T.sym("dT", "R")
    cv = new_cv(w, ex, st, "cvp")
    _, s = ex.call("d_cv_predict", [Ptr(cv, 0), m.p, dT, Ptr(out, 0)], st)
    xk, _, wk = m.g(KVAR)
    mu = [[T.sum_(T.mul(wk, xk[i]), m.n)] for i in range(4)]
    E = mmul(cv_spec(dT, Fraction(1))[0], mu)
    for i, v in enumerate(vec(ex, s, Ptr(out, 0), 4)):
        prf.prove("CV::predict", "state ahead = F mean (%d)" % i, T.eq(v, E[i][0]), ex.facts, s.pc)
    prf.function("lmb::CV::predict")
    prf.take(ex, fn)


def c11_nm(prf):
    fn = "NM::operator()"
    w = W("gauss", ["d_nm"])
    ex, st = w.ex()
    t, m, par = new_target(w, ex, st)

    def init(off, ty):
        if off == w.o("nm_pS"):
            return T.sym("nm.pS", "R")
        k = (off - w.o("nm_Q")) // 8
        return T.sym("nm.Q%d%d" % (k % 4, k // 4), "R") if 0 <= k < 16 else None
    nm = ex.new_obj(st, "nm", w.size("nm"), lazy=True, readonly=True, init=init)
    _, st = ex.call("d_nm", [Ptr(nm, 0), Ptr(t, 0), T.sym("time", "R"), T.sym("last_time", "R")], st)
    Q = [[T.sym("nm.Q%d%d" % (i, j), "R") for j in range(4)] for i in range(4)]
    check_components(prf, fn, ex, st, m, m.n, lambda i: (m.g(i)[0], madd(m.g(i)[1], Q), m.g(i)[2]))
    prf.prove(fn, "existence = r * pS", T.eq(ex.load(Ptr(t, w.o("t_r")), DBL, st), T.mul(T.sym("t.r", "R"), T.sym("nm.pS", "R"))), ex.facts, st.pc)
    prf.take(ex, fn)
    prf.function("lmb::NM::operator()")
