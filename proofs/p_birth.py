"""C08: births"""
from .lib import *
from .p_sensor import same_ptr
from .p_target import index_of, counter
from .p_tracker import Calls, TREE
from vc.exec import asbool, asint

Z, ONE = Fraction(0), Fraction(1)


def reports_of_clusters(w, ex, st):
    """clusters whose report lists are consecutive stretches [start(c), start(c+1)) of one array of pointers; entry m points to report pi(m)"""
    nc, nz, tot = T.sym("nc", "I", 0), T.sym("nz", "I", 0), None
    start = lambda c: T.app("start", "I", c)
    pi = lambda m: T.app("pi", "I", m)
    for n in (nc, nz):
        ex.fact(T.le(0, n))
    tot = start(nc)
    ex.fact(T.eq(start(0), 0))
    c, m = T.fresh("c", "I"), T.fresh("m", "I")
    # (start is 0 below zero: the stretches before the first cluster are empty)
    ex.fact(smt.forall((c,), T.implies(T.lt(c, nc), T.and_(T.le(0, start(c)), T.le(start(c), start(T.add(c, 1))), T.le(start(T.add(c, 1)), tot)))))
    ex.fact(smt.forall((m,), T.implies(T.and_(T.le(0, m), T.lt(m, tot)), T.and_(T.le(0, pi(m)), T.lt(pi(m), nz)))))
    sr = w.size("r")
    names = {w.o("r_kappa"): ("z.kappa", "R"), w.o("r_rB"): ("z.rB", "R"), w.o("r_cid"): ("z.cid", "I")}
    z = Obj("reports", None, kind="array", stride=sr, length=nz, readonly=True)
    z.elem = lambda i, f, ty: T.app(names[f][0], names[f][1], i) if f in names else None
    z.meta["fields"] = [(w.o("r_rB"), 8, DBL), (w.o("r_kappa"), 8, DBL), (w.o("r_cid"), 4, I32)]
    st.wos(z)
    fl = Obj("report pointers", None, kind="array", stride=8, length=tot, readonly=True)
    fl.elem = lambda i, f, ty: Ptr(z, T.scale(sr, pi(i)))
    fl.meta["fields"] = [(0, 8, PTR)]
    st.wos(fl)
    sk, kr = w.size("k"), w.o("k_reports")
    cl = Obj("clusters", None, kind="array", stride=sk, length=nc, readonly=True)
    cl.elem = lambda i, f, ty: Ptr(fl, T.scale(8, start(i))) if f == kr else Ptr(fl, T.scale(8, start(T.add(i, 1)))) if f in (kr + 8, kr + 16) else None
    cl.meta["fields"] = []
    st.wos(cl)

    def vec_of(a, stride, n, name):
        v = ex.new_obj(st, name, 24)
        for k, o in ((0, 0), (8, T.scale(stride, n)), (16, T.scale(stride, n))):
            ex.store(Ptr(v, k), PTR, Ptr(a, o), st)
        v.readonly = True
        return v
    return dict(nc=nc, nz=nz, tot=tot, pi=pi, z=z, fl=fl, cl=cl, scan=vec_of(z, sr, nz, "scan"), clusters=vec_of(cl, sk, nc, "clusters vector"))


def entry_of(ex, p, z):
    """list entry m of a pointer to report pi(m)"""
    i = index_of(ex, p, z)
    if not (isinstance(i, Term) and i.op == "app:pi"):
        raise Unsupported("a report not reached through the clusters")
    return i.args[0]


def births(prf):
    fn = "SILMB::birth"
    g = {}

    def m_init1(c):
        ex, st = c.ex, c.st
        out, s, par, r = c.args[:4]
        if not same_ptr(c, s, g["s"]):
            ex.oblige("the given sensor", False, st)
        ex.oblige("the tracker's parameters", same_ptr(c, par, g["tr"], w.o("tr_params")), st)
        m = entry_of(ex, r, g["d"]["z"])
        ex.store(out.plus(w.o("pdf_eta")), I64, m, st)          # which report this mixture comes from
        for k in (0, 8, 16):
            ex.store(out.plus(w.o("pdf_c") + k), PTR, NULL, st)
        return None

    def m_new(c):
        ex, st = c.ex, c.st
        tree, r, p, t0 = c.args
        if not same_ptr(c, tree, g["tr"], w.o("tr_tree")):
            raise Unsupported("another tree")
        m = ex.load(p.plus(w.o("pdf_eta")), I64, st)
        if not isinstance(m, (int, Term)):
            raise Unsupported("a newborn's mixture does not come from a report")
        b = T.scale(REC, m)
        ex.store(Ptr(g["rec"], b), I64, T.add(ex.load(Ptr(g["rec"], b), I64, st), 1), st)
        ex.store(Ptr(g["rec"], T.add(b, 8)), DBL, r, st)
        ex.oblige("born at the time of the scan", T.eq(t0, T.sym("time", "R")), st)
        return Ptr(g["rec"], T.add(b, 16))
    pats = [(r"::pdf_init1<", m_init1, None), (TREE.replace("(void |bool |double )?", "") + r"new_target\(", m_new, None)]
    w = W("tracker", ["d_birth"], stub=[p[0] for p in pats], models=pats)
    ex, st = w.ex()
    d = g["d"] = reports_of_clusters(w, ex, st)
    par = {w.o("tr_params") + w.o("p_" + k): k for k in ("w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale")}
    g["tr"] = ex.new_obj(st, "tracker", w.size("tr"), lazy=True, readonly=True, init=lambda off, ty: T.sym("par." + par[off], "R") if off in par else None)
    g["s"] = new_sensor(w, ex, st)
    REC = 16 + w.size("t")
    rec = g["rec"] = Obj("newborn", None, kind="array", stride=REC, length=None)
    rec.elem = lambda i, f, ty: 0 if f == 0 else T.app("unset%d" % f, "R" if ty[0] == "f" else "I", i)
    rec.meta["fields"] = [(0, 8, I64), (8, 8, DBL), (16 + w.o("t_cid"), 4, I32)]
    st.wos(rec)
    rlim, cap, lam = T.sym("par.r_lim", "R"), T.sym("par.rB_max", "R"), T.sym("s.lambdaB", "R")
    ex.fact(T.lt(Z, rlim))
    _, st = ex.call("d_birth", [Ptr(g["tr"], 0), Ptr(d["clusters"], 0), Ptr(d["scan"], 0), Ptr(g["s"], 0), T.sym("time", "R")], st)
    prf.take(ex, fn)
    prf.function("lmb::SILMB::birth")
    prf.reachable(fn, ex.facts, st.pc)
    m, sm = forall_index(ex, st, d["tot"], "m")
    S = T.sum_(T.app("z.rB", "R", KVAR), d["nz"])
    nr = T.div(T.mul(T.app("z.rB", "R", d["pi"](m)), lam), S)
    born = T.and_(T.le(rlim, S), T.le(rlim, nr))
    b = T.scale(REC, m)
    cnt = ex.load(Ptr(rec, b), I64, sm)
    prf.prove(fn, "a report gives one birth when its share reaches r_lim and the leftovers do", T.implies(born, T.eq(cnt, 1)), ex.facts, sm.pc)
    prf.prove(fn, "and none otherwise", T.implies(T.not_(born), T.eq(cnt, 0)), ex.facts, sm.pc)
    r = ex.load(Ptr(rec, T.add(b, 8)), DBL, sm)
    prf.prove(fn, "existence probability is the share capped at rB_max", T.implies(born, T.eq(r, T.min_(nr, cap))), ex.facts, sm.pc)
    prf.prove(fn, "carries the report's cluster number", T.implies(born, T.eq(ex.load(Ptr(rec, T.add(b, 16 + w.o("t_cid"))), I32, sm), T.app("z.cid", "I", d["pi"](m)))), ex.facts, sm.pc)
    # total: each birth is at most its share, and the shares of reports without a birth are not negative
    e = T.ite(born, T.min_(nr, cap), Z)
    prf.prove(fn, "lemma: a birth contributes at most its report's share of lambdaB", T.le(T.mul(e, S), T.mul(T.app("z.rB", "R", d["pi"](m)), lam)),
              ex.facts + [T.le(Z, T.app("z.rB", "R", d["pi"](m))), T.le(Z, lam), T.lt(Z, S)], sm.pc)


def newborn(prf):
    """pdf_init1: one unit-weight Gaussian at the report, zero velocity, report covariance and the sensor's velocity covariance"""
    fn = "PositionSensor::pdf_init1"
    g = {"log": Calls()}
    pos = [None]

    def m_local(c):
        g["log"].hit(c, "local")
        g["o"] = [c.ex.load(c.args[1].plus(8 * k), DBL, c.st) for k in range(2)]
        return None

    def m_global(c):
        g["log"].hit(c, "global")
        return None
    pats = [(r"^lmb::GM<4, 10>::transform_to_local\(Eigen", m_local, None), (r"^lmb::GM<4, 10>::transform_to_global\(\)", m_global, None)]
    w = W("gauss", ["d_pdf_init1"], stub=[p[0] for p in pats], models=pats)
    ex, st = w.ex()
    s, z = new_sensor(w, ex, st), new_report(w, ex, st)
    z.readonly = True
    par = new_params(w, ex, st)
    out = ex.new_obj(st, "out", w.size("pdf"))
    _, st = ex.call("d_pdf_init1", [Ptr(s, 0), Ptr(par, 0), Ptr(z, 0), Ptr(out, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::PositionSensor::pdf_init1")
    prf.function("lmb::GM::GM(params, mean, covariance)")
    b, e = ex.load(Ptr(out, w.o("pdf_c")), PTR, st), ex.load(Ptr(out, w.o("pdf_c") + 8), PTR, st)
    prf.prove(fn, "one component", isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is e.obj and T.eq(T.sub(e.off, b.off), w.size("g")) is True, ex.facts, st.pc)
    x, P, wt = vec(ex, st, b.plus(w.o("g_x")), 4), loadm(ex, st, b.plus(w.o("g_P")), 4, 4), ex.load(b.plus(w.o("g_w")), DBL, st)
    zx, zP, _ = gvals("z", 2)
    pv = [[T.sym("s.pv%d%d" % (min(i, j), max(i, j)), "R") for j in range(2)] for i in range(2)]
    prf.prove(fn, "centred on the report", T.and_(T.eq(x[0], zx[0]), T.eq(x[1], zx[1])), ex.facts, st.pc)
    prf.prove(fn, "zero velocity", T.and_(T.eq(x[2], Z), T.eq(x[3], Z)), ex.facts, st.pc)
    prf.prove(fn, "unit weight", T.eq(wt, ONE), ex.facts, st.pc)
    want = [[zP[i][j] if i < 2 and j < 2 else pv[i - 2][j - 2] if i > 1 and j > 1 else Z for j in range(4)] for i in range(4)]
    for i in range(4):
        for j in range(4):
            prf.prove(fn, "covariance (%d,%d): report's for position, the sensor's for velocity, none across" % (i, j), T.eq(P[i][j], want[i][j]), ex.facts, st.pc)
            if i < j:
                prf.prove(fn, "covariance (%d,%d) symmetric" % (i, j), T.eq(P[i][j], P[j][i]), ex.facts, st.pc)
    g["log"].prove(prf, fn, "boxes are made in the local frame and mapped back", ["local", "global"], ex.facts, [])
    prf.prove(fn, "the local frame is at the report", T.and_(T.eq(g["o"][0], zx[0]), T.eq(g["o"][1], zx[1])), ex.facts, st.pc)
    pp = ex.load(Ptr(out, w.o("pdf_params")), PTR, st)
    prf.prove(fn, "parameters are the ones given", same_ptr(None, pp, par), ex.facts, st.pc)
