"""C07, C03, C11: one target (Target_)"""
from .lib import *
from .p_sensor import same_ptr
from vc.exec import asbool, asint
from vc.irparse import Inf

Z, ONE = Fraction(0), Fraction(1)



def shift(body, n):
    """sum_{k<n} body(k) = body(0) + sum_{k<n-1} body(k+1) for n >= 1"""
    b = lambda i: T.subst(body, {KVAR: i})
    return T.implies(T.le(1, n), T.eq(T.sum_(body, n), T.add(b(0), T.sum_(b(T.add(KVAR, 1)), T.sub(n, 1)))))


def target(w, ex, st, name="t", mixture=True, readonly=False):
    par = new_params(w, ex, st)
    names = {"r": "R", "t0": "R"}
    offs = {w.o("t_" + k): (k, s) for k, s in names.items()}
    ob, oe = w.o("t_pdf"), w.o("t_pdf") + w.size("pdf")
    box = {}

    def init(off, ty):
        if off in offs:
            return T.sym("%s.%s" % (name, offs[off][0]), offs[off][1])
        if off == w.o("t_params"):
            return Ptr(par, 0)
        if off in (w.o("t_id"), w.o("t_cid")):
            return T.sym("%s.%s" % (name, "id" if off == w.o("t_id") else "cid"), "I", 0)
        if off == w.o("t_is_new"):
            return T.sym(name + ".is_new", "I", 0)
        if off == w.o("t_action"):
            return T.sym(name + ".action", "I", 0)
        if mixture and ob <= off < oe:
            return box["m"].cell(off, ty, ob)
        return None
    t = ex.new_obj(st, name, w.size("t"), lazy=True, init=init, readonly=readonly)
    if mixture:
        box["m"] = Mixture(w, ex, st, "m", params=par, base=Ptr(t, ob), readonly=readonly)
    return t, box.get("m"), par


def row(ex, st, name, n):
    """a dense row vector of n doubles"""
    a = Obj(name, None, kind="array", stride=8, length=n)
    a.elem = lambda i, f, ty: T.app(name, "R", i)
    a.meta["fields"] = [(0, 8, DBL)]
    st.wos(a)
    o = ex.new_obj(st, name + ".row", 16)
    ex.store(Ptr(o, 0), PTR, Ptr(a, 0), st)
    ex.store(Ptr(o, 8), I64, n, st)
    return o, a


def pool(ex, st, name, size, n, elem=None, fields=()):
    """n distinct objects of the given size, and a std::vector of pointers to them"""
    p = Obj(name + ".pool", None, kind="array", stride=size, length=n)
    p.elem = elem or (lambda i, f, ty: None)
    p.meta["fields"] = list(fields)
    st.wos(p)
    a = Obj(name + ".ptrs", None, kind="array", stride=8, length=n)
    a.elem = lambda i, f, ty: Ptr(p, T.scale(size, i))
    a.meta["fields"] = [(0, 8, PTR)]
    st.wos(a)
    v = ex.new_obj(st, name, 24)
    ex.store(Ptr(v, 0), PTR, Ptr(a, 0), st)
    ex.store(Ptr(v, 8), PTR, Ptr(a, T.scale(8, n)), st)
    ex.store(Ptr(v, 16), PTR, Ptr(a, T.scale(8, n)), st)
    return p, a, v


def index_of(ex, p, obj, size=None):
    """element of an array object a pointer designates (must be its start)"""
    if not isinstance(p, Ptr) or p.obj is not obj:
        raise Unsupported("pointer to something else than %s" % obj.name)
    i, f = ex.split(obj, p.off)
    if f != 0:
        raise Unsupported("pointer into an element of %s" % obj.name)
    return i


def counter(ex, st, name="count"):
    a = Obj(name, None, kind="array", stride=8, length=None)
    a.elem = lambda i, f, ty: 0
    a.meta["fields"] = [(0, 8, I64)]
    st.wos(a)
    return a


def false_target(prf):
    fn = "Target_::false_target"
    w = W("cluster", ["d_false_target"])
    for nm, low in (("r < 1", True), ("r >= 1", False)):
        ex, st = w.ex(branch_prune=True)
        t, m, par = target(w, ex, st, readonly=True)
        r0 = T.sym("t.r", "R")
        s = st.fork(T.lt(r0, ONE) if low else T.le(ONE, r0))
        r, s = ex.call("d_false_target", [Ptr(t, 0)], s)
        if low:
            prf.prove(fn, nm + ": cost is -log(1 - r)", T.eq(r, T.neg(T.fn("log", T.sub(ONE, r0)))) if is_scalar(r) else False, ex.facts, s.pc)
        else:
            big = isinstance(r, Inf) and not r.neg or T.is_num(r) and r >= 30000
            prf.prove(fn, nm + ": cost is the constant that stands for infinity (a weight of zero in double precision)", big, ex.facts, s.pc)
        prf.take(ex, fn)
    prf.function("lmb::Target_::false_target")


def viable(prf):
    fn = "Target_::viable"
    C = symm("C", 2)
    ox = []

    def m_cov(c):
        if not (isinstance(c.args[1], Ptr) and c.args[1].obj is t and c.args[1].off == w.o("t_pdf")):
            c.ex.oblige("covariance of the target's own mixture", False, c.st)
        for j in range(2):
            for i in range(2):
                c.ex.store(c.args[0].plus(8 * (i + 2 * j)), DBL, C[i][j], c.st)
        return None
    pat = r"^lmb::GM<4, 10>::poscov\(\)"
    w = W("cluster", ["d_viable"], stub=[pat], models=[(pat, m_cov, None)])
    ex, st = w.ex()
    t, m, par = target(w, ex, st, readonly=True)
    r, st = ex.call("d_viable", [Ptr(t, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::Target_::viable")
    n = T.fn("sqrt", T.sumt([T.mul(C[i][j], C[i][j]) for i in range(2) for j in range(2)]))
    spec = T.and_(T.le(T.sym("par.r_lim", "R"), T.sym("t.r", "R")), T.le(n, T.sym("par.cov_lim", "R")))
    r = asbool(r)
    prf.prove(fn, "viable only if existence is at least r_lim and the norm of the positional covariance at most cov_lim", T.implies(r, spec), ex.facts, st.pc)
    prf.prove(fn, "viable if so", T.implies(spec, r), ex.facts, st.pc)


def posterior(prf):
    """Target_::correct: r = sum of the weights, zero below 1e-6; the mixtures are joined with these weights"""
    fn = "Target_::correct"
    ghost = {}

    def m_join(c):
        ex, st = c.ex, c.st
        a = c.args
        if not (same_ptr(c, a[0], t, w.o("t_pdf")) and same_ptr(c, a[1], rw, 0) and same_ptr(c, a[2], t, w.o("t_pdfs"))):
            ex.oblige("joins the target's candidate mixtures with the given weights", False, st)
        g = Ptr(ghost["o"], 0)
        ex.store(g, I64, T.add(ex.load(g, I64, st), 1), st)
        return None
    pat = r"lmb::GM<4, 10>::join<"
    w = W("cluster", ["d_target_correct"], stub=[pat], models=[(pat, m_join, None)])
    ex, st = w.ex()
    t, m, par = target(w, ex, st)
    n = T.sym("n", "I", 0)
    ex.fact(T.le(0, n))
    rw, arr = row(ex, st, "w", n)
    arr.readonly = True
    ghost["o"] = ex.new_obj(st, "joins", 8)
    ex.store(Ptr(ghost["o"], 0), I64, 0, st)
    _, st = ex.call("d_target_correct", [Ptr(t, 0), Ptr(rw, 0)], st)
    wk = T.app("w", "R", KVAR)
    S = T.sum_(wk, n)
    ex.fact(shift(wk, n))
    ex.fact(T.implies(T.eq(n, 0), T.eq(S, Z)))
    prf.take(ex, fn)
    prf.function("lmb::Target_::correct")
    r = ex.load(Ptr(t, w.o("t_r")), DBL, st)
    j = ex.load(Ptr(ghost["o"], 0), I64, st)
    lim = Fraction(1e-6)
    prf.prove(fn, "existence is the total weight from 1e-6 on", T.implies(T.le(lim, S), T.eq(r, S)), ex.facts, st.pc)
    prf.prove(fn, "existence is zero below", T.implies(T.lt(S, lim), T.eq(r, Z)), ex.facts, st.pc)
    prf.prove(fn, "mixtures are joined once with the weights from 1e-6 on", T.implies(T.le(lim, S), T.eq(j, 1)), ex.facts, st.pc)
    prf.prove(fn, "a total weight in [0, 1] keeps existence in [0, 1]", T.and_(T.le(Z, r), T.le(r, ONE)), ex.facts + [T.le(Z, S), T.le(S, ONE)], st.pc)
    frame(prf, fn, w, ex, t, st, ("t_r", "t_action"))


def frame(prf, fn, w, ex, t, st, but):
    """scalar members of the target keep their values"""
    for k, ty in (("t_r", DBL), ("t_id", I32), ("t_cid", I32), ("t_t0", DBL), ("t_is_new", I8)):
        if k in but:
            continue
        v = ex.load(Ptr(t, w.o(k)), ty, st)
        v0 = T.sym("t." + k[2:], "R" if ty == DBL else "I", *(() if ty == DBL else (0,)))
        prf.prove(fn, "%s is not changed" % k[2:], T.eq(v, v0), ex.facts, st.pc)
    prf.prove(fn, "parameters are not changed", same_ptr(None, ex.load(Ptr(t, w.o("t_params")), PTR, st), t._par if hasattr(t, "_par") else ex.load(Ptr(t, w.o("t_params")), PTR, st).obj))


def match(prf):
    """Target_::match: one corrected copy of the mixture per report, one for a missed detection; costs are negative log weights"""
    fn = "Target_::match"
    g = {}
    pats = [r"std::vector<lmb::GM<4, 10>, .*>::clear\(\)", r"std::vector<lmb::GM<4, 10>, .*>::resize\(unsigned long, ", r" lmb::GM<4, 10>::correct<", r" lmb::GM<4, 10>::missed<"]

    def m_clear(c):
        if not same_ptr(c, c.args[0], t, w.o("t_pdfs")):
            raise Unsupported("clear of another vector")
        g["cleared"] = True
        return None

    def m_resize(c):
        ex, st = c.ex, c.st
        if not same_ptr(c, c.args[0], t, w.o("t_pdfs")) or not g.get("cleared"):
            raise Unsupported("resize of another vector, or of one that was not cleared")
        if not same_ptr(c, c.args[2], t, w.o("t_pdf")):
            ex.oblige("candidates start as copies of the target's mixture", False, st)
        n = asint(c.args[1])
        ex.oblige("a candidate for each report and one for a missed detection", T.eq(n, T.add(N, 1)), st)
        a = Obj("pdfs", None, kind="array", stride=w.size("pdf"), length=n)
        a.meta["fields"] = []
        st.wos(a)
        g["pdfs"] = a
        ex.store(Ptr(t, w.o("t_pdfs")), PTR, Ptr(a, 0), st)
        ex.store(Ptr(t, w.o("t_pdfs") + 8), PTR, Ptr(a, T.scale(w.size("pdf"), n)), st)
        ex.store(Ptr(t, w.o("t_pdfs") + 16), PTR, Ptr(a, T.scale(w.size("pdf"), n)), st)
        return None

    def use(c, k):
        ex, st = c.ex, c.st
        i = index_of(ex, c.args[0], g["pdfs"])
        q = Ptr(g["cnt"], T.scale(8, i))
        ex.store(q, I64, T.add(ex.load(q, I64, st), 1), st)
        return i

    def m_correct(c):
        ex, st = c.ex, c.st
        i = use(c, 1)
        j = index_of(ex, c.args[1], reps)
        ex.oblige("the candidate of a report is corrected with that report", T.eq(i, j), st)
        ex.oblige("a candidate of a report", T.and_(T.le(0, i), T.lt(i, N)), st)
        if not same_ptr(c, c.args[2], s):
            ex.oblige("the given sensor", False, st)
        return T.app("eta", "R", i)

    def m_missed(c):
        ex, st = c.ex, c.st
        i = use(c, 1)
        ex.oblige("the candidate for a missed detection", T.eq(i, N), st)
        if not same_ptr(c, c.args[1], s):
            ex.oblige("the given sensor", False, st)
        return T.sym("miss", "R")
    w = W("cluster", ["d_target_match"], stub=pats, models=[(pats[0], m_clear, "std::vector::clear"), (pats[1], m_resize, "std::vector::resize: n copies of the value"), (pats[2], m_correct, None), (pats[3], m_missed, None)])
    ex, st = w.ex()
    t, m, par = target(w, ex, st)
    s = new_sensor(w, ex, st)
    N = T.sym("N", "I", 0)
    ex.fact(T.le(0, N))
    reps, ptrs, v = pool(ex, st, "reports", w.size("r"), N)
    reps.readonly = ptrs.readonly = v.readonly = True
    rw, arr = row(ex, st, "cost", N)
    mo = ex.new_obj(st, "missed", 8)
    g["cnt"] = counter(ex, st)
    _, st = ex.call("d_target_match", [Ptr(t, 0), Ptr(v, 0), Ptr(s, 0), Ptr(rw, 0), Ptr(mo, 0), T.sym("time", "R")], st)
    prf.take(ex, fn)
    prf.function("lmb::Target_::match")
    prf.reachable(fn, ex.facts, st.pc)
    r0 = T.sym("t.r", "R")
    i, si = forall_index(ex, st, N)
    c = ex.load(Ptr(arr, T.scale(8, i)), DBL, si)
    prf.prove(fn, "cost of a report is -log(r * normaliser)", T.eq(c, T.neg(T.fn("log", T.mul(r0, T.app("eta", "R", i))))), ex.facts, si.pc)
    prf.prove(fn, "cost of a missed detection is -log(r * missed factor)", T.eq(ex.load(Ptr(mo, 0), DBL, st), T.neg(T.fn("log", T.mul(r0, T.sym("miss", "R"))))), ex.facts, st.pc)
    j, sj = forall_index(ex, st, T.add(N, 1), "j")
    prf.prove(fn, "every candidate is used exactly once", T.eq(ex.load(Ptr(g["cnt"], T.scale(8, j)), I64, sj), 1), ex.facts, sj.pc)
    frame(prf, fn, w, ex, t, st, ("t_is_new",))


def predict(prf):
    for f, model in (("d_predict_cv", "CV"), ("d_predict_nm", "NM")):
        fn = "Target_::predict(%s)" % model
        pat = r"lmb::%s<lmb::Target_<lmb::GM<4, 10>>>::operator\(\)" % model

        def m_model(c):
            ex, st = c.ex, c.st
            if not (same_ptr(c, c.args[0], mo) and same_ptr(c, c.args[1], t)):
                ex.oblige("the given model moves this target", False, st)
            ex.oblige("from the last time to the time asked for", T.and_(T.eq(c.args[2], T.sym("time", "R")), T.eq(c.args[3], T.sym("last", "R"))), st)
            ex.store(Ptr(t, w.o("t_r")), DBL, T.sym("r1", "R"), st)
            return None
        w = W("cluster", [f], stub=[pat], models=[(pat, m_model, None)])
        ex, st = w.ex()
        t, m, par = target(w, ex, st)
        mo = ex.new_obj(st, "model", 160, lazy=True, readonly=True)
        _, st = ex.call(f, [Ptr(t, 0), Ptr(mo, 0), T.sym("time", "R"), T.sym("last", "R")], st)
        prf.take(ex, fn)
        prf.function("lmb::Target_::predict<%s>" % model)
        S = T.sum_(T.app("m.w", "R", KVAR), m.n)
        r = ex.load(Ptr(t, w.o("t_r")), DBL, st)
        prf.prove(fn, "existence is scaled by the total weight when it is not negligible", T.implies(T.lt(Fraction(1e-8), S), T.eq(r, T.mul(T.sym("r1", "R"), S))), ex.facts, st.pc)
        prf.prove(fn, "existence is the model's when the weights sum to one", T.eq(r, T.sym("r1", "R")), ex.facts + [T.eq(S, ONE)], st.pc)
        prf.prove(fn, "a target without weight does not exist", T.implies(T.le(S, Fraction(1e-8)), T.eq(r, Z)), ex.facts, st.pc)
        frame(prf, fn, w, ex, t, st, ("t_r",))
