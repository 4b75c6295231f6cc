"""C19, C21: metrics and intensity map of the tracker"""
from .lib import *
from .p_sensor import same_ptr
from .p_target import counter, row
from .p_tracker import Tracker, world, box, TGT
from vc import mats
from vc.exec import asbool, asint
from vc.loops import Tmpl

Z, ONE = Fraction(0), Fraction(1)
INT = ("global", "local")


class Frames:
    """mixtures of the targets: which frame they are in, and saved copies (phase 0 global, 1 local)"""

    def __init__(self, ex, st, tk):
        self.w, self.tk = tk.w, tk
        self.ph = counter(ex, st, "phase")
        self.saved = {}

    def cell(self, i):
        return Ptr(self.ph, T.scale(8, i))

    def which(self, c, p, off=0):
        if not (isinstance(p, Ptr) and p.obj is self.tk.pool):
            return None
        i, f = c.ex.split(p.obj, p.off)
        if f != off:
            raise Unsupported("part of a target")
        return i

    def target(self, c, p):
        i = self.which(c, p)
        if i is None:
            raise Unsupported("not one of the targets")
        return i

    def copy(self, c):
        i = self.which(c, c.args[1], self.w.o("t_pdf"))
        if i is None:
            raise Unsupported("copy of something else than a target's mixture")
        self.saved[c.args[0].obj] = (i, c.ex.load(self.cell(i), I64, c.st), c.st.os(self.ph).log)
        c.st.wos(c.args[0].obj).ranges = (("zero", 0, self.w.size("pdf")),)
        return None

    def assign(self, c):
        i = self.which(c, c.args[0], self.w.o("t_pdf"))
        if i is None or c.args[1].obj not in self.saved:
            raise Unsupported("assignment of a mixture")
        j, ph, log = self.saved[c.args[1].obj]
        c.ex.oblige("a target gets its own mixture back", T.eq(i, j), c.st)
        now = c.st.os(self.ph).log
        if T.eq(i, j) is True and now[:len(log)] == log and all(e[0] == "w" and T.eq(e[1], i) is True for e in now[len(log):]):
            c.st.wos(self.ph).log = log          # only this target's phase has changed, and it gets back what it was
        else:
            c.ex.store(self.cell(i), I64, ph, c.st)
        return c.args[0]

    def local(self, origin):
        def f(c):
            ex, st = c.ex, c.st
            i = self.target(c, c.args[0])
            ex.oblige("from global to local coordinates", T.eq(ex.load(self.cell(i), I64, st), 0), st)
            for k in (0, 1):
                ex.oblige("with the given origin", T.eq(ex.load(c.args[1].plus(8 * k), DBL, st), origin[k]), st)
            ex.store(self.cell(i), I64, 1, st)
            return None
        return f

    COPY, ASSIGN, DTOR = r"^lmb::GM<4, 10>::GM\(lmb::GM<4, 10> const&\)", r"^lmb::GM<4, 10>::operator=\(lmb::GM<4, 10> const&\)", r"^lmb::GM<4, 10>::~GM"

    def models(self, box):
        return [(self.COPY, lambda c: box["F"].copy(c), None), (self.ASSIGN, lambda c: box["F"].assign(c), None), (self.DTOR, lambda c: None, None)]


LIFE = [(Frames.COPY, lambda c: None, None)]


def truth(ex, st, n, name="truth"):
    a = Obj(name, None, kind="array", stride=32, length=n, readonly=True)
    a.elem = lambda i, f, ty: T.app("x%d" % (f // 8), "R", i) if f % 8 == 0 and f < 32 else None
    a.meta["fields"] = [(8 * k, 8, DBL) for k in range(4)]
    st.wos(a)
    v = ex.new_obj(st, name + ".vec", 24)
    for o, k in ((0, 0), (8, n), (16, n)):
        ex.store(Ptr(v, o), PTR, Ptr(a, T.scale(32, k)), st)
    return a, v


def ospa(prf):
    """SILMB::ospa(truth, origin, c, p)"""
    for case in ("M >= N", "M < N"):
        for nn in ("no truth", "one truth", "truths"):
            _metric(prf, "ospa", "d_ospa", case, nn)


def gospa(prf):
    """SILMB::gospa(truth, origin, c, p)"""
    for case in ("M >= N", "M < N"):
        for nn in ("no truth", "one truth", "truths"):
            _metric(prf, "gospa", "d_gospa", case, nn)


def _metric(prf, what, root, case, nn):
    fn = "SILMB::%s (%s, %s)" % (what, case, nn)
    B = {}
    S = {}
    org = [T.sym("o%d" % k, "R") for k in (0, 1)]
    c_, p_ = T.sym("c", "R"), T.sym("p", "R")
    cm = lambda t: T.fn("pow", t, p_)

    def m_move(c):
        """ll2ne_i on the first two coordinates of a copy"""
        ex, st = c.ex, c.st
        q = ex.load(c.args[0], PTR, st)
        q = c.args[0] if not isinstance(q, Ptr) else q
        if q.obj.kind != "array" or q.obj.stride != 32 or q.obj.readonly:
            raise Unsupported("moves something else than a copy of the truth: %s" % q)
        i, f = ex.split(q.obj, q.off)
        if f != 0:
            raise Unsupported("part of a state")
        S["ne"] = q.obj
        for k in (0, 1):
            ex.oblige("truth moves from where it was", T.eq(ex.load(q.plus(8 * k), DBL, st), T.app("x%d" % k, "R", i)), st)
            ex.oblige("truth moves with the given origin", T.eq(ex.load(c.args[1].plus(8 * k), DBL, st), org[k]), st)
        for k in (0, 1):
            ex.store(q.plus(8 * k), DBL, T.app("ne%d" % k, "R", i), st)
        return None

    def m_distance(c):
        ex, st = c.ex, c.st
        F = B["F"]
        i = F.target(c, c.args[0])
        ex.oblige("distances in local coordinates", T.eq(ex.load(F.cell(i), I64, st), 1), st)
        b, e = ex.load(c.args[1], PTR, st), ex.load(c.args[1].plus(8), PTR, st)
        if nn != "no truth":
            if b.obj is not S.get("ne"):
                raise Unsupported("distances to something else than the moved truth")
            j, sj = forall_index(ex, st, N, "j")
            x = [ex.load(Ptr(b.obj, T.add(b.off, T.add(T.scale(32, j), 8 * k))), DBL, sj) for k in range(4)]
            ex.oblige("distances to all truths, moved, velocities as given", T.and_(*[T.eq(x[k], T.app("%s%d" % ("ne" if k < 2 else "x", k), "R", j)) for k in range(4)]), sj)
        ex.oblige("distances to all truths", T.eq(T.sub(e.off, b.off), T.scale(32, N)), st)
        blk = c.args[2]
        rows, cols = ex.load(blk.plus(8), I64, st), ex.load(blk.plus(16), I64, st)
        ex.oblige("a row of distances", T.and_(T.eq(rows, 1), T.eq(cols, N)), st)
        data = ex.load(blk, PTR, st)
        if nn == "no truth":
            return None
        if data.obj.kind != "mat":
            raise Unsupported("distances go elsewhere: %s %s" % (data, getattr(data.obj, "length", None)))
        data.obj.meta["fast"] = n
        ex.oblige("the rows of the block are rows of the matrix", T.eq(ex.load(blk.plus(48), I64, st), n), st)
        f, s = mats.write_row(ex, data.obj, data.off, N, lambda j: T.app("d", "R", T.FV, j), st, "distances")
        ex.oblige("distances go to the target's own row", T.and_(T.eq(f, i), T.eq(s, 0)), st)
        return None

    def matrix(c, p):
        ex, st = c.ex, c.st
        data = ex.load(p, PTR, st)
        rows, cols = ex.load(p.plus(8), I64, st), ex.load(p.plus(16), I64, st)
        ex.oblige("a square matrix with a row for each target or truth", T.and_(T.eq(rows, n), T.eq(cols, n)), st)
        if data.obj.kind != "mat":
            raise Unsupported("assignment over something else")
        return data.obj

    def m_lap(c):
        ex, st = c.ex, c.st
        o = matrix(c, c.args[1])
        if o.meta["fast"] is None:
            o.meta["fast"] = n
        i, si = forall_index(ex, st, n, "row")
        j, sj = forall_index(ex, si, n, "col")
        v = mats.at(ex, o, i, j, sj)
        d = T.app("d", "R", i, j)
        pair = T.and_(T.lt(i, M), T.lt(j, N))
        un = cm(c_) if what == "ospa" else T.div(cm(c_), Fraction(2))
        for sub, cond, want in (("below the cut-off", T.and_(pair, T.lt(d, c_)), cm(d)), ("at or above the cut-off", T.and_(pair, T.le(c_, d)), cm(c_)), ("unmatched", T.not_(pair), un)):
            ex.oblige("cost of a pair: " + sub, T.eq(v, want), sj.fork(cond))
        S["C"] = (o, mats.content(o, st))
        ret = c.args[0]
        a = Obj("assignment", None, kind="array", stride=4, length=n)
        a.elem = lambda i_, f_, ty: T.app("sol", "I", i_)
        a.meta["fields"] = [(0, 4, I32)]
        st.wos(a)
        S["sol"] = a
        ex.store(ret, PTR, Ptr(a, 0), st)
        ex.store(ret.plus(8), I64, n, st)
        S["laps"] = S.get("laps", 0) + 1
        return None

    def m_cost(c):
        ex, st = c.ex, c.st
        o = matrix(c, c.args[0])
        a = ex.load(c.args[1], PTR, st)
        ex.oblige("cost of the best assignment, over the same costs", "C" in S and o is S["C"][0] and mats.content(o, st) is S["C"][1], st)
        k, sk = forall_index(ex, st, n, "k")
        ex.oblige("cost of that assignment", T.and_(T.eq(ex.load(Ptr(a.obj, T.add(a.off, T.scale(4, k))), I32, sk), T.app("sol", "I", k)), T.eq(ex.load(c.args[1].plus(8), I64, sk), n)), sk)
        return T.sym("best", "R")

    MOVE = r"^void cf::ll2ne_i<Eigen::VectorBlock<"
    MOVE4 = r"^void cf::ll2ne_i<Eigen::Matrix<double, 4, 1"
    models = [(MOVE, m_move, "cf::ll2ne_i: C14"), (MOVE4, m_move, "cf::ll2ne_i: C14"), (TGT + "distance<", m_distance, None), (r"^Eigen::Matrix<int, -1, 1, 0, -1, 1> lap::lap<", m_lap, "lap::lap: C05"),
              (r"^double lap::cost<", m_cost, "lap::cost: its own part"), (TGT + r"transform_to_local\(cf?", lambda c: B["F"].local(org)(c), None),
              (TGT + r"transform_to_local\(Eigen", lambda c: B["F"].local(org)(c), None),
              (Frames.COPY, lambda c: B["F"].copy(c), None), (Frames.ASSIGN, lambda c: B["F"].assign(c), None)]
    w, g = world([root], stub=[m[0] for m in models], models=models)

    def alloc(c, size):
        if T.eq(size, T.scale(8, T.mul(n, n))) is True:
            return Ptr(mats.new(c.ex, c.st, "matrix", n, n), 0)
        if T.eq(size, T.scale(4, n)) is True:
            a = Obj("ints", None, kind="array", stride=4, length=n)
            a.elem = lambda i, f, ty: UNDEF
            a.meta["fields"] = [(0, 4, I32)]
            c.st.wos(a)
            return Ptr(a, 0)
        if T.eq(size, T.scale(32, N)) is True:
            a = Obj("copy", None, kind="array", stride=32, length=N)
            a.elem = lambda i, f, ty: UNDEF
            a.meta["fields"] = [(8 * k, 8, DBL) for k in range(4)]
            c.st.wos(a)
            return Ptr(a, 0)
    ex, st = w.ex(alloc=alloc, branch_prune=True, select_prune=True)
    M = T.sym("N", "I", 0)
    N = {"no truth": 0, "one truth": 1}.get(nn, T.sym("nt", "I", 0))
    if nn == "truths":
        ex.fact(T.lt(1, N))
    ex.fact(T.le(N, M) if case == "M >= N" else T.lt(M, N))
    ex.fact(T.and_(T.le(0, M), T.lt(M, 2 ** 30), T.lt(N, 2 ** 30)))
    n = M if case == "M >= N" else N
    if nn == "no truth" and case == "M < N":
        return
    ex.fact(T.and_(T.lt(Z, c_), T.le(ONE, p_)))
    tk = g["tk"] = Tracker(w, ex, st)
    B["F"] = Frames(ex, st, tk)
    tr, tv = truth(ex, st, N)
    o = ex.new_obj(st, "origin", 16, readonly=True, lazy=True, init=lambda off, ty: org[off // 8])
    r, st = ex.call(root, [tk.p, Ptr(tv, 0), Ptr(o, 0), c_, p_], st)
    best = T.sym("best", "R")
    ex.oblige("zero without targets and truths", T.eq(r, Z), st.fork(T.eq(n, 0)))
    if n != 0:
        want = T.fn("pow", T.div(best, T.toreal(n)) if what == "ospa" else best, T.div(ONE, p_))
        ex.oblige("root of the %s" % ("mean cost" if what == "ospa" else "total cost"), T.eq(r, want), st.fork(T.le(1, n)))
    i, si = forall_index(ex, st, M, "i")
    ex.oblige("every target is back in its own frame", T.eq(ex.load(B["F"].cell(i), I64, si), 0), si)
    if "C" not in S:
        raise Unsupported("no assignment")
    prf.take(ex, fn)
    prf.function("lmb::SILMB::" + what)
    prf.reachable(fn, ex.facts, st.pc)


def matobj(ex, st, name, F, S, elem):
    """an Eigen column-major matrix object with F rows, S columns"""
    o = mats.new(ex, st, name, F, S, fast=F)
    mats.setcontent(o, st, elem)
    h = ex.new_obj(st, name + ".obj", 24)
    ex.store(Ptr(h, 0), PTR, Ptr(o, 0), st)
    ex.store(Ptr(h, 8), I64, F, st)
    ex.store(Ptr(h, 16), I64, S, st)
    return o, h


def distance(prf):
    """Target_::distance: Euclidean distance from the mean to every point, one row"""
    fn = "Target_::distance"
    MEAN = r"^lmb::GM<4, 10>::mean\(\)"
    T0 = {}

    def m_mean(c):
        if not same_ptr(c, c.args[1], T0["t"], w.o("t_pdf")):
            raise Unsupported("mean of something else")
        for k in range(4):
            c.ex.store(c.args[0].plus(8 * k), DBL, T.sym("mean%d" % k, "R"), c.st)
        return None
    w = W("tracker", ["d_distance_row"], stub=[MEAN], models=[(MEAN, m_mean, "GM::mean: C12")])
    ex, st = w.ex(branch_prune=True)
    n, m, N, i = T.sym("rows", "I", 0), T.sym("cols", "I", 0), T.sym("nt", "I", 0), T.sym("row", "I", 0)
    ex.fact(T.and_(T.lt(i, n), T.le(N, m), T.lt(n, 2 ** 31), T.lt(m, 2 ** 31)))
    o, h = matobj(ex, st, "C", n, m, T.app("C0", "R", T.FV, T.SV))
    T0["t"] = ex.new_obj(st, "target", w.size("t"), lazy=True, readonly=True, init=lambda off, ty: None)
    tr, tv = truth(ex, st, N)
    _, st = ex.call("d_distance_row", [Ptr(T0["t"], 0), Ptr(tv, 0), Ptr(h, 0), i, N], st)
    a, sa = forall_index(ex, st, n, "a")
    b, sb = forall_index(ex, sa, m, "b")
    d2 = T.sumt([T.mul(d, d) for d in (T.sub(T.app("x%d" % k, "R", b), T.sym("mean%d" % k, "R")) for k in range(4))])
    v = mats.at(ex, o, a, b, sb)
    ex.oblige("distance of the mean to the point", T.eq(v, T.fn("sqrt", d2)), sb.fork(T.and_(T.eq(a, i), T.lt(b, N))))
    ex.oblige("nothing else is written", T.eq(v, T.app("C0", "R", a, b)), sb.fork(T.not_(T.and_(T.eq(a, i), T.lt(b, N)))))
    prf.take(ex, fn)
    prf.function("lmb::Target_::distance")
    prf.reachable(fn, ex.facts, st.pc)


def cost(prf):
    """lap::cost: the total of the assigned costs"""
    for case in ("rows", "no rows"):
        _cost(prf, case)


def _cost(prf, case):
    fn = "lap::cost (%s)" % case
    w = W("tracker", ["d_cost"])
    n, m = 0 if case == "no rows" else T.sym("rows", "I", 0), T.sym("cols", "I", 0)
    sol = lambda k: T.app("sol", "I", k)

    def ints(st, name):
        a = Obj(name, None, kind="array", stride=4, length=n)
        a.elem = lambda i, f, ty: sol(i) if name == "sol" else UNDEF
        a.meta["fields"] = [(0, 4, I32)]
        st.wos(a)
        return a

    def alloc(c, size):
        return Ptr(ints(c.st, "copy"), 0) if T.eq(size, T.scale(4, n)) is True else None
    ex, st = w.ex(branch_prune=True, select_prune=True, alloc=alloc)
    ex.fact(T.and_(T.le(0 if case == "no rows" else 1, n), T.le(n, m), T.lt(m, 2 ** 31)))
    k = T.fresh("k", "I", 0)
    ex.facts.append(smt.forall((k,), T.implies(T.lt(k, n), T.and_(T.le(0, sol(k)), T.lt(sol(k), m)))))
    o, h = matobj(ex, st, "C", n, m, T.app("C0", "R", T.FV, T.SV))
    a = ints(st, "sol")
    v = ex.new_obj(st, "sol.obj", 16)
    ex.store(Ptr(v, 0), PTR, Ptr(a, 0), st)
    ex.store(Ptr(v, 8), I64, n, st)
    r, st = ex.call("d_cost", [Ptr(h, 0), Ptr(v, 0)], st)
    ex.oblige("sum of the costs the assignment picks", T.eq(r, T.sum_(T.app("C0", "R", KVAR, sol(KVAR)), n) if isinstance(n, Term) else Z), st)
    prf.take(ex, fn)
    prf.function("lap::cost")
    prf.reachable(fn, [f for f in ex.facts if not (isinstance(f, Term) and f.op == "forall")], st.pc)


def origins(prf):
    """ospa(truth, c, p), gospa(truth, c, p): the mean of all positions as origin"""
    for what in ("ospa", "gospa"):
        for case in ("both", "no targets", "no truth"):
            _origin(prf, what, case)


def _origin(prf, what, case):
    fn = "SILMB::%s, default origin (%s)" % (what, case)
    S = {}
    INNER = r"^lmb::SILMB<lmb::GM<4, 10>>::%s\(.*, Eigen::Matrix<double, 2, 1, 0, 2, 1> const&, double, double\)" % what
    c_, p_ = T.sym("c", "R"), T.sym("p", "R")

    def m_inner(c):
        ex, st = c.ex, c.st
        a = c.args
        if not (same_ptr(c, a[0], tk.obj) and same_ptr(c, a[1], tv)):
            ex.oblige("same tracker, same truth", False, st)
        ex.oblige("same cut-off and order", T.and_(T.eq(a[3], c_), T.eq(a[4], p_)), st)
        tot = T.add(M, N)
        for k in (0, 1):
            s = T.add(T.sum_(T.app("x%d" % k, "R", KVAR), N) if isinstance(N, Term) else Z, T.sum_(T.app("p%d" % k, "R", KVAR), M) if isinstance(M, Term) else Z)
            ex.oblige("origin: mean position of targets and truth", T.eq(ex.load(a[2].plus(8 * k), DBL, st), T.div(s, T.toreal(tot))), st)
        S["n"] = S.get("n", 0) + 1
        return T.sym("score", "R")

    def m_pos(c):
        p = c.args[1]
        if not (isinstance(p, Ptr) and p.obj is tk.pool):
            raise Unsupported("position of something else")
        i, f = c.ex.split(p.obj, p.off)
        for k in (0, 1):
            c.ex.store(c.args[0].plus(8 * k), DBL, T.app("p%d" % k, "R", i), c.st)
        return None
    POS = r"^lmb::Target_<lmb::GM<4, 10>>::pos\(\)"
    w, g = world(["d_%s2" % what], stub=[INNER, POS], models=[(INNER, m_inner, "the metric itself: its own part"), (POS, m_pos, "Target_::pos: C12")])
    ex, st = w.ex(branch_prune=True)
    M = 0 if case == "no targets" else T.sym("N", "I", 0)
    N = 0 if case == "no truth" else T.sym("nt", "I", 0)
    for x in (M, N):
        ex.fact(T.le(1, x) if isinstance(x, Term) else True)
    tk = g["tk"] = Tracker(w, ex, st, n=M)
    tr, tv = truth(ex, st, N)
    r, st = ex.call("d_%s2" % what, [tk.p, Ptr(tv, 0), c_, p_], st)
    ex.oblige("the metric with that origin", T.eq(r, T.sym("score", "R")), st)
    if S.get("n") != 1:
        raise Unsupported("metric called %s times" % S.get("n"))
    prf.take(ex, fn)
    prf.function("lmb::SILMB::%s (default origin)" % what)
    prf.reachable(fn, ex.facts, st.pc)


def bounds(prf):
    """what follows from the formulas, by induction over the rows: S(k) is the sum of the first k assigned costs, each between 0 and m"""
    fn = "metrics"
    S = lambda k: T.app("S", "R", k)
    k, n = T.sym("k", "I", 0), T.sym("n", "I", 1)
    m, x, c, p = T.sym("m", "R"), T.sym("x", "R"), T.sym("c", "R"), T.sym("p", "R")
    step = [T.and_(T.le(Z, S(k)), T.le(S(k), T.mul(m, T.toreal(k)))), T.eq(S(T.add(k, 1)), T.add(S(k), x)), T.le(Z, x), T.le(x, m)]
    prf.prove(fn, "the total of k costs lies between 0 and k times the largest (step)", T.and_(T.le(Z, S(T.add(k, 1))), T.le(S(T.add(k, 1)), T.mul(m, T.toreal(T.add(k, 1))))), step, ())
    tot = T.sym("tot", "R")
    q = T.div(tot, T.toreal(n))
    prf.prove(fn, "so the mean cost lies between 0 and the largest", T.and_(T.le(Z, q), T.le(q, m)), [T.le(1, n), T.le(Z, tot), T.le(tot, T.mul(m, T.toreal(n)))], ())
    P = lambda a, b: T.fn("pow", a, b)
    inv = T.div(ONE, p)
    y = T.sym("y", "R")
    # pow is increasing in a nonnegative base and inverts the power (assumed)
    ax = [T.lt(Z, c), T.le(ONE, p), T.le(Z, y), T.le(y, P(c, p)), T.implies(T.and_(T.le(Z, y), T.le(y, P(c, p))), T.and_(T.le(Z, P(y, inv)), T.le(P(y, inv), P(P(c, p), inv)))), T.eq(P(P(c, p), inv), c)]
    prf.prove(fn, "OSPA lies between 0 and the cut-off", T.and_(T.le(Z, P(y, inv)), T.le(P(y, inv), c)), ax, ())
    d = T.sym("d", "R")
    prf.prove(fn, "a cut-off distance of zero costs nothing", T.eq(P(T.min_(Z, c), p), Z), [T.lt(Z, c), T.le(ONE, p), T.eq(P(Z, p), Z)], ())
    prf.function("lemmas of C19")


def intensity(prf):
    """SILMB::pos_phd"""
    fn = "SILMB::pos_phd"
    B, S = {}, {}
    K = 1000
    lo, hi = [T.sym("lo%d" % k, "R") for k in (0, 1)], [T.sym("hi%d" % k, "R") for k in (0, 1)]
    mid = [T.div(T.add(T.sym("box%d" % k, "R"), T.sym("box%d" % (k + 2), "R")), Fraction(2)) for k in (0, 1)]
    smp = lambda i, s, k: T.app("s%d" % k, "R", i, s)

    def m_ne(c):
        ex, st = c.ex, c.st
        p = c.args[1]
        for k in range(4):
            ex.oblige("the region asked for is the region mapped", T.eq(ex.load(p.plus(8 * k), DBL, st), T.sym("box%d" % k, "R")), st)
        ex.oblige("local coordinates at the centre of the region", T.and_(*[T.eq(ex.load(c.args[2].plus(8 * k), DBL, st), mid[k]) for k in (0, 1)]), st)
        for k in (0, 1):
            ex.store(c.args[0].plus(8 * k), DBL, lo[k], st)
            ex.store(c.args[0].plus(16 + 8 * k), DBL, hi[k], st)
        return None

    def m_sample(c):
        ex, st = c.ex, c.st
        i = B["F"].which(c, c.args[0], w.o("t_pdf"))
        if i is None:
            raise Unsupported("samples of something else than a target's mixture")
        ex.oblige("samples in local coordinates", T.eq(ex.load(B["F"].cell(i), I64, st), 1), st)
        a = c.args[1]
        d = ex.load(a, PTR, st)
        ex.oblige("all columns are sampled", T.eq(ex.load(a.plus(8), I64, st), K), st)
        if d.obj is not S.get("samples"):
            raise Unsupported("samples go elsewhere")
        s = st.wos(d.obj)
        s.log = s.log + (("map", 0, K, {8 * k: (8, Tmpl(smp(i, KVAR, k))) for k in (0, 1)}),)
        return None
    NE = r"^lmb::AABBox::neaabbox\("
    SP = r"lmb::GM<4, 10>::sample_pos<"
    LOC = TGT + r"transform_to_local\((cf|Eigen)"
    models = [(NE, m_ne, "AABBox::neaabbox: C14, C17"), (SP, m_sample, "GM::sample_pos: C22"), (LOC, lambda c: B["F"].local(mid)(c), None),
              (Frames.COPY, lambda c: B["F"].copy(c), None), (Frames.ASSIGN, lambda c: B["F"].assign(c), None)]
    w, g = world(["d_phd"], stub=[m[0] for m in models], models=models)
    g["values"] = [T.sym("box%d" % k, "R") for k in range(4)]

    def m_alloc(c, size):
        if T.eq(size, 16 * K) is True:
            a = Obj("samples", None, kind="array", stride=16, length=K)
            a.elem = lambda i, f, ty: UNDEF
            a.meta["fields"] = [(8 * k, 8, DBL) for k in (0, 1)]
            c.st.wos(a)
            S["samples"] = a
            return Ptr(a, 0)
        if T.eq(size, T.scale(8, T.mul(X, Y))) is True:
            return Ptr(mats.new(c.ex, c.st, "map", X, Y, fast=X), 0)
    ex, st = w.ex(branch_prune=True, alloc=m_alloc)
    X, Y = T.sym("nx", "I", 0), T.sym("ny", "I", 0)
    ex.fact(T.and_(T.le(1, X), T.le(1, Y), T.lt(X, 2 ** 31), T.lt(Y, 2 ** 31)))
    ex.fact(T.and_(*[T.lt(a, b) for a, b in zip(lo, hi)]))
    tk = g["tk"] = Tracker(w, ex, st)
    B["F"] = Frames(ex, st, tk)
    bx = box(ex, st)
    sz = ex.new_obj(st, "size", 8, readonly=True)
    sz.readonly = False
    ex.store(Ptr(sz, 0), I32, X, st)
    ex.store(Ptr(sz, 4), I32, Y, st)
    out = ex.new_obj(st, "out", 24)
    _, st = ex.call("d_phd", [tk.p, Ptr(bx, 0), Ptr(sz, 0), Ptr(out, 0)], st)
    d = ex.load(Ptr(out, 0), PTR, st)
    ex.oblige("size of the map", T.and_(T.eq(ex.load(Ptr(out, 8), I64, st), X), T.eq(ex.load(Ptr(out, 16), I64, st), Y)), st)
    if d.obj.kind != "mat":
        raise Unsupported("result")
    a, sa = forall_index(ex, st, X, "a")
    b, sb = forall_index(ex, sa, Y, "b")
    v = mats.at(ex, d.obj, a, b, sb)
    prf.take(ex, fn)
    prf.function("lmb::SILMB::pos_phd")
    prf.reachable(fn, ex.facts, st.pc)
    # v = 1/1000 * sum over the queried targets of a sum over the samples; look at one summand
    whole = T.scale(1000, v)
    if not (isinstance(whole, Term) and whole.op == "sum" and T.eq(whole.args[1], tk.nq) is True and whole.args[0].op in T.LIFTED):
        raise Unsupported("the map is not a sum over the queried targets of a sum over samples: %s" % T.show(v, 40)[:300])
    inner = whole.args[0]
    op, par, head = T.LIFTED[inner.op]
    prf.prove(fn, "a cell is a sum over the queried targets and all samples, divided by their number", op == "sum" and T.eq(inner.args[0], K) is True, ex.facts, sb.pc)
    k, s = T.sym("k", "I", 0), T.sym("s", "I", 0)
    arg = lambda t: T.subst(t, {KVAR: k}) if isinstance(t, Term) else t
    body = T.subst(T.subst(head[0], {KVAR: s}), dict(zip(par, [arg(x) for x in inner.args[1:]])))
    q = T.app("q", "I", k)
    r = T.app("T.r", "R", q)
    pc = list(sb.pc) + [T.lt(k, tk.nq), T.lt(s, K)]
    at = lambda d: T.div(T.sub(smp(q, s, d), lo[d]), T.div(T.sub(hi[d], lo[d]), T.toreal((X, Y)[d])))
    cell = [T.fn("floor", at(d)) for d in (0, 1)]
    prf.prove(fn, "a sample adds its target's existence probability to the one cell it falls in and nothing to the others",
              T.eq(body, T.ite(T.and_(T.eq(cell[0], a), T.eq(cell[1], b)), r, Z)), ex.facts, pc)
    # what follows from that
    prf.prove(fn, "lemma: no cell is negative", T.le(Z, body), ex.facts + [T.le(Z, r)], pc)
    a2, b2 = T.sym("a2", "I", 0), T.sym("b2", "I", 0)
    other = T.subst(body, {a: a2, b: b2})
    prf.prove(fn, "lemma: no sample adds to two cells", T.implies(T.and_(T.not_(T.eq(body, Z)), T.not_(T.eq(other, Z))), T.and_(T.eq(a, a2), T.eq(b, b2))),
              ex.facts, pc + [T.lt(a2, X), T.lt(b2, Y)])
    prf.prove(fn, "lemma: a sample adds its target's existence probability or nothing", T.or_(T.eq(body, r), T.eq(body, Z)), ex.facts, pc)
    x, y, z, n = T.sym("x", "R"), T.sym("y", "R"), T.sym("z", "R"), T.sym("n", "I", 0)
    g_ = T.sym("g", "R")
    pos = T.sym("pos", "R")      # (x - y) / g, with g n = z - y
    prf.prove(fn, "lemma: a sample in the region falls in a cell of the map", T.and_(T.le(Z, pos), T.lt(pos, T.toreal(n))),
              [T.le(y, x), T.lt(x, z), T.lt(Z, g_), T.le(1, n), T.eq(T.mul(g_, T.toreal(n)), T.sub(z, y)), T.eq(T.mul(pos, g_), T.sub(x, y))], [])
    prf.prove(fn, "lemma: a sample outside the region falls in none", T.or_(T.lt(pos, Z), T.le(T.toreal(n), pos)),
              [T.or_(T.lt(x, y), T.le(z, x)), T.lt(Z, g_), T.le(1, n), T.eq(T.mul(g_, T.toreal(n)), T.sub(z, y)), T.eq(T.mul(pos, g_), T.sub(x, y))], [])
    # the targets are as they were: every mixture is back in global coordinates
    i, si = forall_index(ex, st, tk.N, "i")
    prf.prove(fn, "every target is back in global coordinates", T.eq(ex.load(B["F"].cell(i), I64, si), 0), ex.facts, si.pc)
