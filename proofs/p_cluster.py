"""C07, C02, C03: correction of one cluster (Cluster_)"""
from .lib import *
from .p_target import pool, index_of, counter
from .p_sensor import same_ptr
from vc import mats
from vc.exec import asbool, asint
from vc.loops import Tmpl

Z, ONE = Fraction(0), Fraction(1)
TGT = r"^(void |bool |double )?lmb::Target_<lmb::GM<4, 10>>::"


def bump(ex, st, arr, i):
    q = Ptr(arr, T.scale(8, i))
    ex.store(q, I64, T.add(ex.load(q, I64, st), 1), st)


def sum_is(ex, st, what, t, n, body):
    """t is the sum of body over 0 <= q < n: a sum of sums over the same range, compared summand by summand"""
    c, d = T._lin(t)
    q, sq = forall_index(ex, st, n, "q")
    got = Z
    for x, k in d.items():
        if x.op != "sum":
            raise Unsupported("not a sum: %s" % T.show(x)[:200])
        ex.oblige(what + ": range", T.eq(x.args[1], n), st)
        got = T.add(got, T.scale(k, T.subst(x.args[0], {KVAR: q})))
    ex.oblige(what + ": rest", T.eq(c, Z), st)
    ex.oblige(what, T.eq(got, body(q)), sq)


def outer_sum(x, M):
    """x = factor * sum / den, summed over a range that ends at M: -> (summand, range)"""
    f, den = Fraction(1), None
    if x.op == "*c":
        f, x = x.args
    if x.op == "/":
        x, den = x.args
    if x.op == "*c":
        f, x = f * x.args[0], x.args[1]
    if x.op != "sum" or not (isinstance(x.args[1], Term) and (x.args[1] is M or x.args[1].op == "+")):
        return None
    b = T.scale(f, x.args[0])
    return (b if den is None else T.div(b, den)), x.args[1]


def resolve(ex, st, t):
    """drop the alternatives that the path condition excludes"""
    while isinstance(t, Term) and t.op == "ite":
        if ex.implied(t.args[0], st, 1500):
            t = t.args[1]
        elif ex.implied(T.not_(t.args[0]), st, 1500):
            t = t.args[2]
        else:
            break
    return t


class Ghost:
    """phase and draw counters"""

    def __init__(self, ex, st):
        self.o = ex.new_obj(st, "ghost", 64)
        for i in range(8):
            ex.store(Ptr(self.o, 8 * i), I64, 0, st)

    def get(self, ex, st, k):
        return ex.load(Ptr(self.o, 8 * k), I64, st)

    def set(self, ex, st, k, v):
        ex.store(Ptr(self.o, 8 * k), I64, v, st)


def correct(prf):
    """Cluster_::correct"""
    fn = "Cluster_::correct"
    S = {}
    aij = lambda k, i: T.app("a", "I", k, i)
    cost = lambda k: T.app("hc", "R", k)

    def which(c, a=0):
        i = index_of(c.ex, c.args[a], tp)
        c.ex.oblige("one of the cluster's targets", T.and_(T.le(0, i), T.lt(i, M)), c.st)
        return i

    def phase(c, k, what):
        c.ex.oblige(what, T.eq(gh.get(c.ex, c.st, 0), k), c.st)

    def m_remove(c):
        if not same_ptr(c, c.args[0], tree):
            c.ex.oblige("the tracker's own target tree", False, c.st)
        phase(c, 0, "a target leaves the index before it moves to local coordinates")
        bump(c.ex, c.st, S["rem"], which(c, 1))

    def m_back(name):
        def f(c):
            ex, st = c.ex, c.st
            if not same_ptr(c, c.args[0], tree):
                ex.oblige("the tracker's own target tree", False, st)
            phase(c, 2, "a target is stored again after it has moved back to global coordinates")
            i = which(c, 1)
            v = T.eq(T.app("viable", "I", i), 1)
            ex.oblige("a viable target is kept" if name == "rep" else "only a target that is not viable is erased", v if name == "rep" else T.not_(v), st)
            bump(ex, st, S[name], i)
        return f

    def m_viable(c):
        phase(c, 2, "viability is decided in global coordinates, after the correction")
        return T.eq(T.app("viable", "I", which(c)), 1)

    def m_local(c):
        phase(c, 0, "to local coordinates once")
        gh.set(c.ex, c.st, 0, 1)

    def m_global(c):
        phase(c, 1, "to global coordinates once, from local ones")
        gh.set(c.ex, c.st, 0, 2)

    def m_match(c):
        ex, st = c.ex, c.st
        a = c.args
        phase(c, 1, "matching happens in local coordinates")
        i = which(c)
        if not (same_ptr(c, a[1], k, w.o("k_reports")) and same_ptr(c, a[2], sen)):
            ex.oblige("matched with the cluster's reports and the given sensor", False, st)
        ex.oblige("matched at the given time", T.eq(a[5], T.sym("time", "R")), st)
        # the block: data, rows, cols, matrix, start row, start col, outer stride
        b = a[3]
        rows, cols = ex.load(b.plus(8), I64, st), ex.load(b.plus(16), I64, st)
        ex.oblige("a row of costs, one for each report", T.and_(T.eq(rows, 1), T.eq(cols, N)), st)
        data = ex.load(b, PTR, st)
        ex.store(a[4], DBL, T.app("miss", "R", i), st)
        ex.oblige("the rows of the block are rows of the matrix", T.eq(ex.load(b.plus(48), I64, st), data.obj.meta["fast"]), st)
        f, s = mats.write_row(ex, data.obj, data.off, N, lambda j: T.app("c", "R", T.FV, j), st, "costs")
        ex.oblige("costs go to the target's own row", T.eq(f, i), st)
        return None

    def m_false(c):
        phase(c, 1, "after prediction, in local coordinates")
        return T.app("ft", "R", which(c))

    def m_murty(c):
        ex, st = c.ex, c.st
        if S.get("murty"):
            raise Unsupported("a second enumeration")
        S["murty"] = True
        rows, cols = ex.load(c.args[1].plus(8), I64, st), ex.load(c.args[1].plus(16), I64, st)
        ex.oblige("a row for each target", T.eq(rows, M), st)
        ex.oblige("columns for reports, missed detections and false targets", T.eq(cols, L), st)
        C = ex.load(c.args[1], PTR, st)
        i, si = forall_index(ex, st, M, "row")
        j, sj = forall_index(ex, si, L, "col")
        v = mats.at(ex, C.obj, j, i, sj) if C.obj.meta["fast"] is L else None
        if v is None:
            raise Unsupported("layout of the cost matrix: %s, %s" % (C.obj.meta["fast"], T.show(mats.content(C.obj, st))))
        want = T.ite(T.lt(j, N), T.app("c", "R", i, j),
                     T.ite(T.eq(j, T.add(N, i)), T.app("miss", "R", i),
                           T.ite(T.eq(j, T.sumt([N, M, i])), T.app("ft", "R", i), Fraction(30000))))
        ex.oblige("cost matrix: reports, own missed detection, own false target, nothing else", T.eq(v, want), sj)
        return None

    def m_draw(c):
        ex, st = c.ex, c.st
        kk = gh.get(ex, st, 1)
        more = T.lt(kk, H)
        gh.set(ex, st, 1, T.add(kk, 1))      # number of draws so far
        s = st.wos(S["sol"])
        s.log = s.log + (("map", 0, M, {0: (4, Tmpl(aij(kk, KVAR)))}),)
        ex.store(c.args[1], PTR, Ptr(S["sol"], 0), st)
        ex.store(c.args[1].plus(8), I64, M, st)
        ex.store(c.args[2], DBL, cost(kk), st)
        ex.fact(T.implies(T.and_(T.le(0, kk), T.lt(kk, H)), T.le(cost(0), cost(kk))))
        return more

    def wk(kk):
        return T.fn("exp", T.sub(cost(0), cost(kk)))

    def hit(kk, i, j):
        return T.or_(T.and_(T.eq(aij(kk, i), j), T.le(0, j), T.lt(j, N)), T.and_(T.eq(j, N), T.eq(aij(kk, i), T.add(N, i))))

    def m_tcorrect(c):
        ex, st = c.ex, c.st
        phase(c, 1, "posterior in local coordinates")
        i = which(c)
        b = c.args[1]
        cols = ex.load(b.plus(16), I64, st)
        ex.oblige("a weight for each report and one for the missed detection", T.eq(cols, T.add(N, 1)), st)
        data = ex.load(b, PTR, st)
        f, s, flat = mats.place(ex, data.obj, data.off, st)
        if f is None or s != 0:
            raise Unsupported("row of weights")
        ex.oblige("the target's own row of weights", T.eq(f, i), st)
        n = ex.load(Ptr(k, w.o("k_n")), I32, st)
        ex.oblige("corrected after at least one hypothesis was used", T.le(1, n), st)
        j, sj = forall_index(ex, st, T.add(N, 1), "j")
        v = mats.at(ex, data.obj, f, j, sj)
        num, den = v.args if isinstance(v, Term) and v.op == "/" else (v, None)
        if den is None:
            raise Unsupported("weights that are not shares")
        sum_is(ex, sj, "weight: the total of the hypotheses with that association", num, n, lambda q: T.ite(hit(q, f, j), wk(q), Z))
        sum_is(ex, sj, "divided by the total of the used hypotheses", den, n, wk)

        def last(q):
            return T.or_(T.lt(T.div(wk(q), T.sum_(wk(KVAR), T.add(q, 1))), wlim), T.le(nmax, T.toreal(T.add(q, 1))))
        q, sq = forall_index(ex, st, T.sub(n, 1), "q")
        ex.oblige("an earlier hypothesis was not the last one to be used", T.not_(last(q)), sq)
        ex.fact(T.implies(T.le(1, n), T.eq(T.sum_(wk(KVAR), n), T.add(T.sum_(wk(KVAR), T.sub(n, 1)), wk(T.sub(n, 1))))))
        ex.oblige("hypotheses are used until the last relevant one", T.or_(T.eq(n, H), last(T.sub(n, 1))), st)
        S["R"] = (data.obj, mats.content(data.obj, st), n)
        bump(ex, st, S["cor"], i)
        return None

    models = [(r"^lap::Murty::Murty\(", m_murty, None), (r"^lap::Murty::draw\(", m_draw, "Murty::draw: C06"), (r"^lap::Murty::~Murty\(", lambda c: None, None),
              (TGT + "match", m_match, None), (TGT + "correct", m_tcorrect, None), (TGT + "false_target", m_false, None), (TGT + "viable", m_viable, None),
              (r"^lmb::TargetTree_<.*>::remove\(", m_remove, None), (r"^lmb::TargetTree_<.*>::replace\(", m_back("rep"), None),
              (r"^lmb::TargetTree_<.*>::erase\(", m_back("era"), None),
              (r"^lmb::Cluster_<.*::transform_to_local\(", m_local, None), (r"^lmb::Cluster_<.*::transform_to_global\(", m_global, None)]
    w = W("cluster", ["d_cluster_correct"], stub=[m[0] for m in models], models=models, init=[r"^lmb::inf$"])

    def alloc(c, n):
        if isinstance(n, int):
            return None
        for other, nm in ((L, "C"), (T.add(N, 1), "R")):
            if T.eq(n, T.scale(8, T.mul(M, other))) is True:
                return Ptr(mats.new(c.ex, c.st, "matrix" + nm, M, other), 0)
        return None
    ex, st = w.ex(alloc=alloc, branch_prune=True)
    M, N, H = T.sym("M", "I", 0), T.sym("N", "I", 0), T.sym("H", "I", 0)
    for x in (M, N, H):
        ex.fact(T.le(0, x))
    L = T.add(N, T.scale(2, M))
    par = new_params(w, ex, st)
    tp, tptr, tv = pool(ex, st, "targets", w.size("t"), M)
    rB = w.o("r_rB")
    rp, rptr, rv = pool(ex, st, "reports", w.size("r"), N, elem=lambda i, f, ty: T.app("rB0", "R", i) if f == rB else None, fields=[(rB, 8, DBL)])
    for o in (tptr, rptr):
        o.readonly = True
    vecs = {w.o("k_targets"): (tptr, M), w.o("k_reports"): (rptr, N)}

    def kinit(off, ty):
        for b, (a, n) in vecs.items():
            if off == b:
                return Ptr(a, 0)
            if off in (b + 8, b + 16):
                return Ptr(a, T.scale(8, n))
        if off == w.o("k_params"):
            return Ptr(par, 0)
        if off == w.o("k_id"):
            return T.sym("kid", "I", 0)
        if off == w.o("k_n"):
            return T.sym("kn", "I", 0)
        return None
    wlim, nmax = (ex.load(Ptr(par, w.o("p_" + x)), DBL, st) for x in ("w_lim", "nhyp_max"))
    k = ex.new_obj(st, "cluster", w.size("k"), lazy=True, init=kinit)
    tree = ex.new_obj(st, "tree", 256, lazy=True, readonly=True)
    sen = new_sensor(w, ex, st)
    gh = Ghost(ex, st)
    S["sol"] = Obj("solution", None, kind="array", stride=4, length=M)
    S["sol"].elem = lambda i, f, ty: T.app("sol0", "I", i)
    S["sol"].meta["fields"] = [(0, 4, I32)]
    st.wos(S["sol"])
    for nm in ("rem", "rep", "era", "cor"):
        S[nm] = counter(ex, st, nm)
    _, st = ex.call("d_cluster_correct", [Ptr(k, 0), Ptr(tree, 0), Ptr(sen, 0), T.sym("time", "R")], st)
    n = ex.load(Ptr(k, w.o("k_n")), I32, st)
    i, si = forall_index(ex, st, M, "i")
    g = lambda nm, s: ex.load(Ptr(S[nm], T.scale(8, i)), I64, s)
    one = lambda c: T.ite(c, 1, 0)
    ex.oblige("every target leaves the index once", T.eq(g("rem", si), 1), si)
    ex.oblige("a viable target is stored again once", T.eq(g("rep", si), one(T.eq(T.app("viable", "I", i), 1))), si)
    ex.oblige("a target that is not viable is erased once", T.eq(g("era", si), one(T.not_(T.eq(T.app("viable", "I", i), 1)))), si)
    ex.oblige("corrected once if there are hypotheses", T.eq(g("cor", si), one(T.le(1, n))), si)
    ex.oblige("no hypotheses without targets", T.or_(T.le(1, M), T.eq(n, 0)), st)
    ex.oblige("some hypothesis is used if there are any", T.or_(T.eq(M, 0), T.eq(H, 0), T.le(1, n)), st)
    ex.oblige("members are back in global coordinates", T.eq(gh.get(ex, st, 0), 2), st)
    j, sj = forall_index(ex, st, N, "j")
    v = ex.load(Ptr(rp, T.add(T.scale(w.size("r"), j), rB)), DBL, sj)
    s0 = sj.fork(T.eq(n, 0))
    ex.oblige("without hypotheses the report is left over entirely", T.eq(v, ONE), s0)
    s1 = sj.fork(T.le(1, n))
    if not S.get("R"):
        raise Unsupported("no posterior weights")
    o, cont, _ = S["R"]
    if o.meta["fast"] is not M:
        raise Unsupported("layout of the weights")
    R = lambda q: T.subst(cont, {T.FV: q, T.SV: j})
    v = resolve(ex, s1, v)
    c, d = T._lin(T.unlift(v))
    ex.oblige("leftover of a report: one minus ..", T.eq(c, ONE), s1)
    rest, sums = Z, []
    for x, kk in d.items():
        x = T.scale(kk, x)
        y = outer_sum(x, M)
        if y is None:
            rest = T.add(rest, x)
        else:
            sums.append(y)
    if len(sums) != 1:
        raise Unsupported("leftover of a report: %s" % T.show(v)[:500])
    body, m = sums[0]
    lo = T.sub(M, m)
    if not isinstance(lo, int) or not 0 <= lo <= 4:
        raise Unsupported("leftover of a report: sum over %s" % T.show(m))
    head = Z
    for i_ in range(lo):
        head = T.sub(head, R(i_))
    ex.oblige("leftover of a report: the weight of the first targets", T.eq(rest, head), s1)
    q, sq = forall_index(ex, s1, m, "q")
    ex.oblige("leftover of a report: .. the weight with which each target takes it", T.eq(T.unlift(T.subst(body, {KVAR: q})), T.neg(R(T.add(q, lo)))), sq)
    prf.take(ex, fn)
    prf.function("lmb::Cluster_::correct")
    prf.reachable(fn, ex.facts, st.pc)
    return S, ex, st


def moves(prf):
    """center_of_mass, transform_to_local, transform_to_global: every member moves once, with the same origin"""
    for root, name in (("d_cluster_local", "Cluster_::transform_to_local"), ("d_cluster_global", "Cluster_::transform_to_global"), ("d_center", "Cluster_::center_of_mass")):
        for empty in ("both", "reports", "targets"):
            _moves(prf, root, name, empty)


def _moves(prf, root, name, case):
    S = {}
    fn = "%s (%s)" % (name, {"both": "reports and targets", "reports": "no targets", "targets": "no reports"}[case])
    GR = r"^lmb::Gaussian_<2>::"

    def member(c, what):
        p, n = (tp, M) if what == "t" else (rp, N)
        i = index_of(c.ex, c.args[0], p)
        c.ex.oblige("one of the cluster's members", T.and_(T.le(0, i), T.lt(i, n)), c.st)
        return i

    def m_move(what, org):
        def f(c):
            i = member(c, what)
            if org:
                o = [c.ex.load(c.args[1].plus(8 * a), DBL, c.st) for a in (0, 1)]
                ko = [c.ex.load(Ptr(k, w.o("k_origin") + 8 * a), DBL, c.st) for a in (0, 1)]
                c.ex.oblige("moved with the cluster's origin", T.and_(*[T.eq(a, b) for a, b in zip(o, ko)]), c.st)
            bump(c.ex, c.st, S["n" + what], i)
        return f

    def m_pos(what):
        def f(c):
            # the result slot comes first
            i = index_of(c.ex, c.args[1], tp if what == "t" else rp)
            for a in (0, 1):
                c.ex.store(c.args[0].plus(8 * a), DBL, T.app(what + "x%d" % a, "R", i), c.st)
        return f
    models = [(TGT + "transform_to_local\\(", m_move("t", True), None), (TGT + "transform_to_global\\(", m_move("t", False), None),
              (GR + "transform_to_(local|global)\\(", m_move("r", True), None),
              (r"^lmb::Target_<lmb::GM<4, 10>>::pos\(", m_pos("t"), None), (GR + "pos\\(", m_pos("r"), None)]
    w = W("cluster", [root], stub=[m[0] for m in models], models=models)
    ex, st = w.ex(branch_prune=True)
    M, N = T.sym("M", "I", 0), T.sym("N", "I", 0)
    if case == "reports":
        M = 0
    if case == "targets":
        N = 0
    for x in (M, N):
        ex.fact(T.le(1, x) if isinstance(x, Term) else True)
    tp, tptr, _ = pool(ex, st, "targets", w.size("t"), M)
    rp, rptr, _ = pool(ex, st, "reports", w.size("r"), N)
    tptr.readonly = rptr.readonly = True
    vecs = {w.o("k_targets"): (tptr, M), w.o("k_reports"): (rptr, N)}

    def kinit(off, ty):
        for b, (a, n) in vecs.items():
            if off == b:
                return Ptr(a, 0)
            if off in (b + 8, b + 16):
                return Ptr(a, T.scale(8, n))
        if w.o("k_origin") <= off < w.o("k_origin") + 16:
            return T.sym("origin%d" % ((off - w.o("k_origin")) // 8), "R")
        return None
    k = ex.new_obj(st, "cluster", w.size("k"), lazy=True, init=kinit)
    for nm in ("nt", "nr"):
        S[nm] = counter(ex, st, nm)
    args = [Ptr(k, 0)]
    if root == "d_center":
        out = ex.new_obj(st, "out", 16)
        args.append(Ptr(out, 0))
    _, st = ex.call(root, args, st)
    src = Ptr(out, 0) if root == "d_center" else Ptr(k, w.o("k_origin"))
    for a in (0, 1):
        v = ex.load(src.plus(8 * a), DBL, st)
        if root == "d_cluster_global":
            want = T.sym("origin%d" % a, "R")
        else:
            s = lambda what, n: T.sum_(T.app(what + "x%d" % a, "R", KVAR), n) if isinstance(n, Term) else Z
            want = T.div(T.add(s("r", N), s("t", M)), T.toreal(T.add(N, M)))
        ex.oblige("origin: the mean position of all members" if root != "d_cluster_global" else "the origin is kept", T.eq(v, want), st)
    if root != "d_center":
        for nm, n in (("nt", M), ("nr", N)):
            if isinstance(n, Term):
                i, si = forall_index(ex, st, n, "i")
                ex.oblige("every member moves once", T.eq(ex.load(Ptr(S[nm], T.scale(8, i)), I64, si), 1), si)
    prf.take(ex, fn)
    prf.function("lmb::" + name)
    prf.reachable(fn, ex.facts, st.pc)
