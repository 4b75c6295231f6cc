"""C22: sampling"""
from .lib import *
from .p_boxes import decided, put


class EigenN:
    """contract of Eigen::SelfAdjointEigenSolver on an n x n symmetric positive semidefinite matrix: P = E diag(l) E', l >= 0
    (orthonormality is not needed here)"""

    def __init__(self, n):
        self.n = n
        self.e = [[T.sym("e%d%d" % (i, k), "R") for k in range(n)] for i in range(n)]
        self.l = [T.sym("l%d" % k, "R") for k in range(n)]
        self.P = [[T.sumt([T.mul(self.l[k], T.mul(self.e[i][k], self.e[j][k])) for k in range(n)]) for j in range(n)] for i in range(n)]

    def facts(self, ex):
        for v in self.l:
            ex.fact(T.le(Fraction(0), v))

    def model(self):
        def h(c):
            ex, st, n = c.ex, c.st, self.n
            P = loadm(ex, st, c.args[1], n, n)
            for i in range(n):
                for j in range(i + 1):
                    ex.oblige("decomposition of the requested covariance", T.eq(P[i][j], self.P[i][j]), st)
            for k in range(n):
                for i in range(n):
                    ex.store(c.args[0].plus(8 * (i + n * k)), DBL, self.e[i][k], st)
                ex.store(c.args[0].plus(8 * (n * n + k)), DBL, self.l[k], st)
            return c.args[0]
        return (r"SelfAdjointEigenSolver<.*::compute(Direct)?[<(]", h, "Eigen::SelfAdjointEigenSolver: P = E L E', eigenvalues of a positive semidefinite matrix are not negative")


def draws(ghost):
    """contract of the scalar generator: every call returns the next standard normal draw of the stream"""
    def h(c):
        ex, st = c.ex, c.st
        p = Ptr(ghost["o"], 0)
        n = ex.load(p, I64, st)
        ex.store(p, I64, T.add(n, 1), st)
        return T.app("z", "R", n)
    return (r"^lmb::nrand\(\)", h, "lmb::nrand(): independent standard normal draws")


def columns(ex, st, rows, name="res"):
    """a rows x cols matrix: array of columns"""
    n = T.sym("cols", "I", 0)
    ex.fact(T.le(0, n))
    a = Obj(name, None, kind="array", stride=8 * rows, length=n)
    a.elem = lambda i, f, ty: T.app("%s.old%d" % (name, f // 8), "R", i)
    a.meta["fields"] = [(8 * k, 8, DBL) for k in range(rows)]
    st.wos(a)
    m = put_matrix(ex, st, a, n)
    return a, n, m


def put_matrix(ex, st, a, n):
    o = ex.new_obj(st, "matrix", 16)
    ex.store(Ptr(o, 0), PTR, Ptr(a, 0), st)
    ex.store(Ptr(o, 8), I64, n, st)
    return o


def gaussian_samples(prf):
    for f, rows, blk, pos in (("d_g_sample", 4, False, False), ("d_g_sample_pos", 2, False, True),
                              ("d_g_sample_blk", 4, True, False), ("d_g_sample_pos_blk", 2, True, True)):
        fn = "Gaussian_::%s%s" % ("sample_pos" if pos else "sample", "(block)" if blk else "")
        eg = EigenN(rows)
        ghost = {}
        w = W("sampling", [f], stub=[r"SelfAdjointEigenSolver<.*::compute(Direct)?[<(]", r"^lmb::nrand\(\)"], models=[eg.model(), draws(ghost)])
        ex, st = w.ex()
        eg.facts(ex)
        ghost["o"] = ex.new_obj(st, "stream", 8)
        ex.store(Ptr(ghost["o"], 0), I64, 0, st)
        a, n, m = columns(ex, st, rows)

        def init(off, ty):
            ox, oP = w.o("g_x"), w.o("g_P")
            if ox <= off < ox + 32:
                return T.sym("mean%d" % ((off - ox) // 8), "R")
            if oP <= off < oP + 128:
                k = (off - oP) // 8
                i, j = k % 4, k // 4
                return eg.P[max(i, j)][min(i, j)] if i < rows and j < rows else T.sym("cov%d%d" % (min(i, j), max(i, j)), "R")
            return T.sym("weight", "R")
        g = ex.new_obj(st, "g", w.size("g"), lazy=True, readonly=True, init=init)
        lo, cnt = 0, n
        args = [Ptr(g, 0), Ptr(m, 0)]
        if blk:
            lo, cnt = T.sym("c0", "I", 0), T.sym("cn", "I", 0)
            for x in (T.le(0, lo), T.le(0, cnt), T.le(T.add(lo, cnt), n)):
                ex.fact(x)
            args += [lo, cnt]
        _, st = ex.call(f, args, st)
        prf.take(ex, fn)
        prf.function("lmb::Gaussian_<4>::" + ("sample_pos" if pos else "sample"))
        prf.function("lmb::nrand<%s, %d>" % ("Block" if blk else "Matrix", rows))
        prf.reachable(fn, ex.facts + [T.lt(0, cnt)], st.pc)
        used = ex.load(Ptr(ghost["o"], 0), I64, st)
        prf.prove(fn, "one draw per dimension and sample", T.eq(used, T.scale(rows, cnt)), ex.facts, st.pc)
        i, s = forall_index(ex, st, cnt)
        zs = [T.app("z", "R", T.add(T.scale(rows, i), k)) for k in range(rows)]
        A = []
        for d in range(rows):
            v = decided(ex, ex.load(Ptr(a, T.add(T.scale(8 * rows, T.add(lo, i)), 8 * d)), DBL, s), s.pc + tuple(ex.facts))
            v = T.sub(v, T.sym("mean%d" % d, "R"))
            row = [T.sub(T.subst(v, {z: Fraction(1 if q == k else 0) for q, z in enumerate(zs)}), Fraction(0)) for k in range(rows)]
            # coefficients must not depend on the draws
            if any(x.op == "app:z" for r in row for x in T.subterms([r] if isinstance(r, Term) else [])):
                prf.prove(fn, "sample %d uses only its own draws" % d, False)
                return
            prf.prove(fn, "mean plus a fixed linear image of the sample's own draws (%d)" % d,
                      T.eq(v, T.sumt([T.mul(r, z) for r, z in zip(row, zs)])), ex.facts, s.pc)
            A.append([decided(ex, r, tuple(ex.facts)) for r in row])
        for p in range(rows):
            for q in range(p + 1):
                prf.prove(fn, "map times its transpose is the requested covariance (%d,%d)" % (p, q),
                          T.eq(T.sumt([T.mul(A[p][k], A[q][k]) for k in range(rows)]), eg.P[p][q]), ex.facts, s.pc)
        # nothing else is written
        j, s = forall_index(ex, st, n, "j")
        s = s.fork(T.or_(T.lt(j, lo), T.le(T.add(lo, cnt), j)))
        for d in range(rows):
            v = ex.load(Ptr(a, T.add(T.scale(8 * rows, j), 8 * d)), DBL, s)
            prf.prove(fn, "columns not asked for are untouched (%d)" % d, T.eq(v, T.app("res.old%d" % d, "R", j)), ex.facts, s.pc)


def mixture_samples(prf):
    for f, rows, pat in (("d_gm_sample", 4, r"Gaussian_<4>::sample<"), ("d_gm_sample_pos", 2, r"Gaussian_<4>::sample_pos<")):
        fn = "GM::%s" % f[5:]
        ghost = {}

        def m_sample(c):
            ex, st = c.ex, c.st
            p = c.args[0]
            i, o = ex.split(p.obj, p.off)
            if p.obj is not m.arr or o != 0:
                raise Unsupported("component pointer")
            b = c.args[1]
            d = ex.load(b, PTR, st)
            r, k = ex.load(b.plus(8), I64, st), ex.load(b.plus(16), I64, st)
            if d.obj is not a:
                raise Unsupported("samples go elsewhere")
            first = ex.exact_div(d.off, 8 * rows)
            # instances of: weights are not negative and sum to one; so are their partial sums, and the products with the number of columns
            h, z = T.toreal(n), Fraction(0)
            for q in (-2, -1, 0, 1):
                j = T.add(i, q)
                wj, sj = T.app("m.w", "R", j), T.sum_(T.app("m.w", "R", KVAR), j)
                ex.fact(T.implies(T.and_(T.le(0, j), T.lt(j, m.n)), T.and_(T.le(z, wj), T.le(z, T.mul(h, wj)))))
                ex.fact(T.implies(T.and_(T.le(0, j), T.le(j, m.n)), T.and_(T.le(z, sj), T.le(sj, Fraction(1)), T.le(z, T.mul(h, sj)), T.le(T.mul(h, sj), h))))
                ex.fact(T.implies(T.eq(j, 0), T.eq(sj, z)))
                pv = T.sub(j, 1)
                ex.fact(T.implies(T.le(1, j), T.eq(sj, T.add(T.app("m.w", "R", pv), T.sum_(T.app("m.w", "R", KVAR), pv)))))
            nxt = Ptr(ghost["o"], 0)
            ex.oblige("all rows", T.eq(r, rows), st)
            ex.oblige("columns follow those of the previous component", T.eq(first, ex.load(nxt, I64, st)), st)
            ex.oblige("the number of columns is not negative", T.le(0, k), st)
            ex.oblige("columns exist", T.le(T.add(first, k), n), st)
            ex.store(nxt, I64, T.add(first, k), st)
            W_ = T.sum_(T.app("m.w", "R", KVAR), T.add(i, 1))
            share = T.mul(W_, T.toreal(n))
            end = T.toreal(T.add(first, k))
            ex.oblige("the columns end at the cumulative weight's share, to within half a column",
                      T.or_(T.eq(T.add(i, 1), m.n), T.and_(T.le(T.sub(share, Fraction(1, 2)), end), T.le(end, T.add(share, Fraction(1, 2))))), st)
            return None
        w = W("sampling", [f], stub=[pat], models=[(pat, m_sample, None)])
        ex, st = w.ex()
        m = Mixture(w, ex, st, readonly=True)
        a, n, mo = columns(ex, st, rows)
        ghost["o"] = ex.new_obj(st, "next", 8)
        ex.store(Ptr(ghost["o"], 0), I64, 0, st)
        # weights are not negative and sum to one: neither are their partial sums, nor the products with the number of columns
        ex.fact(T.lt(n, 2 ** 32))
        r, st = ex.call(f, [m.p, Ptr(mo, 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::GM<4>::" + f[5:])
        prf.function("lmb::GM<4>::last_column")
        s = st.fork(T.lt(0, m.n))
        prf.prove(fn, "every column is filled", T.eq(ex.load(Ptr(ghost["o"], 0), I64, s), n), ex.facts, s.pc)
