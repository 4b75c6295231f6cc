"""Shared parts of the proof scripts: set-up of symbolic objects with the layouts the compiler reports."""
import os
import re
from fractions import Fraction
from vc import terms as T, poly, smt
from vc.terms import Term, KVAR
from vc.build import Unit, VERIF, BuildError
from vc.exec import Ex, State, Ptr, Obj, UNDEF, Unsupported, Dead, NULL, GV, DBL, I1, I8, I32, I64, PTR, same, is_scalar
from vc.models import BASE
from vc.proof import Proof

WORK = os.environ.get("CLMB_WORK", "/tmp/clmb-verif.%d" % os.getpid())
_units = {}


def unit(name, **kw):
    k = (name, tuple(sorted(kw.items())))
    if k not in _units:
        _units[k] = Unit(os.path.join(VERIF, "drivers", name + ".cpp"), os.path.join(WORK, "ir"), **kw)
    return _units[k]


class W:
    """one extraction: module, layout constants, execution context"""

    def __init__(self, unitname, roots, stub=(), noinline=(), models=(), opts=None, init=(), also=()):
        """also: patterns of functions that are extracted besides the roots, where they exist (self.find gives their names)"""
        u = self.unit = unit(unitname)
        inits = [n for p in init for n in u.initialisers(p)]
        extra = [d for d in u.dem.values() if any(re.search(p, d) for p in also)]
        self.m = u.extract(["^%s$" % re.escape(r) for r in list(roots) + inits + extra], noinline, stub)
        self.models = list(models) + BASE
        self.opts = opts or {}
        self.inits = inits
        self.off = {}

    def find(self, pattern):
        return [n for n, d in self.unit.dem.items() if re.search(pattern, d)]

    def o(self, name):
        if name not in self.off:
            ty, init, c = self.m.global_init("off_" + name)
            v = init[1] if init[0] == 'c' else 0
            self.off[name] = v
        return self.off[name]

    def size(self, name):
        return self.o("size_" + name)

    def ex(self, **opts):
        e = Ex(self.m, self.models, opts={**self.opts, **opts})
        st = State()
        for n in self.inits:
            _, st = e.call(n, [], st)
        return e, st


# ------------------------------------------------------------------ small matrix algebra over terms
def mat(rows):
    return [list(r) for r in rows]


def mmul(A, B):
    return [[T.sumt([T.mul(A[i][k], B[k][j]) for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def madd(A, B):
    return [[T.add(a, b) for a, b in zip(x, y)] for x, y in zip(A, B)]


def msub(A, B):
    return [[T.sub(a, b) for a, b in zip(x, y)] for x, y in zip(A, B)]


def mscale(k, A):
    return [[T.mul(k, a) for a in x] for x in A]


def tr(A):
    return [list(r) for r in zip(*A)]


def ident(n):
    return [[Fraction(1 if i == j else 0) for j in range(n)] for i in range(n)]


def inv2(A):
    d = T.sub(T.mul(A[0][0], A[1][1]), T.mul(A[0][1], A[1][0]))
    return [[T.div(A[1][1], d), T.neg(T.div(A[0][1], d))], [T.neg(T.div(A[1][0], d)), T.div(A[0][0], d)]], d


def meq(A, B):
    return [T.eq(a, b) for x, y in zip(A, B) for a, b in zip(x, y)]


def vec(ex, st, p, n, stride=8):
    return [ex.load(p.plus(stride * i), DBL, st) for i in range(n)]


def loadm(ex, st, p, r, c):
    """column-major r x c matrix"""
    return [[ex.load(p.plus(8 * (i + r * j)), DBL, st) for j in range(c)] for i in range(r)]


def symm(name, n, idx=None):
    """symmetric matrix of symbols"""
    f = (lambda a: T.sym(a, "R")) if idx is None else (lambda a: T.app(a, "R", idx))
    return [[f("%s%d%d" % (name, min(i, j), max(i, j))) for j in range(n)] for i in range(n)]


def gauss_init(w, name, n, sym=True, idx=None, pre="g", base=0):
    """init function of a Gaussian_<n> at base: x0.., P symmetric, w"""
    ox, oP, ow = base + w.o(pre + "_x"), base + w.o(pre + "_P"), (base + w.o(pre + "_w") if pre == "g" else None)
    f = (lambda a: T.sym(a, "R")) if idx is None else (lambda a: T.app(a, "R", idx))

    def init(off, ty):
        if ty[0] != 'f':
            return None
        if ox <= off < ox + 8 * n:
            return f("%s.x%d" % (name, (off - ox) // 8))
        if oP <= off < oP + 8 * n * n:
            k = (off - oP) // 8
            i, j = k % n, k // n
            if sym:
                i, j = min(i, j), max(i, j)
            return f("%s.P%d%d" % (name, i, j))
        if off == ow:
            return f("%s.w" % name)
        return None
    return init


def gvals(name, n, idx=None):
    f = (lambda a: T.sym(a, "R")) if idx is None else (lambda a: T.app(a, "R", idx))
    x = [f("%s.x%d" % (name, i)) for i in range(n)]
    P = symm(name + ".P", n, idx)
    return x, P, f(name + ".w")


def new_gauss(w, ex, st, name="g", n=4):
    return ex.new_obj(st, name, w.size("g"), lazy=True, init=gauss_init(w, name, n))


def new_report(w, ex, st, name="z"):
    g = gauss_init(w, name, 2, pre="r")

    def init(off, ty):
        v = g(off, ty)
        if v is None and off == w.o("r_kappa"):
            return T.sym(name + ".kappa", "R")
        if v is None and off == w.o("r_rB"):
            return T.sym(name + ".rB", "R")
        if v is None and off == w.o("r_cid"):
            return T.sym(name + ".cid", "I", 0)
        return v
    return ex.new_obj(st, name, w.size("r"), lazy=True, init=init)


def new_params(w, ex, st, name="params"):
    names = {w.o("p_" + k): k for k in ("w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale")}
    return ex.new_obj(st, name, w.size("p"), lazy=True, readonly=True,
                      init=lambda off, ty: T.sym("par." + names[off], "R") if off in names else None)


def new_sensor(w, ex, st, name="s"):
    names = {w.o("s_lambdaB"): "lambdaB", w.o("s_pD"): "pD", w.o("s_kappa"): "kappa"}

    def init(off, ty):
        if off in names:
            return T.sym(name + "." + names[off], "R")
        if w.o("s_fov") <= off < w.o("s_fov") + 64:
            return T.sym("%s.fov%d" % (name, (off - w.o("s_fov")) // 8), "R")
        if w.o("s_pv") <= off < w.o("s_pv") + 32:
            k = (off - w.o("s_pv")) // 8
            i, j = k % 2, k // 2
            return T.sym("%s.pv%d%d" % (name, min(i, j), max(i, j)), "R")
        return None
    return ex.new_obj(st, name, w.size("s"), lazy=True, readonly=True, init=init)


class Mixture:
    """a GM object with n (symbolic) components in an array object"""

    def __init__(self, w, ex, st, name="m", n=None, cap=None, params=None, base=None, nst=4, readonly=False):
        self.w, self.name, self.nst = w, name, nst
        self.n = T.sym(name + ".n", "I", 0) if n is None else n
        ex.fact(T.le(0, self.n))
        self.cap = self.n if cap is None else cap
        sg = w.size("g")
        ox, oP, ow = w.o("g_x"), w.o("g_P"), w.o("g_w")
        self.arr = Obj(name + ".c", None, kind="array", stride=sg, length=self.n, readonly=readonly)
        self.arr.elem = lambda i, f, ty: gauss_init(w, name, nst, idx=i)(f, ty)
        self.arr.meta["fields"] = [(ox + 8 * i, 8, DBL) for i in range(nst)] + \
            [(oP + 8 * i, 8, DBL) for i in range(nst * nst)] + [(ow, 8, DBL)]
        st.wos(self.arr)
        self.params = params
        if base is None:
            self.obj = ex.new_obj(st, name, w.size("pdf"), lazy=True, init=self.cell, readonly=readonly)
            self.p = Ptr(self.obj, 0)
        else:
            self.p = base
            self.obj = base.obj

    def cell(self, off, ty, base=0):
        w = self.w
        c = w.o("pdf_c")
        off = off - base
        if off == c:
            return Ptr(self.arr, 0)
        if off == c + 8:
            return Ptr(self.arr, T.scale(w.size("g"), self.n))
        if off == c + 16:
            return Ptr(self.arr, T.scale(w.size("g"), self.cap))
        if off == w.o("pdf_params"):
            return Ptr(self.params, 0) if self.params is not None else None
        if off == w.o("pdf_eta"):
            return T.sym(self.name + ".eta", "R")
        if w.o("pdf_origin") <= off < w.o("pdf_origin") + 16:
            return T.sym("%s.origin%d" % (self.name, (off - w.o("pdf_origin")) // 8), "R")
        return None

    def g(self, i):
        """initial component i"""
        return gvals(self.name, self.nst, i)

    def now(self, ex, st, i):
        """current component i"""
        w = self.w
        b = T.scale(w.size("g"), i)
        p = Ptr(self.arr, b)
        x = [ex.load(p.plus(w.o("g_x") + 8 * k), DBL, st) for k in range(self.nst)]
        P = [[ex.load(p.plus(w.o("g_P") + 8 * (r + self.nst * c)), DBL, st) for c in range(self.nst)] for r in range(self.nst)]
        return x, P, ex.load(p.plus(w.o("g_w")), DBL, st)

    def count(self, ex, st):
        """current number of components (vector end - begin, in elements); None when not one array"""
        c = self.w.o("pdf_c")
        b = ex.load(self.p.plus(c), PTR, st)
        e = ex.load(self.p.plus(c + 8), PTR, st)
        return b, e


def forall_index(ex, st, n, name="i"):
    """fresh index 0 <= i < n; -> (i, state with the assumption)"""
    i = T.fresh(name, "I", 0)
    s = st.fork(T.and_(T.le(0, i), T.lt(i, n)))
    return i, s


# ------------------------------------------------------------------ facts about minimum / maximum folds
_att = {}


def folds(ts):
    return [x for x in T.subterms([t for t in ts if isinstance(t, Term)]) if x.op in ("minf", "maxf")]


def attained(ts):
    """the (skolem) index at which each fold is attained when it is not attained by its initial value"""
    return [_att.setdefault(f.id, T.fresh("att", "I", 0)) for f in folds(ts)]


def fold_facts(ts, idx, n):
    """minf(i, e, n) <= i, <= e(j) for 0 <= j < n, and = i or = e(j*) for some 0 <= j* < n (maxf: dually)"""
    out = []
    for f in folds(ts):
        init, body, m = f.args
        le = T.le if f.op == "minf" else (lambda a, b: T.le(b, a))
        at = attained([f])[0]
        el = lambda i: T.subst(body, {KVAR: i}) if isinstance(body, Term) else body
        out.append(le(f, init))
        for i in list(idx) + [at]:
            out.append(T.implies(T.and_(T.le(0, i), T.lt(i, m)), le(f, el(i))))
        out.append(T.or_(T.eq(f, init), T.and_(T.le(0, at), T.lt(at, m), T.eq(f, el(at)))))
    return out
