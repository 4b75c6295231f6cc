"""C06: enumeration of assignments in order of cost (murty.hpp), for matrices of any size"""
from .lib import *
from .p_assign import Asg, View, rd, fa, settle, pigeonhole, stem, infinite, signed, answer, AND, OR, NOT, IMP, EQ, LE, LT, ADD, SUB, ITE
from vc.loops import Tmpl, changed_cells
from vc import smt, mats
from vc.mats import INFINITE

Z = Fraction(0)


def header(st, nm, *cells):
    o = Obj(nm, 8 * len(cells))
    st.wos(o).cells.update({8 * k: (8, v) for k, v in enumerate(cells)})
    return o


def allbut(prf):
    """the matrix without a row and a column"""
    for one in (False, True):
        fn = "lap::allbut (%s)" % ("matrix of one row" if one else "matrix")
        R, N, row, col = 1 if one else T.sym("rows", "I", 0), T.sym("cols", "I", 0), T.sym("row", "I", 0), T.sym("col", "I", 0)
        got = {}

        def alloc(c, size):
            if T.eq(size, T.scale(8, T.mul(SUB(R, 1), SUB(N, 1)))) is True and not got:
                o = got["to"] = mats.new(c.ex, c.st, "to", SUB(N, 1), SUB(R, 1), fast=SUB(N, 1))
                return Ptr(o, 0)
            raise Unsupported("allocation of %s" % T.show(size))
        w = W("murty", ["d_allbut"])
        ex, st = w.ex(alloc=alloc, branch_prune=True)
        for c in (LE(1 if one else 2, R), LE(R, N), LT(row, R), LT(col, N), LE(0, row), LE(0, col), LT(R, 1 << 31), LT(N, 1 << 31)):
            ex.fact(c)
        mat = mats.new(ex, st, "C", N, R, fast=N)
        mat.readonly = True
        mats.setcontent(mat, st, T.app("C", "R", T.SV, T.FV))
        frm, to = header(st, "from", Ptr(mat, 0), R, N), header(st, "to", NULL, 0, 0)
        r, st = ex.call("d_allbut", [Ptr(frm, 0), Ptr(to, 0), row, col], st)
        prf.take(ex, fn)
        c = st.os(to).cells
        i, j = T.sym("i", "I", 0), T.sym("j", "I", 0)
        P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
        P("one row and one column less", AND(EQ(c[8][1], SUB(R, 1)), EQ(c[16][1], SUB(N, 1))))
        if not one:
            P("its own memory", same(c[0][1], Ptr(got["to"], 0)))
            v = mats.at(ex, got["to"], j, i, st)
            P("the other entries", IMP(AND(LT(i, SUB(R, 1)), LT(j, SUB(N, 1))), EQ(v, T.app("C", "R", ITE(LT(i, row), i, ADD(i, 1)), ITE(LT(j, col), j, ADD(j, 1))))))
        prf.reachable(fn, ex.facts, list(st.pc))
    prf.function("lap::allbut (matrix)")


def allbut_vector(prf):
    """a vector without an element"""
    for what, root, cells in (("column vector", "d_allbut_row", 2), ("row vector", "d_allbut_col", 3)):
      for one in (False, True):
        fn = "lap::allbut (%s%s)" % (what, " of one element" if one else "")
        n, k, i = 1 if one else T.sym("n", "I", 0), T.sym("k", "I", 0), T.sym("i", "I", 0)
        A = Asg(n, n)

        def alloc(c, size):
            if T.eq(size, T.scale(8, SUB(n, 1))) is True and "to" not in A.arr:
                return Ptr(A.array(c.ex, c.st, "to", SUB(n, 1), "R"), 0)
            raise Unsupported("allocation of %s" % T.show(size))
        w = W("murty", [root])
        ex, st = w.ex(alloc=alloc, branch_prune=True)
        for c in (LE(1 if one else 2, n), LT(k, n), LT(n, 1 << 31)):
            ex.fact(c)
        a = A.array(ex, st, "from", n, "R", lambda i, f, ty: T.app("x", "R", i))
        a.readonly = True
        frm, to = header(st, "from header", Ptr(a, 0), n), header(st, "to header", NULL, 0)
        r, st = ex.call(root, [Ptr(frm, 0), Ptr(to, 0), k], st)
        prf.take(ex, fn)
        c = st.os(to).cells
        P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
        P("one element less", EQ(c[8][1], SUB(n, 1)))
        if not one:
            P("its own memory", same(c[0][1], Ptr(A.arr["to"][0], 0)))
            P("the other elements", IMP(LT(i, SUB(n, 1)), EQ(rd(st, A.arr["to"][0], "R")(i), T.app("x", "R", ITE(LT(i, k), i, ADD(i, 1))))))
        prf.function("lap::allbut (%s)" % what)
        prf.reachable(fn, ex.facts, list(st.pc))


class Node:
    """a MurtyState in memory: its object, the functions and numbers it holds"""
    ARR = (("u", "R"), ("v", "R"), ("solution", "I"), ("res", "I"), ("rmap", "I"), ("cmap", "I"))

    def __init__(self, w, nm, R=None, N=None, R0=None):
        self.w, self.nm = w, nm
        self.R, self.N, self.R0 = [T.sym(n, "I", 0) if x is None else x for x, n in ((R, "rows"), (N, "cols"), (R0, "all rows"))]
        self.len = {"u": self.R, "v": self.N, "solution": self.R0, "res": self.R, "rmap": self.R, "cmap": self.N}
        self.C = lambda i, j: T.app(nm + "C", "R", i, j)
        self.f = {a: (lambda i, a=a, s=s: T.app(nm + a, s, i)) for a, s in self.ARR}
        self.cost, self.bound = T.sym(nm + "cost", "R"), T.sym(nm + "boundcost", "R")

    def put(self, ex, st, solved=False, readonly=True):
        """into memory"""
        w = self.w
        self.mat = mats.new(ex, st, self.nm + "C", self.N, self.R, fast=self.N)
        self.mat.readonly = readonly
        mats.setcontent(self.mat, st, self.C(T.SV, T.FV))
        o = self.obj = Obj(self.nm, w.size("m"))
        o.readonly = readonly
        cells = {}

        def at(f, *vals):
            for k, v in enumerate(vals):
                cells[w.o("m_" + f) + 8 * k] = (8, v)
        at("C", Ptr(self.mat, 0), self.R, self.N)
        self.arr = {}
        for a, s in self.ARR:
            n, f = self.len[a], self.f[a]
            x = self.arr[a] = Obj(self.nm + a, None, kind="array", stride={"I": 4, "R": 8}[s], length=n)
            x.elem = lambda i, fo, ty, f=f: f(i)
            x.meta["fields"] = [(0, x.stride, I32 if s == "I" else DBL)]
            x.readonly = readonly
            st.wos(x)
            e = Ptr(x, T.scale(x.stride, n))
            at(a, *((Ptr(x, 0), e, e) if a in ("rmap", "cmap") else (Ptr(x, 0), n)))
        at("cost", self.cost)
        at("boundcost", self.bound)
        cells[w.o("m_solved")] = (1, 1 if solved else 0)
        st.wos(o).cells.update(cells)
        return Ptr(o, 0)


class Read:
    """what a MurtyState in memory holds"""

    def __init__(self, w, ex, st, o):
        self.w, self.ex, self.st, self.o = w, ex, st, o
        self.cost, self.bound = self.num("cost", DBL), self.num("boundcost", DBL)
        self.solved = self.num("solved", I8)

    def num(self, f, ty=I64, k=0):
        return self.ex.load(Ptr(self.o, self.w.o("m_" + f) + 8 * k), ty, self.st)

    def dims(self):
        return self.num("C", I64, 1), self.num("C", I64, 2)

    def C(self, i, j):
        p = self.num("C", PTR)
        if p.off != 0 or p.obj.meta["fast"] is not self.dims()[1] and T.eq(p.obj.meta["fast"], self.dims()[1]) is not True:
            raise Unsupported("matrix of another layout")
        return mats.at(self.ex, p.obj, j, i, self.st)

    def array(self, f, sort):
        """(length, elements)"""
        p = self.num(f, PTR)
        if p.off != 0:
            raise Unsupported("array not from its start")
        if f in ("rmap", "cmap"):
            e = self.num(f, PTR, 1)
            if e.obj is not p.obj:
                raise Unsupported("end of another array")
            n = mats.flat_index(e.off, 4)
        else:
            n = self.num(f, I64, 1)
        return n, rd(self.st, p.obj, sort)


def ints(ex, st, nm, n):
    a = Obj(nm, None, kind="array", stride=4, length=n)
    a.elem = lambda i, f, ty: UNDEF
    a.meta["fields"] = [(0, 4, I32)]
    st.wos(a)
    return a


def child(prf):
    """MurtyState(const MurtyState*): costs, maps and solution copied, no matrix"""
    fn = "lap::MurtyState::MurtyState (from another)"
    i = T.sym("i", "I", 0)

    def alloc(c, size):
        return Ptr(ints(c.ex, c.st, "copy", mats.flat_index(size, 4)), 0)
    w = W("murty", ["d_child"])
    ex, st = w.ex(alloc=alloc, branch_prune=True)
    s = Node(w, "s.")
    for c in (LE(1, s.R), LE(1, s.N), LE(1, s.R0), LT(s.N, 1 << 31), LT(s.R0, 1 << 31), LE(s.R, s.R0)):
        ex.fact(c)
    p = s.put(ex, st)
    o = Obj("child", w.size("m"))
    st.wos(o)
    r, st = ex.call("d_child", [Ptr(o, 0), p], st)
    prf.take(ex, fn)
    B = Read(w, ex, st, o)
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
    P("costs copied", AND(EQ(B.cost, s.cost), EQ(B.bound, s.bound)))
    P("not solved", EQ(B.solved, 0))
    for f in ("solution", "rmap", "cmap"):
        n, e = B.array(f, "I")
        P("%s copied" % f, AND(EQ(n, s.len[f]), IMP(LT(i, s.len[f]), EQ(e(i), s.f[f](i)))))
    P("no matrix yet", AND(*[EQ(x, 0) for x in B.dims()], EQ(B.num("u", I64, 1), 0), EQ(B.num("v", I64, 1), 0)))
    prf.function("lap::MurtyState::MurtyState(const MurtyState*)")
    prf.reachable(fn, ex.facts, list(st.pc))


# ---------------------------------------------------------------- contracts of what the states are made with
def fields(w, st, o, f, *vals):
    for k, v in enumerate(vals):
        st.wos(o).cells[w.o("m_" + f) + 8 * k] = (8, v)


def new_child(w, c, src, nm):
    """contract of MurtyState(const MurtyState*)"""
    ex, st = c.ex, c.st
    o = Obj(nm, w.size("m"))
    st.wos(o)
    for f, n in (("C", 2), ("u", 1), ("v", 1), ("res", 1)):
        fields(w, st, o, f, NULL, *[0] * n)
    S = Read(w, ex, st.fork(), src.obj)
    fields(w, st, o, "cost", S.cost)
    fields(w, st, o, "boundcost", S.bound)
    st.wos(o).cells[w.o("m_solved")] = (1, 0)
    for f in ("solution", "rmap", "cmap"):
        n, e = S.array(f, "I")
        a = ints(ex, st, nm + f, n)
        a.elem = lambda i, fo, ty, e=e: e(i)
        end = Ptr(a, T.scale(4, n))
        fields(w, st, o, f, *((Ptr(a, 0), n) if f == "solution" else (Ptr(a, 0), end, end)))
    return o


def m_allbut(c):
    frm, to, row, col = c.args
    ex, st = c.ex, c.st
    p, R, N = (ex.load(frm.plus(8 * k), ty, st) for k, ty in ((0, PTR), (1, I64), (2, I64)))
    ex.oblige("allbut: row and column of the matrix", AND(LE(0, row), LT(row, R), LE(0, col), LT(col, N), LE(R, N)), st)
    ex.oblige("allbut: into a matrix without entries", AND(*[EQ(ex.load(to.plus(k), I64, st), 0) for k in (8, 16)]), st)
    if p.off != 0 or p.obj.meta["fast"] is not N:
        raise Unsupported("allbut: matrix of another layout")
    o = mats.new(ex, st, "less", SUB(N, 1), SUB(R, 1), fast=SUB(N, 1))
    mats.setcontent(o, st, T.subst(mats.content(p.obj, st), {T.SV: ITE(LT(T.SV, row), T.SV, ADD(T.SV, 1)), T.FV: ITE(LT(T.FV, col), T.FV, ADD(T.FV, 1))}))
    for k, ty, v in ((0, PTR, Ptr(o, 0)), (8, I64, SUB(R, 1)), (16, I64, SUB(N, 1))):
        ex.store(to.plus(k), ty, v, st)


def m_allbut_vector(c):
    frm, to, k = c.args
    ex, st = c.ex, c.st
    p, n = ex.load(frm, PTR, st), ex.load(frm.plus(8), I64, st)
    ex.oblige("allbut: element of the vector", AND(LE(0, k), LT(k, n)), st)
    ex.oblige("allbut: into a vector without elements", EQ(ex.load(to.plus(8), I64, st), 0), st)
    f = rd(st.fork(), p.obj, "R")
    a = Obj("less", None, kind="array", stride=8, length=SUB(n, 1))
    a.elem = lambda i, fo, ty: f(ITE(LT(i, k), i, ADD(i, 1)))
    a.meta["fields"] = [(0, 8, DBL)]
    st.wos(a)
    ex.store(to, PTR, Ptr(a, 0), st)
    ex.store(to.plus(8), I64, SUB(n, 1), st)


MAKE, SHARED = r"std::make_shared<lap::MurtyState", "a shared pointer owns the object made for it, copies refer to the same one"
PTRS = [MAKE, r"^std::shared_ptr<lap::MurtyState>::(~?)shared_ptr", r"^std::shared_ptr<lap::MurtyState>::operator="]


def shared(w, made):
    """contracts of the shared pointers: two words, the first is the object"""
    ctl = Obj("count of owners", 16)

    def set_(c, p, v):
        c.ex.store(p, PTR, v, c.st)
        c.ex.store(p.plus(8), PTR, NULL if v is NULL else Ptr(ctl, 0), c.st)

    def make(c):
        src = c.ex.load(c.args[1], PTR, c.st)
        o = new_child(w, c, src, "child%d" % len(made))
        made.append(o)
        set_(c, c.args[0], Ptr(o, 0))

    def copy(c):
        set_(c, c.args[0], c.ex.load(c.args[1], PTR, c.st))
        return c.args[0]

    def move(c):
        v = c.ex.load(c.args[1], PTR, c.st)
        set_(c, c.args[1], NULL)
        set_(c, c.args[0], v)
        return c.args[0]
    return [(MAKE, make, "make_shared constructs one object"), (r"^std::shared_ptr<lap::MurtyState>::~shared_ptr", lambda c: None, SHARED),
            (r"^std::shared_ptr<lap::MurtyState>::shared_ptr\(\)", lambda c: set_(c, c.args[0], NULL), SHARED),
            (r"^std::shared_ptr<lap::MurtyState>::(shared_ptr|operator=)\(std::shared_ptr<lap::MurtyState> const&\)", copy, SHARED),
            (r"^std::shared_ptr<lap::MurtyState>::(shared_ptr|operator=)\(std::shared_ptr<lap::MurtyState>&&\)", move, SHARED)]



def child_of(prf, root, extra, solved_before):
    """run partition_with or partition_without on any state -> (parent, child as read, ex, st)"""
    made = []
    w = W("murty", [root], stub=PTRS + ["^lap::allbut"])
    w.models = shared(w, made) + [(r"^lap::allbut\(Eigen::Matrix<double, -1, -1", m_allbut, None), (r"^lap::allbut\(Eigen::Matrix<double, -1, 1", m_allbut_vector, None)] + w.models

    def alloc(c, size):
        # the copy of a matrix or vector
        n = mats.flat_index(size, 8)
        if T.eq(n, T.mul(s.R, s.N)) is True:
            return Ptr(mats.new(c.ex, c.st, "copy", s.N, s.R, fast=s.N), 0)
        a = Obj("copy", None, kind="array", stride=8, length=n)
        a.elem = lambda i, f, ty: UNDEF
        a.meta["fields"] = [(0, 8, DBL)]
        c.st.wos(a)
        return Ptr(a, 0)
    ex, st = w.ex(alloc=alloc, branch_prune=True, infinite=lambda t: None)
    s = Node(w, "s.")
    i0, j0 = T.sym("i0", "I", 0), T.sym("j0", "I", 0)
    for c in (LE(1, s.R), LE(s.R, s.N), LE(s.R, s.R0), LT(s.N, 1 << 31), LT(s.R0, 1 << 31), LT(i0, s.R), LT(j0, s.N)):
        ex.fact(c)
    p = s.put(ex, st, solved=True)
    r = header(st, "result", NULL, NULL)
    _, st = ex.call(root, [p, i0, j0] + extra + [Ptr(r, 0)], st)
    o = ex.load(Ptr(r, 0), PTR, st)
    if o.off != 0 or made != [o.obj]:
        raise Unsupported("not one state made and returned")
    return s, i0, j0, Read(w, ex, st, o.obj), ex, st


def partition_with(prf):
    fn = "lap::MurtyState::partition_with"
    s, i0, j0, B, ex, st = child_of(prf, "d_with", [], True)
    prf.take(ex, fn)
    i, j = T.sym("i", "I", 0), T.sym("j", "I", 0)
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
    R1, N1 = SUB(s.R, 1), SUB(s.N, 1)
    up = lambda k, k0: ITE(LT(k, k0), k, ADD(k, 1))
    P("cost as before, bound by the entry", AND(EQ(B.cost, s.cost), EQ(B.bound, ADD(s.bound, s.C(i0, j0)))))
    P("not solved", EQ(B.solved, 0))
    P("one row and one column less", AND(EQ(B.dims()[0], R1), EQ(B.dims()[1], N1)))
    P("the other entries", IMP(AND(LT(i, R1), LT(j, N1)), EQ(B.C(i, j), s.C(up(i, i0), up(j, j0)))))
    for f, sort, n, k0 in (("u", "R", R1, i0), ("v", "R", N1, j0), ("rmap", "I", R1, i0), ("cmap", "I", N1, j0)):
        m, e = B.array(f, sort)
        P("%s: the others" % f, AND(EQ(m, n), IMP(LT(i, n), EQ(e(i), s.f[f](up(i, k0))))))
    m, e = B.array("solution", "I")
    P("solution as before", AND(EQ(m, s.R0), IMP(LT(i, s.R0), EQ(e(i), s.f["solution"](i)))))
    prf.function(fn)
    prf.reachable(fn, ex.facts, list(st.pc))


def partition_without(prf):
    fn = "lap::MurtyState::partition_without"
    d = T.sym("dual", "R")
    s, i0, j0, B, ex, st = child_of(prf, "d_without", [d], True)
    prf.take(ex, fn)
    i, j = T.sym("i", "I", 0), T.sym("j", "I", 0)
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
    P("cost more by the dual", AND(EQ(B.cost, ADD(s.cost, d)), EQ(B.bound, s.bound)))
    P("not solved", EQ(B.solved, 0))
    P("as many rows and columns", AND(EQ(B.dims()[0], s.R), EQ(B.dims()[1], s.N)))
    P("the entry infinite, the others as before", IMP(AND(LT(i, s.R), LT(j, s.N)), EQ(B.C(i, j), ITE(AND(EQ(i, i0), EQ(j, j0)), INFINITE, s.C(i, j)))))
    for f, sort in (("u", "R"), ("v", "R"), ("rmap", "I"), ("cmap", "I"), ("solution", "I")):
        m, e = B.array(f, sort)
        P("%s as before" % f, AND(EQ(m, s.len[f]), IMP(LT(i, m), EQ(e(i), s.f[f](i)))))
    prf.function(fn)
    prf.function("lap::MurtyState::remove")
    prf.reachable(fn, ex.facts, list(st.pc))


def less(prf):
    """the order of the queue: by cost, then by size"""
    fn = "lap::MurtyStatePtrCompare"
    w = W("murty", ["d_less"])
    ex, st = w.ex()
    a, b = Node(w, "a."), Node(w, "b.", T.sym("b.rows", "I", 0))
    pa, pb = (header(st, n.nm + "pointer", n.put(ex, st), NULL) for n in (a, b))
    r, st = ex.call("d_less", [Ptr(pa, 0), Ptr(pb, 0)], st)
    prf.take(ex, fn)
    prf.prove(fn, "the cheaper one comes first", AND(IMP(LT(b.cost, a.cost), r), IMP(LT(a.cost, b.cost), NOT(r))), ex.facts, st.pc)
    # what a priority queue needs of it, for any three states
    f = lambda ca, ra, cb, rb: T.subst(r, {a.cost: ca, a.R: ra, b.cost: cb, b.R: rb}) if isinstance(r, Term) else r
    c, n = [T.sym("c%d" % k, "R") for k in range(3)], [T.sym("n%d" % k, "I") for k in range(3)]
    l = lambda x, y: f(c[x], n[x], c[y], n[y])
    prf.prove(fn, "strict weak order", AND(NOT(l(0, 0)), IMP(AND(l(0, 1), l(1, 2)), l(0, 2)), IMP(AND(NOT(l(0, 1)), NOT(l(1, 0)), NOT(l(1, 2)), NOT(l(2, 1))), AND(NOT(l(0, 2)), NOT(l(2, 0))))), ex.facts, st.pc)
    prf.function("lap::MurtyStatePtrCompare::operator()")


def partition_index(prf):
    """the row and the column where an entry is after those of the entries before it have been removed"""
    fn = "lap::Murty::get_partition_index"
    w = W("murty", ["d_index"])
    ex, st = w.ex(branch_prune=True)
    A = Asg(1, 1)
    n, k = T.sym("entries", "I", 0), T.sym("k", "I", 0)
    for c in (LT(k, n), LT(n, 1 << 31)):
        ex.fact(c)
    l = duallist(A, ex, st, n)
    A.dl.readonly = True
    f = lambda nm: (lambda i: T.app(nm + ".0", "I", i))
    col, row = f("col"), f("row")
    st.assume(A.token([fa(lambda i: AND(LE(0, col(i)), LT(col(i), 1 << 31), LE(0, row(i)), LT(row(i), 1 << 31)), 1)]))
    ex.fact(AND(LE(0, col(k)), LT(col(k), 1 << 31), LE(0, row(k)), LT(row(k), 1 << 31)))
    io = [header(st, nm, 0) for nm in ("i", "j")]
    for nm, o in zip("ij", io):
        st.wos(o).cells[0] = (4, T.sym("old " + nm, "I"))
        A.cells["c" + nm] = (o, 0, 4, "I")
    cnt = lambda nm, m, t: T.app("below." + nm, "I", m, t)      # how many of the first m have a number below t
    for nm, e in (("row", row), ("col", col)):
        ex.fact(EQ(cnt(nm, 0, e(k)), 0))

    def handler(ex, fr, h, body, s0, phis):
        def parts(V):
            return [("counter", lambda: AND(LE(0, V.pp), LE(V.pp, k)), 0),
                    ("row", lambda: EQ(V.ci, SUB(row(k), cnt("row", V.pp, row(k)))), 0), ("column", lambda: EQ(V.cj, SUB(col(k), cnt("col", V.pp, col(k)))), 0)]

        def facts(V, s):
            for nm, e in (("row", row), ("col", col)):
                s.assume(EQ(cnt(nm, ADD(V.pp, 1), e(k)), ADD(cnt(nm, V.pp, e(k)), ITE(LT(e(V.pp), e(k)), 1, 0))))
                s.assume(AND(LE(0, e(V.pp)), LT(e(V.pp), 1 << 31)))
        return A.loop(ex, fr, h, body, s0, phis, "entries before", {"pp": "I"}, ["ci", "cj"], {}, parts, facts=facts, variant=lambda V: SUB(k, V.pp))
    ex.loop_specs = {(r".*", None): handler}
    m = Obj("enumeration", 40)
    m.readonly = True
    st.wos(m)
    r, st = ex.call("d_index", [Ptr(m, 0), l, Ptr(A.dl, T.scale(16, k)), Ptr(io[0], 0), Ptr(io[1], 0)], st)
    settle(prf, A, ex, fn)
    pc = [A.expand(x) for x in st.pc]
    for nm, o, e in (("row", io[0], row), ("column", io[1], col)):
        prf.prove(fn, "%s less those before" % nm, EQ(st.os(o).cells[0][1], SUB(e(k), cnt(nm[:3], k, e(k)))), ex.facts, pc)
    prf.function(fn)
    prf.reachable(fn, ex.facts, list(st.pc))


def duallist(A, ex, st, n, init=True):
    """a vector of (dual, row, column)"""
    d = A.dl = Obj("list", None, kind="array", stride=16, length=n)
    names = {0: ("col", "I"), 4: ("row", "I"), 8: ("dual", "R")}
    d.elem = (lambda i, f, ty: T.app(names[f][0] + ".0", names[f][1], i)) if init else (lambda i, f, ty: UNDEF)
    d.meta["fields"] = [(0, 4, I32), (4, 4, I32), (8, 8, DBL)]
    st.wos(d)
    for f, (nm, s) in names.items():
        A.arr[nm] = (d, s, f)
    e = Ptr(d, T.scale(16, n))
    return Ptr(header(st, "list header", Ptr(d, 0), e, e), 0)


def entries(A, nm="s."):
    """the hook: which entries are infinite; which prices (settled rows and columns: A.Wr, A.Wc), which duals"""
    A.fin = lambda i, j: T.app("finite", "B", i, j)

    def base(t):
        f = t.op[4:] if t.op.startswith("app:") else ""
        k = f[len(nm):] if f.startswith(nm) else f
        if f == nm + "C":
            return (NOT(A.fin(*t.args)), False)
        if k == "u" or k.startswith("u."):
            return (T.app("plus infinity: " + f, "B", *t.args), False)
        if k == "v" or k.startswith("v."):
            return (False, T.app("minus infinity: " + f, "B", *t.args))
        if f.startswith("dual."):
            return (T.app("inf" + t.op[4:], "B", *t.args), False)
        return (False, False)
    A.ext = signed(base)
    A.isinf = lambda t: A.ext(t)[0]


def sort_by_dual(prf):
    """for every row the smallest reduced cost among the other finite entries"""
    fn = "lap::MurtyState::sort_by_dual"
    SORT = "^void std::(stable_)?sort<"
    A = Asg(T.sym("rows", "I", 0), T.sym("cols", "I", 0))
    entries(A)
    got = {}

    def alloc(c, size):
        if T.eq(size, T.scale(16, A.R)) is True and "dual" not in A.arr:
            duallist(A, c.ex, c.st, A.R, False)
            return Ptr(A.dl, 0)
        raise Unsupported("allocation of %s" % T.show(size))

    def m_sort(c):
        ex, st = c.ex, c.st
        p = [ex.load(x, PTR, st) if isinstance(x, Ptr) and x.obj is not A.dl else x for x in c.args[:2]]
        o = sorted(p, key=lambda q: 0 if T.eq(q.off, 0) is True else 1)
        if any(q.obj is not A.dl for q in p) or T.eq(o[0].off, 0) is not True:
            raise Unsupported("sorting something else")
        ex.oblige("all of the list is sorted", EQ(o[1].off, T.scale(16, A.R)), st)
        V = got["before"] = A.view(st.fork(), {}, dict(A.gh))
        A.havoc(st, ["col", "row", "dual"])
        B = A.view(st.fork(), {}, {})
        pi, inv = (lambda i: T.app("sorted", "I", i)), (lambda i: T.app("place", "I", i))
        A.gh.update(pi=pi, inv=inv)
        st.wos(A.dl).log = (("map", 0, A.dl.length, {f: (n, Tmpl(getattr(V, nm)(pi(KVAR)))) for nm, f, n in (("col", 0, 4), ("row", 4, 4), ("dual", 8, 8))}),)
        st.assume(A.token([fa(lambda i: IMP(A.row(i), AND(A.row(pi(i)), EQ(inv(pi(i)), i), A.row(inv(i)), EQ(pi(inv(i)), i))), 1)]))
        return None
    w = W("murty", ["d_sort"], stub=[SORT], models=[(SORT, m_sort, "std::sort permutes the range it is given")])
    ex, st = w.ex(alloc=alloc, branch_prune=True, extended=A.ext)
    s = Node(w, "s.")
    A.R, A.N = s.R, s.N
    for c in (LE(1, s.R), LE(s.R, s.N), LE(s.R, s.R0), LT(s.N, 1 << 31), LT(s.R0, 1 << 31)):
        ex.fact(c)
    p = s.put(ex, st, solved=True)
    res, u, v = (s.f[x] for x in ("res", "u", "v"))
    st.assume(A.token([fa(lambda i: IMP(AND(LE(0, i), LT(i, s.R)), AND(LE(0, res(i)), LT(res(i), s.N))), 1)]))
    red = lambda i, j: SUB(SUB(s.C(i, j), u(i)), v(j))
    inrow, incol = (lambda i: AND(LE(0, i), LT(i, s.R))), (lambda j: AND(LE(0, j), LT(j, s.N)))
    st.assume(A.token([fa(lambda i, j: IMP(AND(inrow(i), incol(j), A.fin(i, j), A.pinf(u(i))), A.ninf(v(j))), 2)]))      # settled rows have finite entries in settled columns only (contract of lap: answer)
    other = lambda i, j: AND(A.fin(i, j), NOT(EQ(j, res(i))), NOT(A.pinf(u(i))), NOT(A.ninf(v(j))))                   # entries an assignment may take instead

    def smallest(V, i, upto):
        """what is known of the dual of row i from the columns seen"""
        d = V.dual(i)
        return [lambda j: IMP(AND(LE(0, j), LT(j, upto), other(i, j)), AND(NOT(A.isinf(d)), LE(d, red(i, j)))),
                lambda: AND(NOT(A.ninf(d)), IMP(NOT(A.isinf(d)), AND(incol(V.wit(i)), other(i, V.wit(i)), EQ(d, red(i, V.wit(i))))))]

    def handler(ex, fr, h, body, s0, phis):
        a = (ex, fr, h, body, s0, phis)
        own = {stem(k) for k in phis if not k.endswith("lcssa")}
        if own == {"i"}:
            def parts(V):
                lo = lambda r: AND(LE(0, r), LT(r, V.i))
                return [("counter", lambda: AND(LE(0, V.i), LE(V.i, s.R)), 0),
                        ("row and column of each entry", lambda r: IMP(lo(r), AND(EQ(V.row(r), r), EQ(V.col(r), res(r)))), 1),
                        ("no reduced cost is smaller", lambda r, j: IMP(lo(r), smallest(V, r, s.N)[0](j)), 2),
                        ("it is a reduced cost", lambda r: IMP(lo(r), smallest(V, r, s.N)[1]()), 1)]
            return A.loop(*a, "rows", {"i": "I"}, ["row", "col", "dual"], {"wit": "I"}, parts, lambda V: {"wit": lambda r: -1}, variant=lambda V: SUB(s.R, V.i))
        if own == {"j"}:
            i = A.stack[-1][1].i
            V0 = A.view(s0.fork(), phis, dict(A.gh))

            def parts(V):
                return [("counter", lambda: AND(LE(0, V.j), LE(V.j, s.N)), 0),
                        ("other rows stay", lambda r: IMP(NOT(EQ(r, i)), AND(A.xsame(V.dual(r), V0.dual(r)), EQ(V.wit(r), V0.wit(r)))), 1),
                        ("row and column stay", lambda r: AND(EQ(V.row(r), V0.row(r)), EQ(V.col(r), V0.col(r))), 1),
                        ("no reduced cost so far is smaller", smallest(V, i, V.j)[0], 1),
                        ("it is a reduced cost", smallest(V, i, V.j)[1], 0)]
            return A.loop(*a, "columns", {"j": "I"}, ["row", "col", "dual"], {"wit": "I"}, parts, lambda V: {}, lambda G, B: {"wit": lambda r: ITE(AND(EQ(r, i), NOT(A.xsame(B.dual(i), G.dual(i)))), G.j, G.wit(r))}, variant=lambda V: SUB(s.N, V.j))
        r = ex.peel(fr, h, body, s0, phis, 10)
        return r if r is not None and r != "long" else ex.summarise(fr, h, body, s0, phis)
    ex.loop_specs = {(r".*", None): handler}
    out = header(st, "result", NULL, NULL, NULL)
    _, st = ex.call("d_sort", [p, Ptr(out, 0)], st)
    settle(prf, A, ex, fn)
    pc = [A.expand(x) for x in st.pc]
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, pc)
    b, e = (ex.load(Ptr(out, 8 * x), PTR, st) for x in (0, 1))
    P("one entry for each row", AND(same(b, Ptr(A.dl, 0)), e.obj is A.dl and EQ(e.off, T.scale(16, s.R))))
    V = A.view(st, {}, A.gh)
    k, j, pi, inv = T.sym("k", "I"), T.sym("j", "I"), A.gh["pi"], A.gh["inv"]
    P("every row once", IMP(inrow(k), AND(inrow(V.row(k)), EQ(V.row(inv(k)), k), EQ(inv(V.row(k)), k))))
    P("its column", IMP(inrow(k), EQ(V.col(k), res(V.row(k)))))
    r, d = V.row(k), V.dual(k)
    P("no reduced cost of another entry that an assignment may take is smaller", IMP(AND(inrow(k), incol(j), other(r, j)), AND(NOT(A.isinf(d)), LE(d, red(r, j)))))
    wit = got["before"].wit
    P("it is infinite, or the reduced cost of one", IMP(AND(inrow(k), NOT(A.isinf(d))), AND(NOT(A.ninf(d)), incol(wit(r)), other(r, wit(r)), EQ(d, red(r, wit(r))))))
    prf.function(fn)
    prf.reachable(fn, ex.facts, list(st.pc))


LAP = "^bool lap::lap<"


def solve(prf):
    """an unsolved state is solved: its matrix by lap::lap, its rows and columns in terms of the whole"""
    fn = "lap::MurtyState::solve"
    A = Asg(1, 1)
    entries(A)
    got = {}

    def alloc(c, size):
        if T.eq(size, T.scale(4, s.R)) is True and "res" not in A.arr:
            return Ptr(A.array(c.ex, c.st, "res", s.R, "I"), 0)
        raise Unsupported("allocation of %s" % T.show(size))

    def m_lap(c):
        ex, st = c.ex, c.st
        mat, x, u, v = c.args
        p, r, n = (ex.load(mat.plus(8 * k), ty, st) for k, ty in ((0, PTR), (1, I64), (2, I64)))
        if p.obj is not s.mat or p.off != 0:
            raise Unsupported("lap: another matrix")
        i, j = T.fresh("i", "I"), T.fresh("j", "I")
        ex.oblige("lap: the matrix of the state", AND(EQ(r, s.R), EQ(n, s.N), IMP(AND(inrow(i), incol(j)), EQ(mats.at(ex, s.mat, j, i, st), s.C(i, j)))), st)
        for q, nm, n in ((x, "res", s.R), (u, "u", s.R), (v, "v", s.N)):
            d, m = ex.load(q, PTR, st), ex.load(q.plus(8), I64, st)
            if d.obj is not A.arr[nm][0] or d.off != 0:
                raise Unsupported("lap: %s" % nm)
            ex.oblige("lap: size of %s" % nm, EQ(m, n), st)
        A.havoc(st, ["res", "u", "v"])
        V = got["V"] = A.view(st.fork(), {}, {})
        ok = got["ok"] = T.fresh("solvable", "B")
        V.gh.update(rowsol=V.res, colsol=lambda j: T.app("taken by", "I", j), rk=lambda j: T.app("rank", "I", j))
        st.assume(A.token([IMP(ok, fa(b, n)) for nm, b, n in answer(A, V)]))      # contract of lap::lap when it says yes (C05)
        return ok
    w = W("murty", ["d_solve"], stub=[LAP], models=[(LAP, m_lap, None)])
    ex, st = w.ex(alloc=alloc, branch_prune=True, extended=A.ext)
    s = Node(w, "s.")
    A.R, A.N, A.C = s.R, s.N, s.C
    for c in (LE(1, s.R), LE(1, s.N), LE(s.R, s.R0), LT(s.N, 1 << 31), LT(s.R0, 1 << 31)):
        ex.fact(c)
    inrow, incol = A.row, A.col
    p = s.put(ex, st, readonly=False)
    for f in ("res",):
        fields(w, st, s.obj, f, NULL, 0)
    for f in ("C", "rmap", "cmap"):
        (s.mat if f == "C" else s.arr[f]).readonly = True
    for f, sort in (("u", "R"), ("v", "R"), ("solution", "I")):
        A.arr[f] = (s.arr[f], sort)
    A.cells["cost"] = (s.obj, w.o("m_cost"), 8, "R")
    rmap, cmap = s.f["rmap"], s.f["cmap"]
    st.assume(A.token([fa(lambda i: IMP(inrow(i), AND(LE(0, rmap(i)), LT(rmap(i), s.R0))), 1), fa(lambda i, k: IMP(AND(inrow(i), inrow(k), EQ(rmap(i), rmap(k))), EQ(i, k)), 2)]))
    S = lambda n: T.app("psum", "R", n)
    ex.fact(EQ(S(0), Z))

    def handler(ex, fr, h, body, s0, phis):
        V0 = A.view(s0.fork(), phis, {})
        res = V0.res

        def parts(V):
            return [("counter", lambda: AND(LE(0, V.i), LE(V.i, s.R)), 0),
                    ("cost so far", lambda: AND(NOT(A.isinf(V.cost)), EQ(V.cost, ADD(s.bound, S(V.i)))), 0),
                    ("columns so far", lambda k: IMP(AND(LE(0, k), LT(k, V.i)), EQ(V.solution(rmap(k)), cmap(res(k)))), 1),
                    ("other rows stay", lambda r: OR(AND(LE(0, back(r)), LT(back(r), V.i), EQ(rmap(back(r)), r)), EQ(V.solution(r), s.f["solution"](r))), 1)]

        def facts(V, s_):
            s_.assume(EQ(S(ADD(V.i, 1)), ADD(S(V.i), s.C(V.i, res(V.i)))))
        return A.loop(ex, fr, h, body, s0, phis, "rows", {"i": "I"}, ["cost", "solution"], {}, parts, facts=facts, variant=lambda V: SUB(s.R, V.i))
    back = lambda r: T.app("row of", "I", r)
    st.assume(A.token([fa(lambda i: IMP(inrow(i), EQ(back(rmap(i)), i)), 1)]))
    ex.loop_specs = {(r".*", None): handler}
    r, st = ex.call("d_solve", [p], st)
    settle(prf, A, ex, fn)
    pc = [A.expand(x) for x in st.pc]
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, pc)
    B, V, ok = Read(w, ex, st, s.obj), got["V"], got["ok"]
    i, k = T.sym("i", "I"), T.sym("k", "I")
    P("says what lap says", T.eq(r, ok))
    P("solved", EQ(B.solved, 1))
    P("cost: that of the bound rows and the entries taken", IMP(ok, AND(NOT(A.isinf(B.cost)), EQ(B.cost, ADD(s.bound, S(s.R))))))
    P("boundcost and matrix as before", AND(EQ(B.bound, s.bound), EQ(B.dims()[0], s.R), EQ(B.dims()[1], s.N)))
    n, sol = B.array("solution", "I")
    P("solution of the rows of the state", AND(EQ(n, s.R0), IMP(AND(ok, inrow(i)), EQ(sol(rmap(i)), cmap(V.res(i))))))
    P("solution of the other rows as before", IMP(NOT(AND(inrow(back(k)), EQ(rmap(back(k)), k))), EQ(sol(k), s.f["solution"](k))))
    for f, sort in (("res", "I"), ("u", "R"), ("v", "R")):
        n, e = B.array(f, sort)
        P("%s as lap leaves it" % f, AND(EQ(n, s.N if f == "v" else s.R), IMP(AND(ok, LE(0, i), LT(i, n)), EQ(e(i), V.res(i)) if f == "res" else A.xsame(e(i), getattr(V, f)(i)))))
    prf.function(fn)
    for c in (ok, NOT(ok)):
        prf.reachable(fn, ex.facts, list(st.pc) + [c])


def whole(prf):
    """MurtyState(matrix): nothing bound, nothing solved"""
    fn = "lap::MurtyState::MurtyState (of a matrix)"
    i, j = T.sym("i", "I", 0), T.sym("j", "I", 0)
    R, N = T.sym("rows", "I", 0), T.sym("cols", "I", 0)
    A = Asg(R, N)

    def alloc(c, size):
        if T.eq(size, T.scale(8, T.mul(R, N))) is True:
            return Ptr(mats.new(c.ex, c.st, "copy", N, R, fast=N), 0)
        for n in (R, N):
            for sz in (4, 8):
                if T.eq(size, T.scale(sz, n)) is True or c.ex.implied(EQ(size, T.scale(sz, n)), c.st):
                    a = Obj("array", None, kind="array", stride=sz, length=n)
                    a.elem = lambda i, f, ty: UNDEF
                    a.meta["fields"] = [(0, sz, I32 if sz == 4 else DBL)]
                    c.st.wos(a)
                    return Ptr(a, 0)
        raise Unsupported("allocation of %s" % T.show(size))
    w = W("murty", ["d_state"])
    ex, st = w.ex(alloc=alloc, branch_prune=True, infinite=lambda t: None)
    for c in (LE(1, R), LE(1, N), LT(N, 1 << 31), LT(R, 1 << 31)):
        ex.fact(c)
    mat = mats.new(ex, st, "C", N, R, fast=N)
    mat.readonly = True
    C = lambda i, j: T.app("C", "R", i, j)
    mats.setcontent(mat, st, C(T.SV, T.FV))
    h = header(st, "C header", Ptr(mat, 0), R, N)
    h.readonly = True
    o = Obj("state", w.size("m"))
    st.wos(o)
    r, st = ex.call("d_state", [Ptr(o, 0), Ptr(h, 0)], st)
    prf.take(ex, fn)
    B = Read(w, ex, st, o)
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
    P("no cost yet", AND(EQ(B.cost, Z), EQ(B.bound, Z), EQ(B.solved, 0)))
    P("the matrix", AND(EQ(B.dims()[0], R), EQ(B.dims()[1], N), B.num("C", PTR).obj is not mat, IMP(AND(LT(i, R), LT(j, N)), EQ(B.C(i, j), C(i, j)))))
    for f, n in (("rmap", R), ("cmap", N)):
        m, e = B.array(f, "I")
        P("%s: every one itself" % f, AND(EQ(m, n), IMP(LT(i, n), EQ(e(i), i))))
    P("room for solution and duals", AND(EQ(B.num("solution", I64, 1), R), EQ(B.num("u", I64, 1), R), EQ(B.num("v", I64, 1), N)))
    prf.function("lap::MurtyState::MurtyState(const CostMatrix&)")
    prf.reachable(fn, ex.facts, list(st.pc))


# ---------------------------------------------------------------- draw: the queue of subproblems
QUEUE, QNAME = r"^([a-z ]+ )?std::priority_queue<std::shared_ptr<lap::MurtyState>", "std::priority_queue: top is an element no other is before, pop removes it, push and emplace add one (its order: MurtyStatePtrCompare)"


def b2i(c):
    return ITE(c, 1, 0)


class Draw:
    """the queue as a set of subproblems, seen through one assignment y, any one, fixed throughout:
    mem = how many of them contain y, n = how many there are, open = how many of them are not solved, low = none is cheaper.
    Every subproblem in the queue is sound (Inv in the lemmas): the assignments in it cost what its costs say, none costs less than its cost;
    if it is solved, its solution is one of them and its cost that solution's cost."""
    CELLS = (("n", 0), ("mem", 8), ("open", 16), ("low", 24), ("top", 32))

    def __init__(self, w):
        self.w = w
        self.R0 = T.sym("all rows", "I", 0)
        self.fin = T.sym("y is a complete finite assignment", "B")
        self.drawn = T.sym("times y has been drawn", "I")
        self.q = Obj("queue (ghost)", 40)
        self.made = 0
        self.root = None          # the subproblem being partitioned
        self.handles = []         # shared pointers written to

    # ---- ghost cells
    def get(self, st, nm):
        return st.os(self.q).cells[dict(self.CELLS)[nm]][1]

    def set(self, st, **kw):
        for nm, v in kw.items():
            st.wos(self.q).cells[dict(self.CELLS)[nm]] = (8, v)

    def counts(self, st):
        """what counting gives"""
        n, m, o = (self.get(st, x) for x in ("n", "mem", "open"))
        return AND(LE(0, m), LE(m, n), LE(0, o), LE(o, n))

    def sound(self, st, o):
        return st.os(o).cells[self.w.size("m")][1]

    def node(self, st, nm, mem, cost, solved, sound=True, step=None):
        """a subproblem in memory: cost, solved, solution; ghost: sound, contains y"""
        w, k = self.w, self.made
        self.made += 1
        o = Obj("%s%d" % (nm, k), w.size("m") + 8)
        o.meta.update(mem=mem, step=step)
        a = Obj("%s%d solution" % (nm, k), None, kind="array", stride=4, length=self.R0)
        a.elem = lambda i, f, ty: T.app("solution%d" % k, "I", i)
        a.meta["fields"] = [(0, 4, I32)]
        for x in (o, a):
            st.wos(x)
        a.readonly = True
        o.meta["sol"] = "solution%d" % k
        st.wos(o).cells.update({w.o("m_cost"): (8, cost), w.o("m_solved"): (1, b2i(solved) if isinstance(solved, Term) else solved), w.o("m_solution"): (8, Ptr(a, 0)),
                                w.o("m_solution") + 8: (8, self.R0), w.size("m"): (1, sound)})
        return o

    def cost(self, st, o):
        return st.os(o).cells[self.w.o("m_cost")][1]

    def solved(self, st, o):
        v = st.os(o).cells[self.w.o("m_solved")][1]
        return EQ(v, 1)

    # ---- what holds of a subproblem in the queue
    def top(self, ex, st):
        """some element that no other is before"""
        if self.get(st, "top") is not NULL:
            return self.get(st, "top")
        k = self.made
        mem, cost, solved = T.fresh("top contains y", "B"), T.fresh("top cost", "R"), T.fresh("top is solved", "B")
        o = self.node(st, "top", mem, cost, solved)
        n, m, op = (self.get(st, x) for x in ("n", "mem", "open"))
        st.assume(AND(LE(self.get(st, "low"), cost), LE(b2i(mem), m), LE(m, ADD(SUB(n, 1), b2i(mem))), LE(b2i(NOT(solved)), op), LE(op, ADD(SUB(n, 1), b2i(NOT(solved))))))
        h = Obj("top of the queue %d" % k, 16)
        h.readonly = True
        st.wos(h).cells.update({0: (8, Ptr(o, 0)), 8: (8, NULL)})
        self.set(st, top=Ptr(h, 0))
        return Ptr(h, 0)

    def models(self):
        def queue(f):
            def g(c):
                p = c.args[0]
                if not (isinstance(p, Ptr) and p.obj is self.m) or p.off != self.at:
                    raise Unsupported("another queue")
                return f(c)
            return g

        def empty(c):
            return EQ(self.get(c.st, "n"), 0)

        def top(c):
            c.ex.oblige("top: of a queue that is not empty", LE(1, self.get(c.st, "n")), c.st)
            return self.top(c.ex, c.st)

        def pop(c):
            ex, st = c.ex, c.st
            ex.oblige("pop: from a queue that is not empty", LE(1, self.get(st, "n")), st)
            o = st.os(self.top(ex, st).obj).cells[0][1].obj
            self.set(st, n=SUB(self.get(st, "n"), 1), mem=SUB(self.get(st, "mem"), b2i(o.meta["mem"])), open=SUB(self.get(st, "open"), b2i(NOT(self.solved(st, o)))), low=self.cost(st, o), top=NULL)

        def push(c):
            ex, st = c.ex, c.st
            p = ex.load(c.args[1], PTR, st)
            o = p.obj
            if p.off != 0 or "mem" not in o.meta:
                raise Unsupported("push: not a subproblem")
            ex.oblige("push: a sound subproblem", self.sound(st, o), st)
            ex.oblige("push: not cheaper than what has been drawn", LE(self.get(st, "low"), self.cost(st, o)), st)
            self.set(st, n=ADD(self.get(st, "n"), 1), mem=ADD(self.get(st, "mem"), b2i(o.meta["mem"])), open=ADD(self.get(st, "open"), b2i(NOT(self.solved(st, o)))), top=NULL)

        def solve(c):
            """contract of solve (lemma: solved subproblem)"""
            ex, st = c.ex, c.st
            p = c.args[0]
            o = p.obj
            if p.off != 0 or "mem" not in o.meta:
                raise Unsupported("solve: not a subproblem")
            t = self.get(st, "top")
            ex.oblige("solve: no element of the queue", t is NULL or st.os(t.obj).cells[0][1].obj is not o, st)
            ex.oblige("solve: a sound subproblem", self.sound(st, o), st)
            ok, cost = T.fresh("solvable", "B"), T.fresh("cost", "R")
            st.assume(AND(IMP(ok, LE(self.cost(st, o), cost)), IMP(NOT(ok), NOT(o.meta["mem"]))))
            s = st.wos(o)
            s.cells[self.w.o("m_cost")] = (8, cost)
            s.cells[self.w.o("m_solved")] = (1, 1)
            s.cells[self.w.size("m")] = (1, ok)
            a = self.node(st, "solved", False, 0, 1)
            for k in (0,):
                s.cells[self.w.o("m_solution")] = (8, st.os(a).cells[self.w.o("m_solution")][1])
            return ok
        obj = lambda c: c.args[0]
        return [(QUEUE + r".*::size\(\) const", queue(lambda c: self.get(c.st, "n")), QNAME), (QUEUE + r".*::empty\(\) const", queue(empty), QNAME), (QUEUE + r".*::top\(\) const", queue(top), QNAME), (QUEUE + r".*::pop\(\)", queue(pop), QNAME),
                (QUEUE + r".*::push\(", queue(push), QNAME), (r"^lap::MurtyState::solve\(\)", solve, None)] + self.partition() + self.pointers()

    # ---- the subproblems made of one
    row, col = staticmethod(lambda k: T.app("row of", "I", k)), staticmethod(lambda k: T.app("column of", "I", k))
    atrow, atcol = staticmethod(lambda k: T.app("place of row", "I", k)), staticmethod(lambda k: T.app("place of column", "I", k))
    dual, isinf = staticmethod(lambda k: T.app("dual", "R", k)), staticmethod(lambda k: T.app("no dual", "B", k))
    inside, takes = staticmethod(lambda k: T.app("y is in part", "B", k)), staticmethod(lambda k: T.app("y takes entry", "B", k))

    def partition(self):
        def sort(c):
            """contract of sort_by_dual"""
            ex, st = c.ex, c.st
            out, p = c.args
            o = p.obj
            if p.off != 0 or "mem" not in o.meta or self.root:
                raise Unsupported("sort_by_dual: not a subproblem, or again")
            ex.oblige("sort_by_dual: a solved subproblem", AND(self.sound(st, o), self.solved(st, o)), st)
            self.root, self.R = o, T.fresh("rows", "I", 0)
            st.assume(AND(LE(1, self.R), LT(self.R, 1 << 31)))
            l = self.list = Obj("list", None, kind="array", stride=16, length=self.R)
            f = {0: lambda i: self.col(i), 4: lambda i: self.row(i), 8: lambda i: self.dual(i)}
            l.elem = lambda i, k, ty: f[k](i)
            l.meta["fields"] = [(0, 4, I32), (4, 4, I32), (8, 8, DBL)]
            l.readonly = True
            st.wos(l)
            e = Ptr(l, T.scale(16, self.R))
            for k, v in enumerate((Ptr(l, 0), e, e)):
                ex.store(out.plus(8 * k), PTR, v, st)
            self.out = out
            # the parts: y is in the first if it is in the subproblem, in the next if it takes the entry of this one
            st.assume(T.eq(self.inside(0), o.meta["mem"]))

        def place(c):
            """contract of get_partition_index"""
            ex, st = c.ex, c.st
            m, l, p, i, j = c.args
            b = ex.load(l, PTR, st)
            if b.obj is not self.list or b.off != 0 or not isinstance(p, Ptr) or p.obj is not self.list:
                raise Unsupported("get_partition_index: another list")
            k = mats.flat_index(p.off, 16)
            ex.oblige("get_partition_index: an entry of the list", AND(LE(0, k), LT(k, self.R)), st)
            ex.store(i, I32, self.atrow(k), st)
            ex.store(j, I32, self.atcol(k), st)

        def part(c, what):
            """which part this is, and that the entry is the part's own"""
            ex, st = c.ex, c.st
            out, p, i, j = c.args[:4]
            o = p.obj
            k = 0 if o is self.root else o.meta["step"]
            if p.off != 0 or self.root is None or k is None:
                raise Unsupported("%s: not a part" % what)
            ex.oblige(what + ": a row is left", LT(k, self.R), st)
            ex.oblige(what + ": the entry of this part", AND(EQ(i, self.atrow(k)), EQ(j, self.atcol(k))), st)
            return ex, st, out, k

        def give(c, out, o):
            c.ex.store(out, PTR, Ptr(o, 0), c.st)
            c.ex.store(out.plus(8), PTR, NULL, c.st)
            self.handles.append(out)

        def without(c):
            """contract of partition_without (lemma: part without its entry)"""
            ex, st, out, k = part(c, "partition_without")
            ex.oblige("partition_without: its dual", AND(EQ(c.args[4], self.dual(k)), NOT(self.isinf(k))), st)
            st.assume(LE(Z, self.dual(k)))
            give(c, out, self.node(st, "without", AND(self.inside(k), NOT(self.takes(k))), ADD(self.cost(st, self.root), self.dual(k)), 0))

        def with_(c):
            """contract of partition_with (lemma: part with its entry)"""
            ex, st, out, k = part(c, "partition_with")
            st.assume(T.eq(self.inside(ADD(k, 1)), AND(self.inside(k), self.takes(k))))
            st.assume(IMP(self.isinf(k), NOT(AND(self.inside(k), NOT(self.takes(k))))))
            give(c, out, self.node(st, "part", False, self.cost(st, self.root), 0, sound=False, step=ADD(k, 1)))
        return [(r"^lap::MurtyState::sort_by_dual", sort, None), (r"^lap::Murty::get_partition_index", place, None), (r"^lap::MurtyState::partition_without\(", without, None), (r"^lap::MurtyState::partition_with\(", with_, None)]

    def pointers(self):
        def set_(c, p, v):
            c.ex.store(p, PTR, v, c.st)
            c.ex.store(p.plus(8), PTR, NULL, c.st)
            self.handles.append(p)

        def copy(c):
            set_(c, c.args[0], c.ex.load(c.args[1], PTR, c.st))
            return c.args[0]

        def move(c):
            v = c.ex.load(c.args[1], PTR, c.st)
            set_(c, c.args[1], NULL)
            set_(c, c.args[0], v)
            return c.args[0]
        S = r"^std::shared_ptr<lap::MurtyState>::"
        return [(S + "~shared_ptr", lambda c: None, SHARED), (S + r"shared_ptr\(\)", lambda c: set_(c, c.args[0], NULL), SHARED),
                (S + r"(shared_ptr|operator=)\(std::shared_ptr<lap::MurtyState> const&\)", copy, SHARED), (S + r"(shared_ptr|operator=)\(std::shared_ptr<lap::MurtyState>&&\)", move, SHARED)]

    def points(self, st, o):
        """the shared pointers that refer to o"""
        r = []
        for p in self.handles:
            if p.obj in st.mem:
                c = st.os(p.obj).cells.get(p.off)
                if c and isinstance(c[1], Ptr) and c[1].obj is o and p not in r:
                    r.append(p)
        return r

    # ---- the loops
    def invariant(self, st):
        return [("y is in the queue or has been drawn, once", EQ(ADD(self.get(st, "mem"), self.drawn), b2i(self.fin))), ("counts", self.counts(st)), ("not cheaper than what has been drawn", LE(self.low0, self.get(st, "low")))]

    def changed(self, ex, X, B, allowed):
        cells, arrays, trash = changed_cells(ex, X, B, [o for o in X.mem if o.kind == "cell" or o.kind == "array"])
        bad = [o for o, k, n in cells if o not in allowed] + list(arrays) + [o for o in trash if o not in allowed]
        if bad:
            raise Unsupported("changed in the loop: %s" % bad)

    def search(self, ex, fr, h, body, st, phis):
        """until the top of the queue is solved; it may have been read already"""
        known = self.get(st, "top") is not NULL

        def head(s, name):
            for nm, c in self.invariant(s):
                ex.oblige("%s: %s" % (name, nm), c, s)
            t = self.get(s, "top")
            if not known:
                return None
            if t is NULL:
                raise Unsupported("%s: no top" % name)
            ex.oblige(name + ": the queue is not empty", LE(1, self.get(s, "n")), s)
            return s.os(t.obj).cells[0][1].obj
        o = head(st, "search, at first")
        ptrs = [p for p in self.points(st, o) if p.obj is not self.get(st, "top").obj] if known else []
        G = st.fork()
        self.set(G, **{nm: T.fresh(nm, "R" if nm == "low" else "I") for nm in ("n", "mem", "open", "low")}, top=NULL)
        for nm, c in self.invariant(G):
            G.assume(c)
        if known:
            G.assume(LE(1, self.get(G, "n")))
            o = G.os(self.top(ex, G).obj).cells[0][1].obj
        for p in ptrs:
            G.wos(p.obj).cells[p.off] = (8, Ptr(o, 0))
        before = set(G.mem)
        X0 = G.fork()
        env0 = dict(fr.env)
        outs = ex.run_dag(fr, body, {h: [(G, dict(phis))]}, h)
        for B, bph in outs["back"]:
            if any(bph[k] is not v and not same(bph[k], v) for k, v in phis.items()):
                raise Unsupported("variables of the search")
            t = head(B, "search, again")
            for p in ptrs:
                c = B.os(p.obj).cells[p.off][1]
                if not (isinstance(c, Ptr) and c.obj is t and c.off == 0):
                    raise Unsupported("search: not the top of the queue")
            self.changed(ex, X0, B, [self.q, o] + [p.obj for p in self.handles] + [x for x in B.mem if x not in before])
            ex.oblige("search: ends", AND(LE(0, self.get(X0, "open")), LT(self.get(B, "open"), self.get(X0, "open"))), B)
        return [(t, s, p) for t, l in outs["exits"].items() for s, p in l]

    def parts(self, ex, fr, h, body, st, phis):
        """one part after the other"""
        own = [k for k in phis if not k.endswith("lcssa")]
        at = lambda v: mats.flat_index(v.off, 16) if isinstance(v, Ptr) and v.obj is self.list else v if is_scalar(v) else None
        if not own or any(T.eq(at(phis[k]), 0) is not True for k in own):
            raise Unsupported("parts: not from the first entry")
        ptrs = self.points(st, self.root)
        # which of the pointers moves on: those the body changes
        trial = ex.run_dag(fr, body, {h: [(st.fork(), dict(phis))]}, h)
        moved = [p for p in ptrs if any(not same(B.os(p.obj).cells[p.off][1], st.os(p.obj).cells[p.off][1]) for B, _ in trial["back"])]
        inv = lambda s, k: [("y is in the queue, has been drawn, or is in the part left, once", EQ(ADD(self.get(s, "mem"), ADD(self.drawn, b2i(self.inside(k)))), b2i(self.fin))), ("counts", self.counts(s)),
                            ("not cheaper than the one drawn", EQ(self.get(s, "low"), self.cost(s, self.root))), ("place", AND(LE(0, k), LE(k, self.R)))]
        for nm, c in inv(st, 0):
            ex.oblige("parts, at first: %s" % nm, c, st)
        k = T.fresh("k", "I")
        G = st.fork()
        self.set(G, **{nm: T.fresh(nm, "I") for nm in ("n", "mem", "open")}, top=NULL)
        for nm, c in inv(G, k):
            G.assume(c)
        o = self.node(G, "part", False, self.cost(G, self.root), 0, sound=False, step=k)
        for p in moved:
            G.wos(p.obj).cells[p.off] = (8, Ptr(o, 0))
        ph = dict(phis)
        for x in own:
            ph[x] = Ptr(self.list, T.scale(16, k)) if isinstance(phis[x], Ptr) else k
        for x in ph:
            if x not in own and x.endswith("lcssa"):
                ph[x] = UNDEF
        X0 = G.fork()
        outs = ex.run_dag(fr, body, {h: [(G, dict(ph))]}, h)
        for B, bph in outs["back"]:
            k1 = at(bph[own[0]])
            if any(at(bph[x]) is None for x in own):
                raise Unsupported("parts: another list")
            for x in own[1:]:
                ex.oblige("parts, again: the same place", EQ(at(bph[x]), k1), B)
            for nm, c in inv(B, k1):
                ex.oblige("parts, again: %s" % nm, c, B)
            ex.oblige("parts: ends", AND(LE(0, SUB(self.R, k)), LT(SUB(self.R, k1), SUB(self.R, k))), B)
            for p in moved:
                c = B.os(p.obj).cells[p.off][1]
                if not (isinstance(c, Ptr) and c.off == 0 and c.obj.meta.get("step") is not None):
                    raise Unsupported("parts: not a part")
                ex.oblige("parts: the next part", EQ(c.obj.meta["step"], k1), B)
            loc = [p.obj for p in self.handles] + [x for x in X0.mem if x.kind == "cell" and x.size == 4]
            self.changed(ex, X0, B, [self.q] + loc)
        # after the last one, y is left if it is the one drawn (lemma: the last part)
        res = []
        for t, l in outs["exits"].items():
            for s, p in l:
                s.assume(T.eq(self.inside(self.R), self.same))
                res.append((t, s, p))
        return res

    same = T.sym("y is the one drawn", "B")


def draw(prf):
    for had in (True, False):
        fn = "lap::Murty::draw (into an assignment %s)" % ("of the same size" if had else "without rows")
        w = W("murty", ["d_draw"], stub=PTRS + [QUEUE, r"^lap::MurtyState::(partition_with|partition_without|sort_by_dual|solve)\(", r"^lap::Murty::get_partition_index"])
        D = Draw(w)
        w.models = D.models() + w.models
        got = {}

        def alloc(c, size):
            if T.eq(size, T.scale(4, D.R0)) is True and not got:
                got["x"] = ints(c.ex, c.st, "x", D.R0)
                return Ptr(got["x"], 0)
            raise Unsupported("allocation of %s" % T.show(size))
        ex, st = w.ex(alloc=alloc, branch_prune=True, infinite=infinite(lambda t: D.isinf(*t.args) if t.op == "app:dual" else None))
        for c in (LE(1, D.R0), LT(D.R0, 1 << 31)):
            ex.fact(c)
        D.m, D.at = Obj("enumeration", 40), 8
        offset = T.sym("offset", "R")
        st.wos(D.m).cells[0] = (8, offset)
        D.m.readonly = True
        D.low0 = T.sym("last cost", "R")
        st.wos(D.q)
        D.set(st, n=T.sym("n", "I", 0), mem=T.sym("mem", "I", 0), open=T.sym("open", "I", 0), low=D.low0, top=NULL)
        n0 = D.get(st, "n")
        for nm, c in D.invariant(st):
            st.assume(c)
        if had:
            got["x"] = ints(ex, st, "x", D.R0)
        x = header(st, "x header", *((Ptr(got["x"], 0), D.R0) if had else (NULL, 0)))
        cost = header(st, "cost", T.sym("old cost", "R"))
        rets = []

        def handler(ex, fr, h, body, s0, phis):
            own = [v for k, v in phis.items() if not k.endswith("lcssa")]
            if D.root is not None and own and all(isinstance(v, Ptr) and v.obj is D.list or is_scalar(v) and T.eq(v, 0) is True for v in own):
                return D.parts(ex, fr, h, body, s0, phis)
            if D.root is None and not own:
                return D.search(ex, fr, h, body, s0, phis)
            r = ex.peel(fr, h, body, s0, phis, 10)
            return r if r is not None and r != "long" else ex.summarise(fr, h, body, s0, phis)
        ex.loop_specs = {(r".*", None): handler}
        r, st = ex.call("d_draw", [Ptr(D.m, 0), Ptr(x, 0), Ptr(cost, 0)], st)
        prf.take(ex, fn)
        got["r"] = r
        P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, st.pc)
        o = D.root
        c = st.os(cost).cells[0][1]
        P("says no only if the queue is empty: y has been drawn if it is one", IMP(NOT(r), AND(EQ(D.get(st, "n"), 0), EQ(D.drawn, b2i(D.fin)))))
        P("y is in the queue or has been drawn, once", IMP(r, EQ(ADD(D.get(st, "mem"), ADD(D.drawn, b2i(D.same))), b2i(D.fin))))
        P("a solved subproblem is taken", IMP(r, AND(D.solved(st, o), D.sound(st, o))))
        P("its cost, in terms of the original matrix", IMP(r, EQ(c, ADD(D.cost(st, o), offset))))
        P("not cheaper than the one drawn before", IMP(r, LE(D.low0, D.cost(st, o))))
        P("none left is cheaper", IMP(r, EQ(D.get(st, "low"), D.cost(st, o))))
        i = T.sym("i", "I", 0)
        p = st.os(x).cells
        P("its solution", IMP(r, AND(EQ(p[8][1], D.R0), IMP(LT(i, D.R0), EQ(rd(st, got["x"], "I")(i), T.app(o.meta["sol"], "I", i))))))
        for v in (r, NOT(r)):
            prf.reachable(fn, ex.facts, list(st.pc) + [v])
        prf.function("lap::Murty::draw")


# ---------------------------------------------------------------- what the contracts mean for sets of assignments
class Sub:
    """a subproblem, in terms of functions: matrix, maps from its rows and columns to those of the whole matrix (and back: -1 if it is not one of its own), solution of the bound rows"""

    def __init__(self, R, N, C, fin, rmap, cmap, ri, ci, sol):
        self.R, self.N, self.C, self.fin, self.rmap, self.cmap, self.ri, self.ci, self.sol = R, N, C, fin, rmap, cmap, ri, ci, sol


R0, N0 = T.sym("R0", "I"), T.sym("N0", "I")
fin0, C0 = (lambda r, c: T.app("fin0", "B", r, c)), (lambda r, c: T.app("C0", "R", r, c))
within = lambda x, n: AND(LE(0, x), LT(x, n))


def sound(t):
    """Inv: the maps, the entries, the rows that are bound"""
    b = lambda r: AND(within(r, R0), EQ(t.ri(r), -1))
    return [("dimensions", lambda: AND(LE(1, t.R), LE(t.R, t.N), LE(t.R, R0), LE(t.N, N0)), 0),
            ("rows are rows of the whole", lambda a: IMP(within(a, t.R), AND(within(t.rmap(a), R0), EQ(t.ri(t.rmap(a)), a))), 1),
            ("columns are columns of the whole", lambda a: IMP(within(a, t.N), AND(within(t.cmap(a), N0), EQ(t.ci(t.cmap(a)), a))), 1),
            ("rows of the whole are rows, or bound", lambda r: IMP(AND(within(r, R0), NOT(EQ(t.ri(r), -1))), AND(within(t.ri(r), t.R), EQ(t.rmap(t.ri(r)), r))), 1),
            ("columns of the whole are columns, or gone", lambda r: IMP(AND(within(r, N0), NOT(EQ(t.ci(r), -1))), AND(within(t.ci(r), t.N), EQ(t.cmap(t.ci(r)), r))), 1),
            ("finite entries are those of the whole", lambda a, c: IMP(AND(within(a, t.R), within(c, t.N), t.fin(a, c)), AND(fin0(t.rmap(a), t.cmap(c)), EQ(t.C(a, c), C0(t.rmap(a), t.cmap(c))))), 2),
            ("bound rows have a finite entry, in a column that is gone", lambda r: IMP(b(r), AND(within(t.sol(r), N0), fin0(r, t.sol(r)), EQ(t.ci(t.sol(r)), -1))), 1),
            ("bound rows have columns of their own", lambda r, q: IMP(AND(b(r), b(q), EQ(t.sol(r), t.sol(q))), EQ(r, q)), 2)]


def member(t, y):
    """the assignment y of the whole is in the subproblem"""
    return [("bound rows as bound, others by finite entries", lambda r: IMP(within(r, R0), AND(within(y(r), N0), ITE(EQ(t.ri(r), -1), EQ(y(r), t.sol(r)), AND(NOT(EQ(t.ci(y(r)), -1)), t.fin(t.ri(r), t.ci(y(r))))))), 1),
            ("different columns", lambda r, q: IMP(AND(within(r, R0), within(q, R0), EQ(y(r), y(q))), EQ(r, q)), 2)]


F = lambda l: [fa(b, n) if n else b() for nm, b, n in l]
I1, I2 = (lambda nm: lambda x: T.app(nm, "I", x)), (lambda nm: lambda x, y: T.app(nm, "I", x, y))
RR, RR2 = (lambda nm: lambda x: T.app(nm, "R", x)), (lambda nm: lambda x, y: T.app(nm, "R", x, y))


def lemmas(prf):
    fn = "lemma"

    def P(nm, goal, facts):
        prf.prove(fn, nm, goal, [], facts)

    def G(nm, l, facts):
        for x, b, n in l:
            P("%s: %s" % (nm, x), b(*[T.fresh("x", "I") for _ in range(n)]), facts)
    s = Sub(T.sym("R", "I"), T.sym("N", "I"), RR2("s.C"), lambda a, b: T.app("s.fin", "B", a, b), I1("s.rmap"), I1("s.cmap"), I1("s.ri"), I1("s.ci"), I1("s.sol"))
    y, res, u, v, rt = I1("y"), I1("res"), RR("u"), RR("v"), I1("taken by")
    inrow, incol = (lambda a: within(a, s.R)), (lambda a: within(a, s.N))
    a, b, q = T.sym("a", "I"), T.sym("b", "I"), T.sym("q", "I")
    S = F(sound(s))
    z = lambda a: s.ci(y(s.rmap(a)))                      # y in the subproblem
    # ---- y as an assignment of the subproblem
    inS = S + F(member(s, y))
    Z_ = [("a finite entry for every row", lambda a: IMP(inrow(a), AND(incol(z(a)), s.fin(a, z(a)), EQ(y(s.rmap(a)), s.cmap(z(a))))), 1), ("columns of their own", lambda a, b: IMP(AND(inrow(a), inrow(b), EQ(z(a), z(b))), EQ(a, b)), 2)]
    G("an assignment in a subproblem is one of its matrix (if lap finds none, there is none)", Z_, inS)
    G("an assignment in a subproblem is a complete finite one", [("entries", lambda r: IMP(within(r, R0), AND(within(y(r), N0), fin0(r, y(r)))), 1)], inS)
    # ---- solved: lap's assignment (C05), written to the solution by solve
    LAPOK = [fa(lambda a: IMP(inrow(a), AND(incol(res(a)), s.fin(a, res(a)))), 1), fa(lambda a, b: IMP(AND(inrow(a), inrow(b), EQ(res(a), res(b))), EQ(a, b)), 2)]
    sol = I1("solution")
    SOLVE = [fa(lambda a: IMP(inrow(a), EQ(sol(s.rmap(a)), s.cmap(res(a)))), 1), fa(lambda r: OR(EQ(sol(r), s.sol(r)), AND(inrow(s.ri(r)), EQ(s.rmap(s.ri(r)), r))), 1)]
    G("solved subproblem: its solution is in it", member(s, sol), S + LAPOK + SOLVE)
    P("solved subproblem: the entries taken", IMP(inrow(a), EQ(s.ci(sol(s.rmap(a))), res(a))), S + LAPOK + SOLVE)
    P("solved subproblem: bound rows as before", IMP(AND(within(q, R0), EQ(s.ri(q), -1)), EQ(sol(q), s.sol(q))), S + LAPOK + SOLVE)
    cost, bound, taken, whole_, new = (T.sym(x, "R") for x in ("cost", "bound", "sum of the entries taken", "cost of the solution", "new cost"))
    P("solved subproblem: its cost is that of its solution, not below the cost before", AND(EQ(new, whole_), LE(cost, new)), [EQ(whole_, ADD(bound, taken)), EQ(new, ADD(bound, taken)), LE(cost, whole_)])
    # ---- no assignment in the subproblem costs less; one that takes another entry in row q costs more by the dual at least
    # (settled rows and columns, of infinite prices; prices as if they were none; entries an assignment may take: lemmas of C05 on the contract of rlap)
    settled, rk = lambda b: T.app("settled", "B", b), I1("rank")
    wr = lambda a: settled(res(a))
    u1, v1 = lambda a: ITE(wr(a), s.C(a, res(a)), u(a)), lambda b: ITE(settled(b), Z, v(b))
    may = lambda a, b: AND(s.fin(a, b), ITE(wr(a), EQ(b, res(a)), NOT(settled(b))))
    other_ = lambda a, b: AND(s.fin(a, b), NOT(EQ(b, res(a))), NOT(wr(a)), NOT(settled(b)))      # as sort_by_dual sees them: by the infinities of its prices
    OPT = LAPOK + [fa(lambda a, b: IMP(AND(inrow(a), incol(b), may(a, b)), LE(ADD(u1(a), v1(b)), s.C(a, b))), 2), fa(lambda a: IMP(inrow(a), EQ(ADD(u1(a), v1(res(a))), s.C(a, res(a)))), 1)]
    d = T.sym("dual", "R")
    DUAL = [inrow(q), fa(lambda b: IMP(AND(incol(b), other_(q, b)), LE(d, SUB(SUB(s.C(q, b), u(q)), v(b)))), 1)]
    red = lambda a: SUB(SUB(s.C(a, z(a)), u1(a)), v1(z(a)))
    MAY = [fa(lambda a: IMP(inrow(a), may(a, z(a))), 1)]
    ZF = [fa(b_, n) for _, b_, n in Z_] + MAY
    P("reduced costs are not negative", IMP(inrow(a), LE(Z, red(a))), ZF + OPT)
    P("the reduced cost of another entry is not below the dual", IMP(NOT(EQ(z(q), res(q))), LE(d, red(q))), ZF + OPT + DUAL)
    P("duals are not negative", IMP(AND(incol(b), other_(q, b), EQ(d, SUB(SUB(s.C(q, b), u(q)), v(b)))), LE(Z, d)), [inrow(q)] + OPT)
    n, w, Sm = T.sym("n", "I", 0), RR("w"), RR("S")
    rec = lambda S, w, m: EQ(S(ADD(m, 1)), ADD(S(m), w(m)))
    all_ = lambda b, m: fa(lambda z: IMP(within(z, m), b(z)), 1)
    n1 = ADD(n, 1)
    prem = lambda m: [all_(lambda x: LE(ITE(EQ(x, q), d, Z), w(x)), m)]
    goal = lambda m: LE(ITE(AND(LE(0, q), LT(q, m)), d, Z), Sm(m))
    P("a sum of terms not negative, one at least d, none", goal(0), [EQ(Sm(0), Z)])
    P("a sum of terms not negative, one at least d, one more", goal(n1), [rec(Sm, w, n), IMP(AND(*prem(n)), goal(n))] + prem(n1))
    mine, other, U, VS, VR, VA, W_ = [T.sym(x, "R") for x in ("this", "other", "rows", "columns of the other", "columns of this", "all columns", "reduced costs")]
    P("an assignment in the subproblem costs more, by the dual if it takes another entry", LE(ADD(mine, d), other), [EQ(other, ADD(ADD(U, VS), W_)), EQ(mine, ADD(U, VR)), LE(VA, VS), EQ(VA, VR), LE(d, W_)])
    P("cost of a subproblem: not above what is in it", LE(ADD(cost, d), whole_), [EQ(cost, ADD(bound, mine)), EQ(whole_, ADD(bound, other)), LE(ADD(mine, d), other)])
    # ---- the list of sort_by_dual: every row once, with its column
    row, col, inv = I1("row"), I1("col"), I1("inv")
    LIST = [all_(lambda k: AND(inrow(row(k)), EQ(inv(row(k)), k), EQ(row(inv(k)), k), inrow(inv(k))), s.R), all_(lambda k: EQ(col(k), res(row(k))), s.R)]
    RT = [all_(lambda a: EQ(rt(res(a)), a), s.R), all_(lambda c: OR(EQ(rt(c), -1), AND(inrow(rt(c)), EQ(res(rt(c)), c))), s.N)]
    ordr, ordc = inv, lambda c: ITE(EQ(rt(c), -1), s.R, inv(rt(c)))
    k = T.sym("k", "I")
    kin = within(k, s.R)
    P("rows: their place in the list", IMP(kin, AND(EQ(ordr(row(k)), k), IMP(AND(inrow(a), EQ(ordr(a), k)), EQ(a, row(k))))), LIST)
    P("columns: their place in the list", IMP(kin, AND(incol(col(k)), EQ(ordc(col(k)), k), IMP(AND(incol(b), EQ(ordc(b), k)), EQ(b, col(k))))), LIST + RT + LAPOK)
    P("every row is in the list", IMP(inrow(a), within(ordr(a), s.R)), LIST)
    # ---- numbers left when k of M are gone: place and number, as get_partition_index counts
    M, x, o, place, at = T.sym("M", "I"), T.sym("x", "I"), I1("order"), I1("place"), I1("at")
    left = lambda r, k: AND(within(r, M), LE(k, o(r)))

    def rel(place, at, k):
        m = SUB(M, k)
        return [("numbers left have a place", lambda r: IMP(left(r, k), AND(within(place(r), m), EQ(at(place(r)), r))), 1),
                ("places have a number left", lambda i: IMP(within(i, m), AND(left(at(i), k), EQ(place(at(i)), i))), 1),
                ("in order", lambda r, t: IMP(AND(left(r, k), left(t, k), LT(r, t)), LT(place(r), place(t))), 2)]
    P("places at first", AND(*[b_(*[T.fresh("x", "I") for _ in range(n_)]) for _, b_, n_ in rel(lambda r: r, lambda i: i, 0)]), [fa(lambda r: LE(0, o(r)), 1)])
    ORD = [within(k, M), within(x, M), EQ(o(x), k), fa(lambda r: IMP(AND(within(r, M), EQ(o(r), k)), EQ(r, x)), 1)]
    up = lambda i, j: ITE(LT(i, j), i, ADD(i, 1))
    i0 = place(x)
    G("places when one more is gone (its place: its number less those before it that are gone)", rel(lambda r: SUB(place(r), ITE(LT(x, r), 1, 0)), lambda i: at(up(i, i0)), ADD(k, 1)), [fa(b_, n_) for _, b_, n_ in rel(place, at, k)] + ORD)
    cnt = I2("below")
    P("places: as they are counted", EQ(SUB(a, cnt(ADD(k, 1), a)), SUB(SUB(a, cnt(k, a)), ITE(LT(x, a), 1, 0))), [EQ(cnt(ADD(k, 1), a), ADD(cnt(k, a), ITE(LT(x, a), 1, 0)))])
    # ---- part k of the subproblem: the first k entries of the list are bound; without entry k it is a subproblem
    pr, ar, pc, ac = I1("place of row"), I1("row at"), I1("place of column"), I1("column at")

    def rel2(place, at, o, n, k):
        m, left = SUB(n, k), lambda r: AND(within(r, n), LE(k, o(r)))
        return [fa(lambda r: IMP(left(r), AND(within(place(r), m), EQ(at(place(r)), r))), 1), fa(lambda i: IMP(within(i, m), AND(left(at(i)), EQ(place(at(i)), i))), 1)]
    REL = rel2(pr, ar, ordr, s.R, k) + rel2(pc, ac, ordc, s.N, k)
    PL = [kin, AND(inrow(row(k)), EQ(ordr(row(k)), k)), AND(incol(col(k)), EQ(ordc(col(k)), k)), fa(lambda a: IMP(AND(inrow(a), EQ(ordr(a), k)), EQ(a, row(k))), 1), fa(lambda b: IMP(AND(incol(b), EQ(ordc(b), k)), EQ(b, col(k))), 1)]
    back = lambda i, p, o, t: ITE(AND(NOT(EQ(i(t), -1)), LE(k, o(i(t)))), p(i(t)), -1)
    c = Sub(SUB(s.R, k), SUB(s.N, k), lambda a, b: s.C(ar(a), ac(b)), lambda a, b: AND(s.fin(ar(a), ac(b)), NOT(AND(EQ(a, pr(row(k))), EQ(b, pc(col(k)))))), lambda a: s.rmap(ar(a)), lambda b: s.cmap(ac(b)),
            lambda r: back(s.ri, pr, ordr, r), lambda r: back(s.ci, pc, ordc, r), sol)
    SOLVED = S + LAPOK + SOLVE
    ALL = SOLVED + LIST + RT + REL + PL
    G("part without its entry: sound", sound(c), ALL)
    y_in = lambda k: F(member(s, y)) + [fa(lambda m: IMP(within(m, k), EQ(y(s.rmap(row(m))), s.cmap(col(m)))), 1)]      # y is in part k
    takes = EQ(y(s.rmap(row(k))), s.cmap(col(k)))
    G("part without its entry: contains what is in the part and does not take the entry", member(c, y), ALL + y_in(k) + [NOT(takes)])
    conv = ALL + F(member(c, y))
    G("part without its entry: contains nothing else", member(s, y), conv)
    m = T.sym("m", "I")
    P("part without its entry: contains nothing else (bound entries)", AND(IMP(within(m, k), EQ(y(s.rmap(row(m))), s.cmap(col(m)))), NOT(takes)), conv)
    P("no dual: nothing takes another entry", takes, SOLVED + LIST + PL + F(member(s, y)) + MAY + [fa(lambda b: IMP(incol(b), NOT(other_(row(k), b))), 1)])
    P("taking another entry", IMP(NOT(takes), NOT(EQ(z(row(k)), res(row(k))))), SOLVED + LIST + PL + F(member(s, y)))
    r = T.sym("r", "I")
    rr = s.ri(r)
    at_r = [within(r, R0), sound(s)[3][1](r), member(s, y)[0][1](r), IMP(inrow(rr), EQ(sol(s.rmap(rr)), s.cmap(res(rr)))), OR(EQ(sol(r), s.sol(r)), AND(inrow(s.ri(r)), EQ(s.rmap(s.ri(r)), r)))]      # instances at r
    at_r += [IMP(inrow(rr), AND(within(inv(rr), s.R), EQ(row(inv(rr)), rr))), IMP(within(inv(rr), s.R), AND(EQ(col(inv(rr)), res(row(inv(rr)))), EQ(y(s.rmap(row(inv(rr)))), s.cmap(col(inv(rr))))))]
    P("every row is in the list, at its place", IMP(inrow(a), AND(within(inv(a), s.R), EQ(row(inv(a)), a))), LIST)
    P("the last part: the solution itself", EQ(y(r), sol(r)), at_r)
    P("the last part: the solution itself (is in it)", IMP(kin, EQ(sol(s.rmap(row(k))), s.cmap(col(k)))), SOLVED + LIST)
    # ---- costs of the parts: boundcost and the entries y takes in the rows left
    g, g1, S1 = RR("g"), RR("g1"), RR("S1")
    i0 = T.sym("i0", "I")
    skip = lambda m: [all_(lambda x: EQ(g1(x), g(up(x, i0))), m), LE(0, i0)]
    sk = lambda m: EQ(S1(m), ITE(LE(m, i0), Sm(m), SUB(Sm(ADD(m, 1)), g(i0))))
    P("a sum without one of its terms, none", IMP(LE(0, i0), sk(0)), [EQ(Sm(0), Z), EQ(S1(0), Z), rec(Sm, g, 0)])
    P("a sum without one of its terms, one more", sk(n1), [rec(Sm, g, n), rec(Sm, g, n1), rec(S1, g1, n), IMP(AND(*skip(n)), sk(n))] + skip(n1))
    P("entries y takes in a part", IMP(within(a, SUB(s.R, k)), AND(EQ(c.ci(y(c.rmap(a))), pc(z(ar(a)))), EQ(c.C(a, c.ci(y(c.rmap(a)))), s.C(ar(a), z(ar(a)))))), ALL + y_in(k))
    Bk, Bk1, Tk, Tk1, gk = (T.sym(x, "R") for x in ("bound of the part", "bound of the next", "sum over the part", "sum over the next", "entry"))
    P("bound and entries left add up to the cost, one more bound", EQ(ADD(Bk1, Tk1), whole_), [EQ(ADD(Bk, Tk), whole_), EQ(Bk1, ADD(Bk, gk)), EQ(Tk1, SUB(Tk, gk))])
    P("the entry taken is the one bound", IMP(takes, EQ(s.C(row(k), z(row(k))), s.C(row(k), col(k)))), ALL + y_in(k))
    # ---- the whole matrix
    e = Sub(R0, N0, C0, fin0, lambda a: a, lambda a: a, lambda a: a, lambda a: a, I1("none"))
    G("the whole matrix: sound", sound(e), [LE(1, R0), LE(R0, N0)])
    full = [fa(lambda r: IMP(within(r, R0), AND(within(y(r), N0), fin0(r, y(r)))), 1), fa(lambda r, q: IMP(AND(within(r, R0), within(q, R0), EQ(y(r), y(q))), EQ(r, q)), 2)]
    G("the whole matrix: contains every complete finite assignment", member(e, y), full)
    P("the whole matrix: nothing costs less than zero", IMP(within(a, R0), LE(Z, C0(a, y(a)))), full + [fa(lambda r, q: IMP(fin0(r, q), LE(Z, C0(r, q))), 2)])
    A, sh = RR("A"), T.sym("least entry", "R")
    off = lambda m: EQ(Sm(m), SUB(A(m), T.mul(sh, T.toreal(m))))
    P("costs less the least entry in each row, none", off(0), [EQ(Sm(0), Z), EQ(A(0), Z)])
    P("costs less the least entry in each row, one more", off(n1), [rec(Sm, w, n), rec(A, g, n), EQ(w(n), SUB(g(n), sh)), off(n)])
    # vacuity
    for nm, f in (("part", ALL + y_in(k) + [NOT(takes)]), ("optimal", ZF + OPT + DUAL)):
        prf.reachable(fn + " (%s)" % nm, [], f)


# ---------------------------------------------------------------- the enumeration as it begins
def murty(prf):
    """Murty(matrix): one subproblem, that of the whole matrix less its least entry if that is negative; the offset is what that takes off a complete assignment"""
    fn = "lap::Murty::Murty"
    A = Asg(T.sym("rows", "I", 0), T.sym("cols", "I", 0))
    R, N = A.R, A.N
    fin = lambda i, j: T.app("finite", "B", i, j)
    C = lambda i, j: T.app("C", "R", i, j)
    infs = {}

    def base(t):
        """entries, and the least entry so far"""
        if t.op == "app:C":
            return NOT(fin(*t.args))
        if t.op == "sym" and str(t.args[0]).startswith("res"):
            return infs.setdefault(t, T.fresh("infinite", "B"))
        return None
    maybe = infinite(base)
    isinf = lambda t: False if maybe(t) is None else maybe(t)
    got = {"made": 0, "queue": []}

    def alloc(c, size):
        if T.eq(size, T.scale(8, T.mul(R, N))) is True and "copy" not in got:
            got["copy"] = mats.new(c.ex, c.st, "copy", N, R, fast=N)
            return Ptr(got["copy"], 0)
        raise Unsupported("allocation of %s" % T.show(size))
    ctl = Obj("count of owners", 16)

    def make(c):
        ex, st = c.ex, c.st
        p, r, n = (ex.load(c.args[1].plus(8 * k), ty, st) for k, ty in ((0, PTR), (1, I64), (2, I64)))
        got["made"] += 1
        if p.off != 0 or p.obj is not got["copy"]:
            raise Unsupported("a state of something else")
        o = Obj("state", w.size("m"))
        o.meta["of"] = (r, n, p.obj, st.fork())
        st.wos(o)
        ex.store(c.args[0], PTR, Ptr(o, 0), st)
        ex.store(c.args[0].plus(8), PTR, NULL, st)

    def queue_new(c):
        if c.args[0].obj is not m or c.args[0].off != 8:
            raise Unsupported("another queue")
        c.st.wos(q).cells[0] = (8, 0)

    def queue_add(c):
        ex, st = c.ex, c.st
        if c.args[0].obj is not m or c.args[0].off != 8:
            raise Unsupported("another queue")
        n = st.os(q).cells[0][1]
        st.wos(q).cells[0] = (8, ADD(n, 1))
        st.wos(q).cells[8] = (8, ex.load(c.args[1], PTR, st))
    w = W("murty", ["d_murty"], stub=PTRS + [QUEUE], models=[(MAKE, make, "make_shared constructs one object"), (r"^std::shared_ptr<lap::MurtyState>::~shared_ptr", lambda c: None, SHARED),
                                                              (QUEUE + r".*::priority_queue<", queue_new, QNAME), (QUEUE + r".*::(emplace|push)", queue_add, QNAME)])
    q = Obj("queue (ghost)", 16)
    ex, st = w.ex(alloc=alloc, branch_prune=True, infinite=maybe)
    for c in (LE(1, R), LE(1, N), LT(N, 1 << 31), LT(R, 1 << 31)):
        ex.fact(c)
    mat = mats.new(ex, st, "C", N, R, fast=N)
    mat.readonly = True
    mats.setcontent(mat, st, C(T.SV, T.FV))
    h0 = header(st, "C header", Ptr(mat, 0), R, N)
    h0.readonly = True
    m = Obj("enumeration", 40)
    st.wos(m)
    st.wos(q)
    low = lambda V, i, j: IMP(fin(i, j), AND(NOT(isinf(V.res)), LE(V.res, C(i, j))))

    def handler(ex, fr, h, body, s0, phis):
        a = (ex, fr, h, body, s0, phis)
        own = {stem(k) for k in phis if not k.endswith("lcssa")}

        def loop(name, counter, parts, n):
            sorts = {"res": "R", counter: "I"}

            return A.loop(*a, name, sorts, [], {}, parts, variant=lambda V: SUB(n, getattr(V, counter)))
        if own == {"res", "i"} and len(body) < 4:
            return loop("least entry, first row", "i", lambda V: [("counter", lambda: AND(LE(1, V.i), LE(V.i, N)), 0), ("none is less", lambda j: IMP(within(j, V.i), low(V, 0, j)), 1)], N)
        if own == {"res", "i"}:
            return loop("least entry", "i", lambda V: [("counter", lambda: AND(LE(1, V.i), LE(V.i, R)), 0), ("none is less", lambda i, j: IMP(AND(within(i, V.i), within(j, N)), low(V, i, j)), 2)], R)
        if own == {"res", "j"}:
            i = A.stack[-1][1].i
            return loop("least entry, row", "j", lambda V: [("counter", lambda: AND(LE(0, V.j), LE(V.j, N)), 0), ("none is less", lambda j: IMP(within(j, V.j), low(V, i, j)), 1), ("none of the rows before", lambda k, j: IMP(AND(within(k, i), within(j, N)), low(V, k, j)), 2)], N)
        for t, c in infs.items():
            if c is not None and ex.implied(NOT(c), s0):
                infs[t] = None                # known to be finite from here on
        r = ex.peel(fr, h, body, s0, phis, 10)
        return r if r is not None and r != "long" else ex.summarise(fr, h, body, s0, phis)
    ex.loop_specs = {(r".*", None): handler}
    _, st = ex.call("d_murty", [Ptr(m, 0), Ptr(h0, 0)], st)
    settle(prf, A, ex, fn)
    pc = [A.expand(x) for x in st.pc]
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, pc)
    P("one subproblem in the queue", EQ(st.os(q).cells[0][1], 1))
    s = st.os(q).cells[8][1].obj
    r, n, src, at = s.meta["of"]
    P("of a matrix of the same size", AND(EQ(r, R), EQ(n, N)))
    off = st.os(m).cells[0][1]
    i, j = T.sym("i", "I", 0), T.sym("j", "I", 0)
    e = mats.at(ex, src, j, i, at)
    inside = AND(LT(i, R), LT(j, N))
    sh = T.sym("taken off in each row", "R")      # the offset over the number of rows
    P("the offset is finite", NOT(isinf(off)))
    pc += [EQ(off, T.mul(sh, T.toreal(R)))]
    P("entries less that", IMP(AND(inside, fin(i, j)), AND(NOT(isinf(e)), EQ(e, SUB(C(i, j), sh)))))
    P("infinite entries stay infinite", IMP(AND(inside, NOT(fin(i, j))), isinf(e)))
    P("no entry is negative", IMP(AND(inside, fin(i, j)), LE(Z, e)))
    prf.function(fn)
    for c in (EQ(sh, Z), NOT(EQ(sh, Z))):
        prf.reachable(fn, ex.facts, pc + [c])
