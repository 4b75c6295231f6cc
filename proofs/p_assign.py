"""C05: the assignment solver (rlapjv.h), for matrices of any size, with infinite entries"""
import re
from .lib import *
from vc.loops import Tmpl, changed_cells
from vc.exec import Inf
from vc import smt, mats
from vc.proof import discharge, split_goal, Result

AND, OR, NOT, IMP, EQ, LE, LT, ADD, SUB, ITE = T.and_, T.or_, T.not_, T.implies, T.eq, T.le, T.lt, T.add, T.sub, T.ite
SIZE = {"I": 4, "R": 8}
IRTY = {4: I32, 8: DBL, 1: I8}


def fa(body, n):
    vs = [T.fresh("s", "I") for _ in range(n)]
    return smt.forall(tuple(vs), body(*vs))


def rd(s, o, sort, f=0):
    """element of an array in a state, as a function of the index (no questions asked)"""
    def walk(o, log, i):
        for n in range(len(log) - 1, -1, -1):
            e = log[n]
            if e[0] == "w":
                if e[2] + e[3] <= f or f + size <= e[2]:
                    continue
                if e[2] != f or e[3] != size:
                    raise Unsupported("write of another size")
                c = EQ(i, e[1])
                if c is True:
                    return e[4]
                return ITE(c, e[4], walk(o, log[:n], i)) if c is not False else walk(o, log[:n], i)
            if e[0] in ("map", "copy"):
                if e[0] == "map" and f not in e[3]:
                    continue
                v = e[3][f][1](i) if e[0] == "map" else walk(e[3], e[4].log, ADD(SUB(i, e[1]), e[5]))
                if EQ(e[1], 0) is True and EQ(e[2], o.length) is True:
                    return v
                return ITE(AND(LE(e[1], i), LT(i, e[2])), v, walk(o, log[:n], i))
            if e[0] == "ite":
                return ITE(e[1], walk(o, e[2], i), walk(o, e[3], i))
            raise Unsupported("array content: %s" % e[0])
        v = o.elem(i, f, DBL if sort == "R" else IRTY[size])
        return T.app("undef." + o.name, sort, i) if v is UNDEF else v
    size = o.stride if len(o.meta["fields"]) < 2 else SIZE[sort]
    return lambda i: walk(o, s.os(o).log, i)


def infinite(base):
    """which numbers may be infinite: base says it of a function application, or None"""
    def q(t):
        if not isinstance(t, Term):
            return None
        if t is mats.INFINITE:
            return True
        if t.op == "ite":
            a, b = q(t.args[1]), q(t.args[2])
            return None if a is None and b is None else ITE(t.args[0], a is not None and a, b is not None and b)
        if t.op == "+":
            l = [(q(x), k) for x, k in t.args[1]]
            if any(c is not None and k < 0 for c, k in l):
                raise Unsupported("difference of numbers that may be infinite")
            return OR(*[c for c, k in l if c is not None]) if any(c is not None for c, k in l) else None
        if t.op in ("*", "*c", "/"):
            if any(q(x) is not None for x in t.args if isinstance(x, Term)):
                raise Unsupported("product of numbers that may be infinite")
        return base(t)
    return q


def signed(base):
    """what may be infinite: for a term, when it is plus and when it is minus infinity (both at once: not a number); base says it of applications and symbols"""
    memo = {}

    def q(t):
        if isinstance(t, Inf):
            return (not t.neg, t.neg)
        if not isinstance(t, Term):
            return (False, False)
        if t not in memo:
            memo[t] = q1(t)
        return memo[t]

    def q1(t):
        if t is mats.INFINITE:
            return (True, False)
        if t.op == "ite":
            a, b = q(t.args[1]), q(t.args[2])
            return (ITE(t.args[0], a[0], b[0]), ITE(t.args[0], a[1], b[1]))
        if t.op == "+":
            l = [q(x) if k > 0 else q(x)[::-1] for x, k in t.args[1]]
            return (OR(*[c[0] for c in l]), OR(*[c[1] for c in l]))
        if t.op == "*c":
            c = q(t.args[1])
            return c if t.args[0] > 0 else c[::-1]
        if t.op in ("*", "/"):
            if any(c is not False for x in t.args for c in q(x)):
                raise Unsupported("product of numbers that may be infinite")
        return base(t)
    return q


def stem(nm):
    """%min.4.i.lcssa -> min; %k122.0.i -> k; %j1.i.0.i -> j1"""
    b = nm.lstrip("%").split(".")[0]
    return b if b in ("j1", "j2", "i0") else re.sub(r"\d+$", "", b)


class View:
    """what the invariants speak of: arrays and loop variables of one state, ghost functions"""

    def __init__(self, A, s, phis, ghosts):
        self.A, self.s, self.phis, self.gh = A, s, phis, ghosts

    def __getattr__(self, nm):
        if nm in self.gh:
            return self.gh[nm]
        if nm in self.A.arr:
            f = rd(self.s, *self.A.arr[nm])
            setattr(self, nm, f)
            return f
        if nm in self.A.cells:
            o, off = self.A.cells[nm][:2]
            return self.s.os(o).cells[off][1]
        if nm in self.phis:
            v = self.phis[nm]
            return mats.flat_index(v.off, v.obj.stride) if isinstance(v, Ptr) else v
        raise Unsupported("no variable %s here" % nm)


class Asg:
    def __init__(self, R=None, N=None):
        self.R, self.N = (T.sym("rows", "I", 0), T.sym("cols", "I", 0)) if R is None else (R, N)
        self.arr = {}          # arrays by name: (object, sort) or (object, sort, offset of the field)
        self.cells = {}        # single cells by name: (object, offset, size, sort)
        self.tok = {}          # token symbol -> the quantified facts it stands for
        self.gh = {}           # ghost functions as they stand
        self.stack = []        # the loops being executed: (name, view of the generic iteration)
        self.only = None

    def C(self, i, j):
        return T.app("C", "R", i, j)

    # ---- infinities of both signs
    FLAGS = {"min", "umin", "usubmin"}

    def fin(self, i, j):
        return T.app("finite", "B", i, j)

    def extended(self):
        """the hook: infinite entries; prices may fall to minus infinity, distances, row duals and minima may be plus infinity"""
        marks = {}

        def base(t):
            f = t.op[4:].split(".")[0] if t.op.startswith("app:") else None
            if t.op == "app:C":
                return (NOT(self.fin(*t.args)), False)
            if f == "v":
                return (False, T.app("minus infinity: " + t.op[4:], "B", *t.args))
            if f in ("d", "u"):
                return (T.app("plus infinity: " + t.op[4:], "B", *t.args), False)
            if t.op == "sym" and str(t.args[0]).split("!")[0] in self.FLAGS:
                return (marks.setdefault(t, T.fresh("plus infinity", "B")), False)
            return (False, False)
        self.ext = signed(base)
        return self.ext

    def pinf(self, t):
        return self.ext(t)[0]

    def ninf(self, t):
        return self.ext(t)[1]

    def isfin(self, t):
        return NOT(OR(*self.ext(t)))

    def num(self, rel, a, b):
        return False if isinstance(a, Inf) or isinstance(b, Inf) else rel(a, b)

    def xle(self, a, b):
        (pa, na), (pb, nb) = self.ext(a), self.ext(b)
        return ITE(OR(na, pb), True, ITE(OR(pa, nb), False, self.num(LE, a, b)))

    def xsame(self, a, b):
        (pa, na), (pb, nb) = self.ext(a), self.ext(b)
        return AND(T.eq(pa, pb), T.eq(na, nb), OR(pa, na, self.num(EQ, a, b)))

    def W(self, V, j):
        """the price of column j is minus infinity: the rows that could take it are settled"""
        return self.ninf(V.v(j))

    def open(self, V, i, j):
        return AND(self.fin(i, j), NOT(self.W(V, j)))

    def y(self, i):
        """some finite assignment"""
        return T.app("y", "I", i)

    def complete(self):
        return [fa(lambda i: IMP(self.row(i), AND(self.col(self.y(i)), self.fin(i, self.y(i)))), 1), fa(lambda i, k: IMP(AND(self.row(i), self.row(k), EQ(self.y(i), self.y(k))), EQ(i, k)), 2)]

    def settled(self, V):
        """columns of price minus infinity in the order of their ranks: the row of each has no other finite entry, but in columns of smaller rank"""
        return [("settled columns", lambda j: IMP(AND(self.col(j), self.W(V, j)), AND(LE(0, V.colsol(j)), LE(0, V.rk(j)), LT(V.rk(j), V.clock(0)))), 1),
                ("rows of settled columns", lambda j, k: IMP(AND(self.col(j), self.col(k), self.W(V, j), self.fin(V.colsol(j), k)), AND(self.W(V, k), OR(EQ(k, j), LT(V.rk(k), V.rk(j))))), 2)]

    def must(self, V):
        """lemma: every finite assignment gives the settled columns to their rows"""
        return [fa(lambda j: IMP(AND(self.col(j), self.W(V, j)), EQ(self.y(V.colsol(j)), j)), 1), fa(lambda i: IMP(AND(self.row(i), self.W(V, self.y(i))), EQ(V.colsol(self.y(i)), i)), 1)]

    def apply(self, ex, name, V, s):
        """the lemma in the state s: what it needs is obliged"""
        for nm, b, n in self.settled(V) + self.assigned(V) + self.entries_taken(V):
            ex.oblige("%s: lemma: %s" % (name, nm), b(*[T.fresh("x", "I") for _ in range(n)]), s)
        s.assume(self.token(self.must(V)))

    def row(self, i):
        return AND(LE(0, i), LT(i, self.R))

    def col(self, j):
        return AND(LE(0, j), LT(j, self.N))

    def token(self, facts):
        t = T.fresh("known", "B")
        self.tok[t] = list(facts)
        return t

    def expand(self, f):
        """tokens stand for facts"""
        if not isinstance(f, Term):
            return f
        for _ in range(3):
            m = {t: AND(*self.tok[t]) for t in T.subterms([f]) if t in self.tok}
            if not m:
                break
            f = T.subst(f, m)
        return f

    # ---------------------------------------------------------------- memory
    def array(self, ex, st, nm, n, sort, init=None, size=None):
        a = Obj(nm, None, kind="array", stride=size or SIZE[sort], length=n)
        a.elem = init or (lambda i, f, ty: UNDEF)
        a.meta["fields"] = [(0, a.stride, IRTY[a.stride])]
        st.wos(a)
        self.arr[nm] = (a, sort)
        return a

    def start(self, w, ex, st):
        R, N = self.R, self.N
        for c in (LE(1, R), LE(R, N)) if isinstance(N, Term) else ():
            ex.fact(c)
        self.mat = mats.new(ex, st, "C", N, R, fast=N)
        self.mat.readonly = True
        mats.setcontent(self.mat, st, T.app("C", "R", T.SV, T.FV))
        und = lambda nm, s: lambda i, f, ty: T.app("old." + nm, s, i)
        self.array(ex, st, "rowsol", R, "I", und("rowsol", "I"))
        self.array(ex, st, "colsol", N, "I", und("colsol", "I"))
        self.array(ex, st, "u", R, "R", und("u", "R"))
        self.array(ex, st, "v", N, "R", lambda i, f, ty: Fraction(0))

    def alloc(self, c, size):
        ex, st = c.ex, c.st
        for nm, n, sort in (("free", self.R, "I"), ("collist", self.N, "I"), ("d", self.N, "R"), ("pred", self.N, "I")):
            if nm not in self.arr and T.eq(size, T.scale(SIZE[sort], n)) is True:
                return Ptr(self.array(ex, st, nm, n, sort), 0)
        raise Unsupported("allocation of %s" % T.show(size))

    # ---------------------------------------------------------------- cut points
    def oblige(self, ex, name, parts, V, s):
        for nm, b, n in parts(V):
            vs = [T.fresh("x", "I") for _ in range(n)]
            ex.oblige("%s: %s" % (name, nm), b(*vs), s)

    def assume(self, s, parts, V):
        """the quantified parts behind a token, the others directly"""
        ps = parts(V)
        for nm, b, n in ps:
            if n == 0:
                s.assume(b())
        q = [fa(b, n) for nm, b, n in ps if n]
        if q:
            s.assume(self.token(q))

    def havoc(self, s, names):
        t = next(T._fresh)
        new = {}
        for nm in names:
            if nm in self.cells:
                o, off, size, sort = self.cells[nm]
                s.wos(o).cells[off] = (size, T.fresh(nm, sort))
                continue
            o, sort, *f = self.arr[nm]
            size = o.stride if len(o.meta["fields"]) < 2 else SIZE[sort]
            new.setdefault(o, {})[f[0] if f else 0] = (size, Tmpl(T.app("%s.%d" % (nm, t), sort, KVAR)))
        for o, m in new.items():
            if len(m) < len(o.meta["fields"]):
                raise Unsupported("only some fields of %s" % o.name)
            s.wos(o).log = (("map", 0, o.length, m),)

    def ghosts(self, names):
        t = next(T._fresh)
        return {nm: (lambda *x, nm=nm, s=s: T.app("%s.%d" % (nm, t), s, *x)) for nm, s in names.items()}

    def named(self, phis):
        r = {}
        for k, v in phis.items():
            if stem(k) not in r or not k.endswith("lcssa"):
                r[stem(k)] = v
        return r

    def view(self, s, phis, gh):
        return View(self, s, self.named(phis), gh)

    def loop(self, ex, fr, h, body, st, phis, name, sorts, mod, ghosts, parts, g0=lambda V: {}, g1=lambda G, B: {}, fixed={}, peel=False, split=None, facts=None, scratch=(), variant=None):
        """cut the loop at its head: the invariant at first, any iteration, the invariant again, and less left to do (variant)
        -> exits of the generic iteration [(target, state, phis)], with self.gh the ghosts of the generic state"""
        gh0, env0, out, exits = dict(self.gh), dict(fr.env), [], []
        entry = [(st, phis)]
        if peel:
            outs = ex.run_dag(fr, body, {h: [(st.fork(), phis)]}, h)
            for t, l in outs["exits"].items():
                for s, p in l:
                    ex.oblige("%s: entered" % name, False, s)
            entry = outs["back"]
        for s, p in entry:
            V = self.view(s, p, gh0)
            V.gh = {**gh0, **g0(V)}
            self.oblige(ex, name + ", at first", parts, V, s)
            for k, v in p.items():
                if stem(k) in fixed:
                    ex.oblige("%s: %s at first" % (name, stem(k)), EQ(v, fixed[stem(k)]), s)
        # any iteration
        G, ph = st.fork(), {}
        for k, v in entry[0][1].items():
            nm = stem(k)
            free = nm in sorts and not k.endswith("lcssa")
            ph[k] = Ptr(v.obj, T.scale(v.obj.stride, T.fresh(nm, "I"))) if free and isinstance(v, Ptr) else fixed[nm] if nm in fixed else T.fresh(nm, sorts[nm]) if free else UNDEF if nm == "endofpath" and not k.endswith("lcssa") else v
        self.havoc(G, mod)
        for o in scratch:
            G.wos(o).cells = {}
        V = self.view(G, ph, {**gh0, **self.ghosts(ghosts)})
        self.assume(G, parts, V)
        if facts:
            facts(V, G)
        self.stack.append((name, V))
        for case in (split(V) if split else [(True, None)]):
            fr.env = dict(env0)
            self.only = case[1]
            X = G.fork(case[0])
            X0 = X.fork()
            self.gh = dict(V.gh)
            outs = ex.run_dag(fr, body, {h: [(X, dict(ph))]}, h)
            for B, bph in outs["back"]:
                cells, arrays, trash = changed_cells(ex, X0, B, list(st.mem))
                bad = [o for o in arrays if o not in [self.arr[m][0] for m in mod if m in self.arr]] + [o for o, k, n in cells if o not in scratch and (o, k, n) not in [self.cells[m][:3] for m in mod if m in self.cells]] + [o for o in trash if o not in scratch]
                if bad:
                    raise Unsupported("changed in the loop: %s" % bad)
                for k, v in ph.items():
                    nm, c = stem(k), bph[k]
                    if v is UNDEF or nm in sorts and not k.endswith("lcssa") and nm not in fixed or c is v:
                        continue
                    if not (is_scalar(c) and is_scalar(v)):
                        raise Unsupported("loop variable %s" % k)
                    ex.oblige("%s: %s stays" % (name, nm), EQ(c, v), B)
                VB = self.view(B, bph, {**V.gh, **self.gh})
                VB.gh = {**VB.gh, **g1(V, VB)}
                self.oblige(ex, name + ", again", parts, VB, B)
                if variant:
                    ex.oblige(name + ": ends", AND(LE(0, variant(V)), LT(variant(VB), variant(V))), B)
            for t, l in outs["exits"].items():
                out += [(t, s, p) for s, p in l]
                exits += [dict(self.gh)] * len(l)
        self.stack.pop()
        self.exits = exits
        self.only = None
        self.gh = dict(V.gh)
        self.V = V
        return out

    def within(self):
        return self.stack[-1][0] if self.stack else ""

    # ---------------------------------------------------------------- invariants
    def matching(self, live):
        """the partial assignment: free rows are in the list (where live(p)), others have a column; prices"""
        def parts(V):
            fpos, v = V.fpos, V.v
            return [
                ("free rows are rows, at their place", lambda p: IMP(live(V, p), AND(self.row(V.free(p)), EQ(fpos(V.free(p)), p))), 1),
                ("rows said to be free are in the list", lambda i: IMP(AND(self.row(i), NOT(EQ(fpos(i), -1))), AND(live(V, fpos(i)), EQ(V.free(fpos(i)), i))), 1),
            ] + self.assigned(V) + [
                ("column prices are not positive, zero where unassigned", lambda j: IMP(self.col(j), AND(NOT(self.pinf(v(j))), OR(self.W(V, j), LE(v(j), Fraction(0))), IMP(EQ(V.colsol(j), -1), AND(NOT(self.W(V, j)), EQ(v(j), Fraction(0)))))), 1),
                ("assigned columns are the cheapest of their rows", lambda j, k: IMP(AND(self.col(j), self.col(k), LE(0, V.colsol(j))), self.tight(V, V.colsol(j), j, k)), 2),
            ] + self.entries_taken(V) + self.settled(V)
        return parts

    def entries_taken(self, V):
        return [("entries taken are finite", lambda j: IMP(AND(self.col(j), LE(0, V.colsol(j))), self.fin(V.colsol(j), j)), 1)]

    def assigned(self, V):
        return [("every row that is not free has a column of its own", lambda i: IMP(AND(self.row(i), EQ(V.fpos(i), -1)), AND(self.col(V.rowsol(i)), EQ(V.colsol(V.rowsol(i)), i))), 1),
                ("every assigned column has a row", lambda j: IMP(self.col(j), OR(EQ(V.colsol(j), -1), AND(self.row(V.colsol(j)), EQ(V.fpos(V.colsol(j)), -1), EQ(V.rowsol(V.colsol(j)), j)))), 1)]

    def red(self, V, i, j):
        return SUB(self.C(i, j), V.v(j))

    def tight(self, V, i, j, k):
        return IMP(AND(self.open(V, i, k), NOT(self.W(V, j))), LE(self.red(V, i, j), self.red(V, i, k)))

    def perm(self, V):
        return [("the list of columns has columns", lambda p: IMP(self.col(p), AND(self.col(V.collist(p)), EQ(V.cpos(V.collist(p)), p))), 1),
                ("every column is in the list", lambda j: IMP(self.col(j), AND(self.col(V.cpos(j)), EQ(V.collist(V.cpos(j)), j))), 1)]

    def frontier(self, V, V0, lo):
        """positions before lo are as they were"""
        return [("columns before stay", lambda j: IMP(self.col(j), ITE(LT(V0.cpos(j), lo), EQ(V.cpos(j), V0.cpos(j)), LE(lo, V.cpos(j)))), 1)]

    def swapped(self, G, k, cond, up):
        """ghost: the element at k has changed places with that at up, if cond"""
        j, q = G.collist(k), G.collist(up)
        return lambda x: ITE(cond, ITE(EQ(x, j), up, ITE(EQ(x, q), k, G.cpos(x))), G.cpos(x))

    # ---------------------------------------------------------------- the loops
    def handler(self, ex, fr, h, body, st, phis):
        names, w = set(self.named(phis)), self.within()
        own = {stem(k) for k in phis if not k.endswith("lcssa")}
        a = (ex, fr, h, body, st, phis)
        if w == "row reduction" and "umin" in own:
            return self.umins(*a)
        if w == "" and own >= {"k", "numfree"}:
            return self.reduce(*a)
        if w == "" and "f" in own:
            return self.augment(*a)
        if w == "" and "rlapcost" in own:
            return self.total(*a)
        if w == "augmentation" and "low" in own:
            return self.dijkstra(*a)
        if w == "shortest path" and own == {"up", "min", "k"}:
            return self.minsearch(*a)
        if w == "shortest path" and own == {"up", "k"}:
            return self.scan(*a)
        if w == "shortest path" and own == {"k"}:
            return self.check(*a)
        if w == "augmentation" and own == {"k"}:
            return self.prices(*a)
        if w == "augmentation" and own == {"endofpath"}:
            return self.flip(*a)
        r = ex.peel(fr, h, body, st, phis, 10)
        return r if r is not None and r != "long" else ex.summarise(fr, h, body, st, phis)

    def reduce(self, *a):
        """augmenting row reduction: one pass over the list of free rows"""
        prev = self.nfree
        left = sorted({stem(k) for k in a[5] if not k.endswith("lcssa")} - {"k", "numfree"})      # how often a row may still replace another
        if len(left) > 1:
            raise Unsupported("row reduction: %s" % left)
        rest = lambda V: getattr(V, left[0]) if left else 0
        live = lambda V, p: OR(AND(LE(V.k, p), LT(p, prev)), AND(LE(0, p), LT(p, V.numfree)))

        def parts(V):
            return [("counters", lambda: AND(LE(0, V.numfree), LE(V.numfree, V.k), LE(V.k, prev), LE(prev, self.R), LE(0, rest(V)), LE(0, V.clock(0))), 0)] + self.matching(live)(V)

        def g1(G, B):
            # the row taken is free no more; the row it replaces takes its place, or goes to the list for the next pass
            i = G.free(G.k)
            back, more = EQ(B.k, G.k), NOT(EQ(B.numfree, G.numfree))
            return {"fpos": lambda x: ITE(AND(back, EQ(x, B.free(G.k))), G.k, ITE(AND(more, EQ(x, B.free(G.numfree))), G.numfree, ITE(EQ(x, i), -1, G.fpos(x)))),
                    "rk": lambda x: ITE(AND(self.W(B, x), NOT(self.W(G, x))), G.clock(0), G.rk(x)), "clock": lambda x: ADD(G.clock(x), 1)}
        g0 = (lambda V: {"fpos": lambda x: x, "rk": lambda x: 0, "clock": lambda x: 0}) if "fpos" not in self.gh else (lambda V: {})

        def facts(V, s):
            self.apply(a[0], "row reduction", V, s)
            i = V.free(V.k)
            t = IMP(LT(V.k, prev), self.open(V, i, self.y(i)))
            a[0].oblige("row reduction: the free row has a finite entry in a column that is not settled", t, s)
            s.assume(t)
        out = self.loop(*a, "row reduction", {"k": "I", "numfree": "I", **{x: "I" for x in left}}, ["free", "v", "rowsol", "colsol"], {"fpos": "I", "rk": "I", "clock": "I"}, parts, g0, g1,
                        facts=facts, variant=lambda V: ADD(SUB(prev, V.k), rest(V)))
        self.nfree = self.V.numfree
        return out

    def umins(self, *a):
        """smallest and second smallest reduced cost of a row"""
        W_ = self.stack[-1][1]
        i = W_.free(W_.k)

        def parts(V):
            e = lambda k: self.red(V, i, k)
            return [("candidates", lambda: AND(LE(1, V.j), LE(V.j, self.N), LE(0, V.j1), LT(V.j1, V.j), self.xsame(V.umin, e(V.j1)), self.xle(V.umin, V.usubmin)), 0),
                    ("second candidate", lambda: IMP(NOT(self.pinf(V.usubmin)), AND(LE(0, V.j2), LT(V.j2, V.j), NOT(EQ(V.j1, V.j2)), self.xsame(V.usubmin, e(V.j2)))), 0),
                    ("none of the others seen is smaller", lambda k: IMP(AND(LE(0, k), LT(k, V.j), NOT(EQ(k, V.j1))), self.xle(V.usubmin, e(k))), 1)]
        return self.loop(*a, "smallest entries of a row", {"j": "I", "j1": "I", "j2": "I", "umin": "R", "usubmin": "R"}, [], {}, parts, variant=lambda V: SUB(self.N, V.j))

    def augment(self, *a):
        """one free row after the other gets a column"""
        nf = self.nfree
        live = lambda V, p: AND(LE(V.f, p), LT(p, nf))

        def parts(V):
            return [("counter", lambda: AND(LE(0, V.f), LE(V.f, nf), LE(nf, self.R)), 0)] + self.matching(live)(V)

        def g1(G, B):
            fr = G.free(G.f)
            return {"fpos": lambda x: ITE(EQ(x, fr), -1, G.fpos(x))}
        return self.loop(*a, "augmentation", {"f": "I"}, ["v", "rowsol", "colsol", "d", "pred", "collist"], {"fpos": "I"}, parts, lambda V: {}, g1, facts=lambda V, s: self.apply(a[0], "augmentation", V, s), variant=lambda V: SUB(nf, V.f))

    def dinf(self, V, j):
        return self.pinf(V.d(j))

    def reached(self, V, fr, dd, bound):
        """how every column was reached: from the free row, or from the row of a column before it"""
        def q(j):
            i = V.pred(j)
            j1 = V.rowsol(i)
            return IMP(AND(self.col(j), NOT(self.pinf(dd(j)))), OR(AND(EQ(i, fr), self.open(V, fr, j), EQ(dd(j), self.red(V, fr, j))),
                                       AND(self.row(i), NOT(EQ(i, fr)), self.open(V, i, j), EQ(V.fpos(i), -1), self.col(j1), LT(V.cpos(j1), V.cpos(j)), bound(j1), EQ(V.colsol(j1), i),
                                           EQ(dd(j), ADD(dd(j1), SUB(self.red(V, i, j), self.red(V, i, j1)))))))
        return [("how the columns were reached", q, 1)]

    def beyond(self, V, dd, done):
        """no column is farther than through a column that is done"""
        return [("no shorter way through a scanned column", lambda j, k: IMP(AND(self.col(j), self.col(k), done(j), self.open(V, V.colsol(j), k)), AND(NOT(self.pinf(dd(k))), LE(dd(k), ADD(dd(j), SUB(self.red(V, V.colsol(j), k), self.red(V, V.colsol(j), j)))))), 2)]

    def direct(self, V, fr, dd):
        return [("no shorter way from the free row itself", lambda k: IMP(AND(self.col(k), self.open(V, fr, k)), AND(NOT(self.pinf(dd(k))), LE(dd(k), self.red(V, fr, k)))), 1),
                ("settled columns are out of reach", lambda k: IMP(AND(self.col(k), self.W(V, k)), self.pinf(dd(k))), 1),
                ("distances are numbers", lambda k: IMP(self.col(k), NOT(self.ninf(dd(k)))), 1)]

    def dijkstra(self, ex, fr, h, body, st, phis):
        """the shortest augmenting path from a free row"""
        G = self.stack[-1][1]
        row = self.freerow = G.free(G.f)

        def parts(V):
            c, d = V.cpos, V.d
            return [("counters", lambda: AND(LE(0, V.low), LE(V.low, V.up), LE(V.up, self.N), LE(-1, V.last), OR(EQ(V.up, V.low), LT(V.last, V.low)), IMP(EQ(V.low, 0), EQ(V.up, 0)), self.isfin(V.min)), 0)] + self.perm(V) + [
                ("columns before are nearer and assigned", lambda j: IMP(AND(self.col(j), LT(c(j), V.up)), AND(NOT(self.dinf(V, j)), LE(d(j), V.min), LE(0, V.colsol(j)))), 1),
                ("columns to be scanned are at the minimum", lambda j: IMP(AND(self.col(j), LT(V.last, c(j)), LT(c(j), V.up)), EQ(d(j), V.min)), 1),
                ("columns after are not nearer", lambda j: IMP(AND(self.col(j), LE(1, V.low), LE(V.up, c(j))), self.xle(V.min, d(j))), 1),
            ] + self.direct(V, row, d) + self.beyond(V, d, lambda j: LT(c(j), V.low)) + self.reached(V, row, d, lambda j1: LT(c(j1), V.low))

        def facts(V, s):
            # pigeonhole: a finite assignment gives the rows of the scanned columns and the free row one column more than have been scanned
            who = lambda p: ITE(EQ(p, V.low), row, V.colsol(V.collist(p)))
            f = lambda p: V.cpos(self.y(who(p)))
            x, y, z = T.fresh("hole", "I"), T.fresh("hole", "I"), T.fresh("beyond", "I")
            t = s.fork(self.token([OR(AND(LE(0, z), LE(z, V.low), NOT(AND(LE(0, f(z)), LT(f(z), V.low)))), AND(LE(0, x), LT(x, y), LE(y, V.low), EQ(f(x), f(y))))]))      # lemma: pigeonhole
            left = self.y(who(z))
            found = IMP(EQ(V.up, V.low), AND(self.col(left), LE(V.up, V.cpos(left)), LT(V.cpos(left), self.N), NOT(self.dinf(V, left))))
            ex.oblige("a column within reach is left when all before are scanned", found, t)
            s.assume(found)

        def split(V):
            new = EQ(V.up, V.low)
            return [(new, ("found", None)), (new, ("none", "found")), (new, ("none", "none")), (NOT(new), (None, "found")), (NOT(new), (None, "none"))]
        out = self.loop(ex, fr, h, body, st, phis, "shortest path", {"low": "I", "up": "I", "last": "I", "min": "R"}, ["d", "pred", "collist"], {"cpos": "I"}, parts,
                        lambda V: {"cpos": lambda x: x}, lambda G, B: {}, fixed={"unassigned_found": 0}, split=split, facts=facts, variant=lambda V: SUB(self.N, V.low))
        if not out:
            raise Unsupported("the path never ends")
        # what is known of a path: the same for all ways to find it
        X = st.fork()
        X.pc = st.pc
        self.havoc(X, ["d", "pred", "collist"])
        e, last, mn = T.fresh("end", "I"), T.fresh("last", "I"), T.fresh("min", "R")
        g = self.ghosts({"cpos": "I"})
        k0, s0, p0 = out[0]
        if {stem(k) for k in p0} - {"k"} != {"endofpath", "last", "min"}:
            raise Unsupported("what is known of a path: %s" % sorted(p0))
        ph = {k: {"endofpath": e, "last": last, "min": mn}.get(stem(k), v) for k, v in p0.items()}
        for (t, s, p), gh in zip(out, self.exits):
            if t != k0 or any(stem(k) == "k" and p[k] != p0[k] for k in p):
                raise Unsupported("several ways on")
            self.oblige(ex, "path found", self.path, self.view(s, p, gh), s)
        V = self.view(X, ph, {**self.gh, **g})
        self.assume(X, self.path, V)
        self.gh = V.gh
        self.P = V
        return [(k0, X, ph)]

    def dd(self, V):
        """distances, the one of the end of the path being the minimum"""
        return lambda j: ITE(EQ(j, V.endofpath), V.min, V.d(j))      # (infinite or not: as the number it is)

    def path(self, V):
        c, e, dd, row = V.cpos, V.endofpath, self.dd(V), self.freerow
        return [("its end is an unassigned column", lambda: AND(self.col(e), LT(V.last, c(e)), EQ(V.colsol(e), -1), LE(-1, V.last), LT(V.last, self.N), self.isfin(V.min)), 0)] + self.perm(V) + [
            ("columns done are nearer and assigned", lambda j: IMP(AND(self.col(j), LE(c(j), V.last)), AND(NOT(self.dinf(V, j)), LE(V.d(j), V.min), LE(0, V.colsol(j)))), 1),
            ("other columns are not nearer", lambda j: IMP(AND(self.col(j), LT(V.last, c(j))), self.xle(V.min, V.d(j))), 1),
        ] + self.direct(V, row, dd) + self.beyond(V, dd, lambda j: LE(c(j), V.last)) + self.reached(V, row, dd, lambda j1: AND(NOT(self.dinf(V, j1)), LE(V.d(j1), V.min)))

    def minsearch(self, ex, fr, h, body, st, phis):
        """the columns at the smallest distance come first"""
        W_ = self.stack[-1][1]
        lo = W_.low

        def parts(V):
            return [("counters", lambda: AND(LT(lo, V.up), LE(V.up, V.k), LE(V.k, self.N)), 0)] + self.perm(V) + self.frontier(V, W_, lo) + [
                ("columns at the minimum", lambda j: IMP(AND(self.col(j), LE(lo, V.cpos(j)), LT(V.cpos(j), V.up)), self.xsame(V.d(j), V.min)), 1),
                ("columns seen are not nearer", lambda j: IMP(AND(self.col(j), LE(V.up, V.cpos(j)), LT(V.cpos(j), V.k)), self.xle(V.min, V.d(j))), 1)]

        def g1(G, B):
            dj = G.d(G.collist(G.k))
            less = NOT(self.xle(G.min, dj))
            return {"cpos": self.swapped(G, G.k, OR(less, NOT(EQ(B.up, G.up))), ITE(less, lo, G.up))}
        return self.nested(ex, fr, h, body, st, phis, "minimum search", {"up": "I", "min": "R", "k": "I"}, ["collist"], {"cpos": "I"}, parts, g1, lambda V: SUB(self.N, V.k))

    def check(self, ex, fr, h, body, st, phis):
        """is a column at the minimum unassigned?"""
        W_ = self.stack[-1][1]

        def parts(V):
            return [("counter", lambda: AND(LE(W_.low, V.k), LE(V.k, V.up)), 0),
                    ("columns seen are assigned", lambda p: IMP(AND(LE(W_.low, p), LT(p, V.k)), LE(0, V.colsol(V.collist(p)))), 1)]
        only = self.only[0]
        out = self.nested(ex, fr, h, body, st, phis, "unassigned at the minimum", {"k": "I"}, [], {}, parts, variant=lambda V: SUB(V.up, V.k))
        return self.choose(out, only)

    def scan(self, ex, fr, h, body, st, phis):
        """shorter ways through the next scanned column"""
        W_ = self.stack[-1][1]
        V0 = self.view(st, phis, self.gh)
        only = self.only[1]
        j1 = V0.collist(W_.low)
        i = V0.colsol(j1)
        mn0 = lambda: V0.d(j1)
        way = lambda V, j: ADD(mn0(), SUB(self.red(V, i, j), self.red(V, i, j1)))

        def parts(V):
            lo = V0.up
            return [("counters", lambda: AND(LE(lo, V.up), LE(V.up, V.k), LE(V.k, self.N)), 0)] + self.perm(V) + self.frontier(V, V0, lo) + [
                ("distances and ways", lambda j: IMP(self.col(j), OR(AND(self.xsame(V.d(j), V0.d(j)), OR(self.dinf(V, j), EQ(V.pred(j), V0.pred(j)))),
                                                                     AND(LE(lo, V.cpos(j)), LT(V.cpos(j), V.k), EQ(V.pred(j), i), self.open(V, i, j), self.isfin(V.d(j)), self.xle(V.d(j), V0.d(j)), EQ(V.d(j), way(V, j))))), 1),
                ("distances of columns seen", lambda j: IMP(AND(self.col(j), LE(lo, V.cpos(j)), LT(V.cpos(j), V.k), self.open(V, i, j)), AND(NOT(self.dinf(V, j)), LE(V.d(j), way(V, j)))), 1),
                ("columns found at the minimum", lambda j: IMP(AND(self.col(j), LE(lo, V.cpos(j)), LT(V.cpos(j), V.up)), AND(NOT(self.dinf(V, j)), EQ(V.d(j), mn0()), LE(0, V.colsol(j)))), 1)]

        def g1(G, B):
            return {"cpos": self.swapped(G, G.k, NOT(EQ(B.up, G.up)), G.up)}
        out = self.nested(ex, fr, h, body, st, phis, "scan", {"up": "I", "k": "I"}, ["d", "pred", "collist"], {"cpos": "I"}, parts, g1, lambda V: SUB(self.N, V.k))
        return self.choose(out, only)

    def nested(self, ex, fr, h, body, st, phis, name, sorts, mod, ghosts, parts, g1=lambda G, B: {}, variant=None):
        """a loop of the search; it is reached once for each way the round may go, its own obligations are the same"""
        only, mark = self.only, len(ex.obls)
        out = self.loop(ex, fr, h, body, st, phis, name, sorts, mod, ghosts, parts, lambda V: {}, g1, variant=variant)
        self.only = only
        key = (name, only[0] if name == "scan" else None)
        if self.done.setdefault(key, only) != only:
            del ex.obls[mark:]
        return out

    def choose(self, out, what):
        """the exit at the head of the loop, or the one from the middle"""
        if len(out) != 2:
            raise Unsupported("%d ways out of the loop" % len(out))
        return [out[1 if what == "found" else 0]]

    def prices(self, ex, fr, h, body, st, phis):
        """prices of the columns done fall"""
        P = self.P
        V0 = self.view(st, phis, self.gh)

        def parts(V):
            return [("counter", lambda: AND(LE(0, V.k), LE(V.k, ADD(P.last, 1))), 0),
                    ("prices", lambda j: IMP(self.col(j), ITE(LT(V.cpos(j), V.k), AND(self.isfin(V.v(j)), EQ(V.v(j), SUB(ADD(V0.v(j), V0.d(j)), P.min))), self.xsame(V.v(j), V0.v(j)))), 1)]
        return self.loop(ex, fr, h, body, st, phis, "prices", {"k": "I"}, ["v"], {}, parts, variant=lambda V: SUB(ADD(P.last, 1), V.k))

    def flip(self, ex, fr, h, body, st, phis):
        """the rows along the path change columns"""
        P, row = self.P, self.freerow
        V0 = self.view(st, phis, self.gh)
        dd = self.dd(P)

        def parts(V):
            e = V.endofpath
            return [("the column", lambda: AND(self.col(e), NOT(self.pinf(dd(e))), LE(dd(e), P.min)), 0),
                    ("settled columns keep their rows", lambda j: IMP(AND(self.col(j), self.W(V, j)), EQ(V.colsol(j), V0.colsol(j))), 1),
                    ("entries taken are finite", lambda j: IMP(AND(self.col(j), NOT(EQ(j, e)), LE(0, V.colsol(j))), self.fin(V.colsol(j), j)), 1),
                    ("every other assigned column has a row", lambda j: IMP(AND(self.col(j), NOT(EQ(j, e))), OR(EQ(V.colsol(j), -1), AND(self.row(V.colsol(j)), EQ(V.fpos(V.colsol(j)), -1), EQ(V.rowsol(V.colsol(j)), j)))), 1),
                    ("every other row has a column of its own", lambda i: IMP(AND(self.row(i), EQ(V.fpos(i), -1)), AND(self.col(V.rowsol(i)), EQ(V.colsol(V.rowsol(i)), i), NOT(EQ(V.rowsol(i), e)))), 1),
                    ("assigned columns are the cheapest of their rows", lambda j, k: IMP(AND(self.col(j), self.col(k), NOT(EQ(j, e)), LE(0, V.colsol(j))), self.tight(V, V.colsol(j), j, k)), 2),
                    ("unassigned columns have price zero", lambda j: IMP(AND(self.col(j), NOT(EQ(j, e)), EQ(V.colsol(j), -1)), EQ(V.v(j), Fraction(0))), 1),
                    ("rows before are as they were", lambda i: IMP(AND(self.row(i), EQ(V.fpos(i), -1), LT(V.cpos(V0.rowsol(i)), V.cpos(e))), EQ(V.rowsol(i), V0.rowsol(i))), 1)]
        return self.loop(ex, fr, h, body, st, phis, "path reversal", {"endofpath": "I"}, ["rowsol", "colsol"], {}, parts, variant=lambda V: V.cpos(V.endofpath))

    def total(self, ex, fr, h, body, st, phis):
        """row prices and the cost"""
        V0 = self.view(st, phis, self.gh)
        t = next(T._fresh)
        S = self.psum = lambda n: T.app("psum%d" % t, "R", n)
        ex.fact(EQ(S(0), Fraction(0)))
        k = next(v for v in phis)

        def parts(V):
            return [("counter", lambda: AND(LE(0, V.i), LE(V.i, self.R)), 0),
                    ("row prices", lambda x: IMP(AND(LE(0, x), LT(x, V.i)), self.xsame(V.u(x), self.red(V, x, V.rowsol(x)))), 1),
                    ("cost", lambda: AND(self.isfin(V.rlapcost), EQ(V.rlapcost, S(V.i))), 0)]

        def facts(V, s):
            s.assume(EQ(S(ADD(V.i, 1)), ADD(S(V.i), self.C(V.i, V.rowsol(V.i)))))
        return self.loop(ex, fr, h, body, st, phis, "total", {"i": "I", "rlapcost": "R"}, ["u"], {}, parts, facts=facts, variant=lambda V: SUB(self.R, V.i))


def pigeonhole(f, n, x, y):
    """n + 1 numbers cannot all have different images below n: two that have the same are x and y"""
    return IMP(fa(lambda z: IMP(AND(LE(0, z), LE(z, n)), AND(LE(0, f(z)), LT(f(z), n))), 1), AND(LE(0, x), LT(x, y), LE(y, n), EQ(f(x), f(y))))


def settle(prf, A, ex, fn):
    seen = set()
    for k, v in ex.trusted.items():
        prf.trusted[k] = prf.trusted.get(k, 0) + v
    prf.loops += ex.loopinfo
    for name, pc, cond, nf in ex.obls:
        for g in split_goal(cond):
            key = (g.id if isinstance(g, Term) else g, tuple(x.id if isinstance(x, Term) else x for x in pc))
            if key in seen:
                continue
            seen.add(key)
            st, be, dt, de = discharge(ex.facts[:nf], [A.expand(x) for x in pc], g)
            prf.results.append(Result("%s: %s" % (fn, name), st, be, dt, de, fn))
    ex.obls = []


def answer(A, V):
    """contract of rlap: a finite assignment exists (precondition); it gives one, and duals that prove it cheapest"""
    W = lambda j: A.W(V, j)
    return [("every row has a column, by a finite entry", lambda i: IMP(A.row(i), AND(A.col(V.rowsol(i)), A.fin(i, V.rowsol(i)))), 1),
            ("the columns are different", lambda i, k: IMP(AND(A.row(i), A.row(k), EQ(V.rowsol(i), V.rowsol(k))), EQ(i, k)), 2),
            ("dual variables: no finite entry in a column that is not settled is below the sum of its row and column dual", lambda i, j: IMP(AND(A.row(i), A.col(j), A.fin(i, j), NOT(W(j))), AND(NOT(A.pinf(V.u(i))), LE(ADD(V.u(i), V.v(j)), A.C(i, j)))), 2),
            ("dual variables: chosen entries are equal to it", lambda i: IMP(A.row(i), AND(T.eq(A.pinf(V.u(i)), W(V.rowsol(i))), OR(W(V.rowsol(i)), EQ(ADD(V.u(i), V.v(V.rowsol(i))), A.C(i, V.rowsol(i)))))), 1),
            ("column duals are not positive", lambda j: IMP(A.col(j), AND(NOT(A.pinf(V.v(j))), OR(W(j), LE(V.v(j), Fraction(0))))), 1),
            ("column duals are zero outside the assignment", lambda j: IMP(A.col(j), OR(AND(NOT(W(j)), EQ(V.v(j), Fraction(0))), AND(A.row(V.colsol(j)), EQ(V.rowsol(V.colsol(j)), j)))), 1),
            ("settled columns: their rows have no other finite entry, but in those of smaller rank", lambda i, j: IMP(AND(A.row(i), A.col(j), W(V.rowsol(i)), A.fin(i, j)), AND(W(j), LE(0, V.rk(j)), OR(EQ(j, V.rowsol(i)), LT(V.rk(j), V.rk(V.rowsol(i)))))), 2)]


def rlap(prf):
    fn = "lap::rlap"
    A = Asg()
    A.done, A.nfree = {}, A.R
    w = W("assign", ["d_rlap"])
    ex, st = w.ex(alloc=A.alloc, extended=A.extended())
    A.start(w, ex, st)
    st.assume(A.token(A.complete()))
    ex.loop_specs = {(r"rlap", None): A.handler}
    a = A.arr
    r, st = ex.call("d_rlap", [A.R, A.N, Ptr(A.mat, 0), Ptr(a["rowsol"][0], 0), Ptr(a["colsol"][0], 0), Ptr(a["u"][0], 0), Ptr(a["v"][0], 0)], st)
    settle(prf, A, ex, fn)
    prf.function("lap::rlap<int, double>")
    prf.function("lap::find_umins_plain<int, double>")
    V = A.view(st, {}, A.gh)
    pc = [A.expand(x) for x in st.pc]
    i, k, j = T.sym("i", "I"), T.sym("k", "I"), T.sym("j", "I")
    P = lambda nm, c: prf.prove(fn, nm, c, ex.facts, pc)
    for nm, b, n in answer(A, V):
        P(nm, b(*[i, j, k][:n]))
    P("the cost is the sum of the chosen entries", EQ(r, A.psum(A.R)))
    prf.reachable(fn, ex.facts, [x for x in st.pc])


def rlap_one(prf):
    """the matrix of one entry (one row of one column has no second smallest entry)"""
    fn = "lap::rlap (1 x 1)"
    A = Asg(1, 1)
    w = W("assign", ["d_rlap"])
    ex, st = w.ex(alloc=A.alloc)
    A.start(w, ex, st)
    c = T.sym("c", "R")
    mats.setcontent(A.mat, st, c)
    a = A.arr
    r, st = ex.call("d_rlap", [1, 1, Ptr(A.mat, 0), Ptr(a["rowsol"][0], 0), Ptr(a["colsol"][0], 0), Ptr(a["u"][0], 0), Ptr(a["v"][0], 0)], st)
    prf.take(ex, fn)
    prf.prove(fn, "the row has the column, at its cost", AND(EQ(ex.aread(a["rowsol"][0], 0, 0, I32, 4, st), 0), EQ(r, c)), ex.facts, st.pc)


class Match(Asg):
    """match_row: Kuhn's search for an augmenting path over the finite entries"""

    def P(self, i, j):
        return T.app("finite", "B", i, j)

    def world(self, w, ex, st):
        R, N = self.R, self.N
        for c in (LE(1, R), LE(1, N)):
            ex.fact(c)
        data = mats.new(ex, st, "notinf", R, N, fast=R, size=1, sort="I")
        data.readonly = True
        mats.setcontent(data, st, ITE(T.app("finite", "B", T.FV, T.SV), 1, 0))
        self.notinf = Obj("notinf header", 24)
        self.notinf.readonly = True
        st.wos(self.notinf).cells.update({0: (8, Ptr(data, 0)), 8: (8, R), 16: (8, N)})
        self.vec = {}
        for nm, size in (("matched", 4), ("seen", 1)):
            a = self.array(ex, st, nm, N, "I", lambda i, f, ty, nm=nm: T.app(nm + ".0", "I", i), size=size)
            v = self.vec[nm] = Obj(nm + " header", 24)
            v.readonly = True
            e = Ptr(a, T.scale(size, N))
            st.wos(v).cells.update({0: (8, Ptr(a, 0)), 8: (8, e), 16: (8, e)})

    def args(self, row):
        return [Ptr(self.notinf, 0), row, Ptr(self.vec["matched"], 0), Ptr(self.vec["seen"], 0)]

    # pos: the column not yet seen that has the row, or -1
    def pre(self, V, row, pos):
        m, un = V.matched, lambda c: AND(self.col(c), EQ(V.seen(c), 0))
        return [("the row is a row", lambda: self.row(row), 0),
                ("matched rows are rows", lambda c: IMP(self.col(c), OR(LT(m(c), 0), self.row(m(c)))), 1),
                ("columns not seen have a row of their own, with a finite entry", lambda c: IMP(AND(un(c), LE(0, m(c))), AND(self.P(m(c), c), EQ(pos(m(c)), c))), 1),
                ("rows know their column", lambda i: IMP(AND(self.row(i), NOT(EQ(pos(i), -1))), AND(un(pos(i)), EQ(m(pos(i)), i))), 1),
                ("the row has no column", lambda: EQ(pos(row), -1), 0)]

    def common(self, V, B):
        return [("columns seen stay seen", lambda c: IMP(AND(self.col(c), NOT(EQ(V.seen(c), 0))), NOT(EQ(B.seen(c), 0))), 1),
                ("columns seen before keep their rows", lambda c: IMP(AND(self.col(c), NOT(EQ(V.seen(c), 0))), EQ(B.matched(c), V.matched(c))), 1),
                ("matched rows are rows, then", lambda c: IMP(self.col(c), OR(LT(B.matched(c), 0), self.row(B.matched(c)))), 1)]

    def found(self, V, B, row, pos, pos1):
        un, m = (lambda c: AND(self.col(c), EQ(V.seen(c), 0))), B.matched
        return [("found: columns have a row of their own, with a finite entry", lambda c: IMP(AND(un(c), LE(0, m(c))), AND(self.P(m(c), c), EQ(pos1(m(c)), c))), 1),
                ("found: rows know their column", lambda i: IMP(AND(self.row(i), NOT(EQ(pos1(i), -1))), AND(un(pos1(i)), EQ(m(pos1(i)), i))), 1),
                ("found: the row has a column now, and every row that had one", lambda i: IMP(self.row(i), T.eq(NOT(EQ(pos1(i), -1)), OR(EQ(i, row), NOT(EQ(pos(i), -1))))), 1)]

    def closed(self, V, B, row):
        return [("not found: all finite entries of the row are in columns seen", lambda k: IMP(AND(self.col(k), self.P(row, k)), NOT(EQ(B.seen(k), 0))), 1),
                ("not found: columns newly seen have rows", lambda c: IMP(AND(self.col(c), EQ(V.seen(c), 0), NOT(EQ(B.seen(c), 0))), LE(0, V.matched(c))), 1),
                ("not found: and so have the rows of the columns newly seen", lambda c, k: IMP(AND(self.col(c), EQ(V.seen(c), 0), NOT(EQ(B.seen(c), 0)), self.col(k), self.P(V.matched(c), k)), NOT(EQ(B.seen(k), 0))), 2)]

    def contract(self, c, row, pos, name, one=None):
        """a call: precondition obliged; -> (found, ghost column of each row)"""
        ex, st = c.ex, c.st
        V = self.view(st, {}, {})
        self.oblige(ex, name, lambda V: self.pre(V, row, pos), V, st)
        if one:
            ex.oblige(*one(V), st)
        V0 = self.view(st.fork(), {}, {})
        t = next(T._fresh)
        ok = T.fresh("found", "B")
        for nm in ("matched", "seen"):
            o, sort = self.arr[nm]
            new = T.app("%s.%d" % (nm, t), "I", KVAR)
            if nm == "matched":
                new = ITE(ok, new, getattr(V0, nm)(KVAR))
            st.wos(o).log = (("map", 0, o.length, {0: (o.stride, Tmpl(new))}),)
        B = self.view(st, {}, {})
        pos1 = lambda i: T.app("pos.%d" % t, "I", i)
        st.assume(self.token([fa(b, n) for nm, b, n in self.common(V0, B)] +
                             [IMP(ok, fa(b, n)) for nm, b, n in self.found(V0, B, row, pos, pos1)] + [IMP(NOT(ok), fa(b, n)) for nm, b, n in self.closed(V0, B, row)]))
        return ok, pos1


def match_row(prf):
    fn = "lap::match_row"
    A = Match()
    name = "^bool lap::match_row<"
    row = T.sym("row", "I")
    pos0 = lambda i: T.app("pos.0", "I", i)
    last = {}

    def model(c):
        p, r, m, s = c.args
        for x, o in ((p, A.notinf), (m, A.vec["matched"]), (s, A.vec["seen"])):
            if not (isinstance(x, Ptr) and x.obj is o and x.off == 0):
                raise Unsupported("other arguments in the recursive call")
        V, V0 = A.view(c.st.fork(), {}, {}), A.V0
        pos = lambda i: ITE(AND(NOT(EQ(pos0(i), -1)), EQ(V.seen(pos0(i)), 0)), pos0(i), -1)
        x = T.fresh("any", "I")
        more = lambda V: ("recursion: a column more is seen and none less", AND(IMP(AND(A.col(x), NOT(EQ(V0.seen(x), 0))), NOT(EQ(V.seen(x), 0))), AND(A.col(A.here), EQ(V0.seen(A.here), 0), NOT(EQ(V.seen(A.here), 0)))))
        last["seen"] = V.seen
        ok, last["pos"] = A.contract(c, r, pos, "recursion", more)
        last["ok"] = ok
        return ok
    w = W("assign", [], also=[name], models=[(name, model, None)])
    ex, st = w.ex()
    A.world(w, ex, st)
    V0 = A.V0 = A.view(st.fork(), {}, {})
    A.assume(st, lambda V: A.pre(V, row, pos0), V0)

    def handler(ex, fr, h, body, s0, phis):
        def parts(V):
            A.here = V.col
            return [("counter", lambda: AND(LE(0, V.col), LE(V.col, A.N)), 0),
                    ("nothing is matched yet", lambda c: IMP(A.col(c), EQ(V.matched(c), V0.matched(c))), 1),
                    ("columns seen stay seen", lambda c: IMP(AND(A.col(c), NOT(EQ(V0.seen(c), 0))), NOT(EQ(V.seen(c), 0))), 1),
                    ("finite entries of the row so far are in columns seen", lambda k: IMP(AND(LE(0, k), LT(k, V.col), A.P(row, k)), NOT(EQ(V.seen(k), 0))), 1),
                    ] + A.closed(V0, V, row)[1:]
        G = {}
        out = A.loop(ex, fr, h, body, s0, phis, "columns", {"col": "I"}, ["matched", "seen"], {}, parts, variant=lambda V: SUB(A.N, V.col))
        G["col"] = A.V.col
        last["col"] = A.V.col
        return out
    A.loops = ex.loop_specs = {(r"match_row", None): handler}
    r, st = ex.call(w.find(name)[0], A.args(row), st)
    settle(prf, A, ex, fn)
    prf.function("lap::match_row")
    B = A.view(st, {}, {})
    pc = [A.expand(x) for x in st.pc]
    col, ok, seen = last["col"], last["ok"], last["seen"]
    # the column found has the row; rows of columns seen meanwhile keep theirs; the others as the recursive call left them
    deep = AND(ok, LE(0, V0.matched(col)))
    pos1 = lambda i: ITE(EQ(i, row), col, ITE(deep, ITE(NOT(EQ(last["pos"](i), -1)), last["pos"](i), ITE(AND(NOT(EQ(pos0(i), -1)), NOT(EQ(pos0(i), col)), NOT(EQ(seen(pos0(i)), 0))), pos0(i), -1)), pos0(i)))
    for when, l in ((True, A.common(V0, B)), (r, A.found(V0, B, row, pos0, pos1)), (NOT(r), A.closed(V0, B, row)), (NOT(r), [("not found: nothing is matched", lambda c: IMP(A.col(c), EQ(B.matched(c), V0.matched(c))), 1)])):
        for nm, b, n in l:
            vs = [T.fresh("x", "I") for _ in range(n)]
            prf.prove(fn, nm, IMP(when, b(*vs)), ex.facts, pc)
    for v in (r, NOT(r)):
        prf.reachable(fn, ex.facts, list(st.pc) + [v])


def solver(prf):
    """lap::lap: a finite assignment exists if and only if it says so, and the answer is rlap's for the matrix given"""
    fn = "lap::lap"
    A = Match()
    R, N = A.R, A.N
    MR, RL = "^bool lap::match_row<", "^double lap::rlap<"
    got = {}

    def m_fpclass(c):
        x, mask = c.args
        if mask != 516 or not (isinstance(x, Term) and x.op == "app:C"):
            raise Unsupported("class of a number that is not an entry")
        return NOT(A.P(*x.args))

    def header(c, p, nm):
        """a vector, all its elements"""
        a = A.arr[nm][0]
        b, e = (c.ex.load(Ptr(p.obj, p.off + k), PTR, c.st) for k in (0, 8))
        if not (b.obj is a and e.obj is a and T.eq(b.off, 0) is True and T.eq(e.off, T.scale(a.stride, N)) is True):
            raise Unsupported("not the vector %s of all columns" % nm)

    def m_match(c):
        p, row, m, s = c.args
        d, r, n = (c.ex.load(Ptr(p.obj, p.off + k), ty, c.st) for k, ty in ((0, PTR), (8, I64), (16, I64)))
        if d.obj is not A.data or d.off != 0:
            raise Unsupported("another matrix of finite entries")
        i, j = T.sym("i", "I"), T.sym("j", "I")
        c.ex.oblige("finite entries: the size of the matrix", AND(EQ(r, R), EQ(n, N)), c.st)
        c.ex.oblige("finite entries: those that are not infinite", IMP(AND(A.row(i), A.col(j)), T.eq(NOT(EQ(mats.at(c.ex, A.data, i, j, c.st), 0)), A.P(i, j))), c.st)
        header(c, m, "matched")
        header(c, s, "seen")
        x = T.fresh("x", "I")
        c.ex.oblige("no column is seen at first", IMP(A.col(x), EQ(A.view(c.st, {}, {}).seen(x), 0)), c.st)
        V = A.view(c.st.fork(), {}, {})
        pos = A.gh["pos"]
        ok, pos1 = A.contract(c, row, pos, "row")
        got.update(ok=ok, row=row, V=V, B=A.view(c.st.fork(), {}, {}))
        A.gh = {**A.gh, "pos": lambda i: ITE(ok, pos1(i), pos(i))}
        return ok

    def m_rlap(c):
        rows, cols, cost, verbose, x, y, u, v = c.args
        ex, st = c.ex, c.st
        f = lambda i: A.gh["pos"](i)
        hx, hy, i, j = T.fresh("hole", "I"), T.fresh("hole", "I"), T.sym("i", "I"), T.sym("j", "I")
        ex.oblige("rlap: rows and columns", AND(EQ(rows, R), EQ(cols, N)), st)
        ex.oblige("rlap: not more rows than columns", LE(R, N), st.fork(A.token([pigeonhole(f, N, hx, hy)])))
        ex.oblige("rlap: a finite assignment exists", AND(IMP(A.row(i), AND(A.col(f(i)), A.P(i, f(i)))), IMP(AND(A.row(i), A.row(j), EQ(f(i), f(j))), EQ(i, j))), st)
        ex.oblige("rlap: the costs row by row", IMP(AND(A.row(i), A.col(j)), EQ(mats.at(ex, cost.obj, j, i, st), A.C(i, j))), st)
        if cost.off != 0 or cost.obj.meta["fast"] is not N or verbose is not False:
            raise Unsupported("matrix of another layout")
        for p, nm in ((x, "rowsol"), (y, "colsol"), (u, "u"), (v, "v")):
            if p.obj is not A.arr[nm][0] or T.eq(p.off, 0) is not True:
                raise Unsupported("rlap: %s" % nm)
        ex.oblige("rlap: column prices are zero at first", IMP(A.col(j), EQ(A.view(st, {}, {}).v(j), Fraction(0))), st)
        A.havoc(st, ["rowsol", "colsol", "u", "v"])
        V = got["sol"] = A.view(st.fork(), {}, {})
        st.assume(A.token([fa(lambda i: IMP(A.row(i), A.col(V.rowsol(i))), 1)]))      # of the contract of rlap (answer), what is needed here
        return T.fresh("cost", "R")

    def alloc(c, size):
        ex, st = c.ex, c.st
        if T.eq(size, T.scale(4, N)) is True:
            nm = "colsol" if "colsol" not in A.arr else "matched"
            if nm not in A.arr:
                return Ptr(A.array(ex, st, nm, N, "I"), 0)
        elif T.eq(size, N) is True:
            return Ptr(A.array(ex, st, "seen", N, "I", size=1), 0)
        elif T.eq(size, T.mul(R, N)) is True:
            A.data = mats.new(ex, st, "notinf", R, N, fast=R, size=1, sort="I")
            return Ptr(A.data, 0)
        elif T.eq(size, T.scale(8, T.mul(R, N))) is True:
            return Ptr(mats.new(ex, st, "costs", N, R, fast=N), 0)
        raise Unsupported("allocation of %s" % T.show(size))
    w = W("assign", ["d_lap"], stub=[MR, RL], models=[(MR, m_match, None), (RL, m_rlap, None), ("llvm.is.fpclass", m_fpclass, None)])
    ex, st = w.ex(alloc=alloc, branch_prune=True, infinite=infinite(lambda t: NOT(A.P(*t.args)) if t.op == "app:C" else None))
    for c in (LE(1, R), LE(1, N)):
        ex.fact(c)
    mat = mats.new(ex, st, "C", N, R, fast=N)
    mat.readonly = True
    mats.setcontent(mat, st, T.app("C", "R", T.SV, T.FV))

    def obj(nm, *cells):
        o = Obj(nm, 8 * len(cells))
        o.readonly = True
        st.wos(o).cells.update({8 * k: (8, v) for k, v in enumerate(cells)})
        return Ptr(o, 0)
    vec = lambda nm, n, sort: obj(nm + " header", Ptr(A.array(ex, st, nm, n, sort), 0), n)
    args = [obj("C header", Ptr(mat, 0), R, N), vec("rowsol", R, "I"), vec("u", R, "R"), vec("v", N, "R")]

    def handler(ex, fr, h, body, s0, phis):
        own = {stem(k) for k in phis}
        if "row" in own:
            A.gh = {"pos": lambda i: -1}

            def parts(V):
                m, pos = V.matched, V.pos
                return [("counter", lambda: AND(LE(0, V.row), LE(V.row, R)), 0),
                        ("matched rows are rows", lambda c: IMP(A.col(c), OR(LT(m(c), 0), A.row(m(c)))), 1),
                        ("matched columns have a finite entry", lambda c: IMP(AND(A.col(c), LE(0, m(c))), AND(A.P(m(c), c), EQ(pos(m(c)), c))), 1),
                        ("rows before have a column, others have none", lambda i: IMP(A.row(i), ITE(LT(i, V.row), AND(A.col(pos(i)), EQ(m(pos(i)), i)), EQ(pos(i), -1))), 1)]
            return A.loop(ex, fr, h, body, s0, phis, "rows", {"row": "I"}, ["matched"], {"pos": "I"}, parts, scratch=[o for o in s0.mem if o.kind == "cell" and "seen" in o.name], variant=lambda V: SUB(R, V.row))
        r = ex.peel(fr, h, body, s0, phis, 10)
        return r if r is not None and r != "long" else ex.summarise(fr, h, body, s0, phis)
    ex.loop_specs = {(r".*", None): handler}
    r, st = ex.call("d_lap", args, st)
    settle(prf, A, ex, fn)
    prf.function("lap::lap")
    pc = [A.expand(x) for x in st.pc]
    # Hall: no other way of giving columns to the rows (the columns seen, one less than their rows, hold all their finite entries)
    a = lambda i: T.app("other", "I", i)
    m, V, B, row = got["V"].matched, got["V"], got["B"], got["row"]
    g = lambda c: ITE(EQ(c, N), a(row), ITE(NOT(EQ(B.seen(c), 0)), a(m(c)), c))
    x, y = T.fresh("hole", "I"), T.fresh("hole", "I")
    other = [fa(lambda i: IMP(A.row(i), AND(A.col(a(i)), A.P(i, a(i)))), 1), fa(lambda i, k: IMP(AND(A.row(i), A.row(k), EQ(a(i), a(k))), EQ(i, k)), 2)]
    prf.prove(fn, "if it says no, no finite assignment exists", r, ex.facts, pc + other + [pigeonhole(g, N, x, y)])
    pos, i, k = A.gh["pos"], T.sym("i", "I"), T.sym("k", "I")
    prf.prove(fn, "if it says yes, a finite assignment exists", IMP(r, AND(IMP(A.row(i), AND(A.col(pos(i)), A.P(i, pos(i)))), IMP(AND(A.row(i), A.row(k), EQ(pos(i), pos(k))), EQ(i, k)))), ex.facts, pc)
    V, E = got["sol"], A.view(st, {}, {})
    for nm, sort in (("rowsol", "row"), ("u", "row"), ("v", "col")):
        prf.prove(fn, "if it says yes, %s is as rlap leaves it" % nm, IMP(AND(r, getattr(A, sort)(i)), EQ(getattr(E, nm)(i), getattr(V, nm)(i))), ex.facts, pc)
    for c in (r, NOT(r)):
        prf.reachable(fn, ex.facts, list(st.pc) + [c])


def cost(prf):
    """lap::cost: the sum of the entries an assignment takes"""
    fn = "lap::cost"
    A = Asg()
    R, N = A.R, A.N

    def alloc(c, size):
        if T.eq(size, T.scale(4, R)) is True:
            return Ptr(A.array(c.ex, c.st, "res", R, "I"), 0)
        raise Unsupported("allocation of %s" % T.show(size))
    w = W("assign", ["d_cost"])
    ex, st = w.ex(alloc=alloc, branch_prune=True)
    for c in (LE(0, R), LE(1, N)):
        ex.fact(c)
    mat = mats.new(ex, st, "C", N, R, fast=N)
    mat.readonly = True
    mats.setcontent(mat, st, T.app("C", "R", T.SV, T.FV))
    x = lambda i: T.app("x", "I", i)
    xs = A.array(ex, st, "rowsol", R, "I", lambda i, f, ty: x(i))
    xs.readonly = True
    st.assume(A.token([fa(lambda i: IMP(A.row(i), A.col(x(i))), 1)]))

    def obj(nm, *cells):
        o = Obj(nm, 8 * len(cells))
        o.readonly = True
        st.wos(o).cells.update({8 * k: (8, v) for k, v in enumerate(cells)})
        return Ptr(o, 0)
    S = lambda n: T.app("psum", "R", n)
    ex.fact(EQ(S(0), Fraction(0)))

    def handler(ex, fr, h, body, s0, phis):
        parts = lambda V: [("counter", lambda: AND(LE(0, V.i), LE(V.i, R)), 0), ("sum of the entries so far", lambda: EQ(V.c, S(V.i)), 0)]
        facts = lambda V, s: s.assume(EQ(S(ADD(V.i, 1)), ADD(S(V.i), A.C(V.i, x(V.i)))))
        return A.loop(ex, fr, h, body, s0, phis, "sum", {"i": "I", "c": "R"}, [], {}, parts, facts=facts, variant=lambda V: SUB(R, V.i))
    ex.loop_specs = {(r".*", None): handler}
    r, st = ex.call("d_cost", [obj("C header", Ptr(mat, 0), R, N), obj("x header", Ptr(xs, 0), R)], st)
    settle(prf, A, ex, fn)
    prf.function("lap::cost")
    prf.prove(fn, "the sum of the entries", EQ(r, S(R)), ex.facts, [A.expand(x) for x in st.pc])
    prf.reachable(fn, ex.facts, list(st.pc))


def lemmas(prf):
    """what sums and injections add to the contracts: the duals prove that no assignment costs less"""
    fn = "lemma"
    n, N, x0, y0, i0 = T.sym("n", "I", 0), T.sym("N", "I", 0), T.sym("x0", "I"), T.sym("y0", "I"), T.sym("i0", "I", 0)
    Z = Fraction(0)
    I_ = lambda nm: (lambda z: T.app(nm, "I", z))
    R_ = lambda nm: (lambda z: T.app(nm, "R", z))
    P = lambda nm, goal, facts: prf.prove(fn, nm, goal, [], facts)
    f = I_("f")
    below = lambda m: fa(lambda z: IMP(AND(LE(0, z), LE(z, m)), AND(LE(0, f(z)), LT(f(z), m))), 1)
    apart = lambda m: fa(lambda x, y: IMP(AND(LE(0, x), LT(x, y), LE(y, m)), NOT(EQ(f(x), f(y)))), 2)
    P("pigeonhole, none", False, [below(0), apart(0)])
    g = lambda z: ITE(EQ(f(z), n), f(ADD(n, 1)), f(z))
    P("pigeonhole, one more", False, [below(ADD(n, 1)), apart(ADD(n, 1)), pigeonhole(g, n, x0, y0)])
    # sums: S(0) = 0, S(n + 1) = S(n) + w(n)
    w, w2, w3 = R_("w"), R_("w2"), R_("w3")
    S, S2, S3 = R_("S"), R_("S2"), R_("S3")
    rec = lambda S, w, m: [EQ(S(0), Z), EQ(S(ADD(m, 1)), ADD(S(m), w(m)))]
    all_ = lambda b, m: fa(lambda z: IMP(AND(LE(0, z), LT(z, m)), b(z)), 1)
    m1 = ADD(n, 1)

    def induction(nm, prem, concl, sums):
        base = [x for S_, w_ in sums for x in rec(S_, w_, 0)]
        step = [x for S_, w_ in sums for x in rec(S_, w_, n)]
        P(nm + ", none", concl(0), base + prem(0))
        P(nm + ", one more", concl(m1), step + prem(m1) + [IMP(AND(*prem(n)), concl(n))])
    induction("equal terms, equal sums", lambda m: [all_(lambda z: EQ(w(z), w2(z)), m)], lambda m: EQ(S(m), S2(m)), [(S, w), (S2, w2)])
    induction("smaller terms, smaller sum", lambda m: [all_(lambda z: LE(w(z), w2(z)), m)], lambda m: LE(S(m), S2(m)), [(S, w), (S2, w2)])
    induction("sum of sums", lambda m: [all_(lambda z: EQ(w3(z), ADD(w(z), w2(z))), m)], lambda m: EQ(S3(m), ADD(S(m), S2(m))), [(S, w), (S2, w2), (S3, w3)])
    induction("one term changed", lambda m: [all_(lambda z: EQ(w2(z), ITE(EQ(z, i0), Z, w(z))), m)], lambda m: EQ(S2(m), SUB(S(m), ITE(LT(i0, m), w(i0), Z))), [(S, w), (S2, w2)])
    induction("terms not positive, sum not positive", lambda m: [all_(lambda z: LE(w(z), Z), m)], lambda m: LE(S(m), Z), [(S, w)])
    induction("zero terms, zero sum", lambda m: [all_(lambda z: EQ(w(z), Z), m)], lambda m: EQ(S(m), Z), [(S, w)])
    # over the columns s(0..n-1) of n rows, all different: A(n) = sum of w(s(i)); over all columns: B.  w2: w without column s(n)
    s = I_("s")
    A, A2, B, B2 = R_("A"), R_("A2"), T.sym("B", "R"), T.sym("B2", "R")
    inj = [all_(lambda z: AND(LE(0, s(z)), LT(s(z), N)), m1), fa(lambda x, y: IMP(AND(LE(0, x), LT(x, y), LE(y, n)), NOT(EQ(s(x), s(y)))), 2)]
    c = s(n)
    common = inj + rec(A, lambda z: w(s(z)), n) + [fa(lambda z: EQ(w2(z), ITE(EQ(z, c), Z, w(z))), 1)]
    common += [IMP(all_(lambda z: EQ(w(s(z)), w2(s(z))), n), EQ(A(n), A2(n))),               # equal terms, equal sums
               EQ(B2, SUB(B, ITE(LT(c, N), w(c), Z)))]                                       # one term changed
    np = lambda w: all_(lambda z: LE(w(z), Z), N)
    P("different columns, prices not positive: not below the sum of all, one more", LE(B, A(m1)), common + [np(w), IMP(np(w2), LE(B2, A2(n)))])
    img, img2 = I_("img"), lambda z: ITE(LT(img(z), n), img(z), -1)

    def out(w, img, m):                                            # img: which row has the column
        return fa(lambda z: IMP(AND(LE(0, z), LT(z, N)), OR(EQ(w(z), Z), AND(LE(0, img(z)), LT(img(z), m), EQ(s(img(z)), z)))), 1)
    P("columns outside are free: the sum of all, one more", EQ(B, A(m1)), common + [out(w, img, m1), IMP(out(w2, img, n), EQ(B2, A2(n)))])
    # settled columns (contract of rlap: answer): every complete finite assignment z gives them to their rows, by induction on the rank; prices as if they were none
    s, z, rk, rt, Cc = I_("s"), I_("z"), I_("rank"), I_("taken by"), lambda a, b: T.app("C", "R", a, b)
    u, v, W, fin = R_("u"), R_("v"), lambda j: T.app("settled", "B", j), lambda a, b: T.app("finite", "B", a, b)
    a, b, b2 = T.sym("a", "I"), T.sym("b", "I"), T.sym("b2", "I")
    R = T.sym("R", "I", 0)
    row, col = (lambda i: AND(LE(0, i), LT(i, R))), (lambda j: AND(LE(0, j), LT(j, N)))
    asg = lambda s: [fa(lambda i: IMP(row(i), AND(col(s(i)), fin(i, s(i)))), 1), fa(lambda i, k: IMP(AND(row(i), row(k), EQ(s(i), s(k))), EQ(i, k)), 2)]
    Wr = lambda i: W(s(i))
    ANS = asg(s) + [fa(lambda i, j: IMP(AND(row(i), col(j), fin(i, j), NOT(W(j))), AND(NOT(Wr(i)), LE(ADD(u(i), v(j)), Cc(i, j)))), 2),
                    fa(lambda i: IMP(row(i), OR(Wr(i), EQ(ADD(u(i), v(s(i))), Cc(i, s(i))))), 1), fa(lambda j: IMP(col(j), OR(W(j), LE(v(j), Z))), 1),
                    fa(lambda j: IMP(col(j), OR(AND(NOT(W(j)), EQ(v(j), Z)), AND(row(rt(j)), EQ(s(rt(j)), j)))), 1),
                    fa(lambda i, j: IMP(AND(row(i), col(j), Wr(i), fin(i, j)), AND(W(j), LE(0, rk(j)), OR(EQ(j, s(i)), LT(rk(j), rk(s(i)))))), 2)]
    before = fa(lambda i: IMP(AND(row(i), Wr(i), LT(rk(s(i)), rk(s(a)))), EQ(z(i), s(i))), 1)
    P("settled rows have one way only, if those of smaller rank have", IMP(AND(row(a), Wr(a)), AND(LE(0, rk(s(a))), EQ(z(a), s(a)))), ANS + asg(z) + [before])
    MUST = [fa(lambda i: IMP(AND(row(i), Wr(i)), EQ(z(i), s(i))), 1)]
    P("settled columns are for settled rows", IMP(AND(row(a), NOT(Wr(a))), NOT(W(z(a)))), ANS + asg(z) + MUST)
    u1, v1 = lambda i: ITE(Wr(i), Cc(i, s(i)), u(i)), lambda j: ITE(W(j), Z, v(j))
    poss = lambda i, j: AND(fin(i, j), ITE(Wr(i), EQ(j, s(i)), NOT(W(j))))      # entries some complete finite assignment may take
    P("prices without infinities: entries an assignment may take are not below them", IMP(AND(row(a), col(b), poss(a, b)), LE(ADD(u1(a), v1(b)), Cc(a, b))), ANS)
    P("prices without infinities: chosen entries are equal to them", IMP(row(a), EQ(ADD(u1(a), v1(s(a))), Cc(a, s(a)))), ANS)
    P("prices without infinities: not positive, zero outside the assignment", IMP(col(b), AND(LE(v1(b), Z), OR(EQ(v1(b), Z), AND(row(rt(b)), EQ(s(rt(b)), b))))), ANS)
    P("entries an assignment takes are those it may take", IMP(row(a), AND(poss(a, z(a)), poss(a, s(a)))), ANS + asg(z) + MUST + [fa(lambda i: IMP(AND(row(i), NOT(Wr(i))), NOT(W(z(i)))), 1)])
    prf.reachable(fn + " (settled columns)", [], ANS + asg(z) + [row(a), Wr(a), row(b), NOT(Wr(b)), NOT(EQ(z(b), s(b)))])
    # the lemma as rlap needs it midway (must): rows that have no column yet
    colsol, free = I_("column of"), lambda i: T.app("free", "B", i)
    MID = [fa(lambda j: IMP(AND(col(j), W(j)), AND(LE(0, colsol(j)), LE(0, rk(j)))), 1), fa(lambda j, k: IMP(AND(col(j), col(k), W(j), fin(colsol(j), k)), AND(W(k), OR(EQ(k, j), LT(rk(k), rk(j))))), 2),
           fa(lambda j: IMP(col(j), OR(EQ(colsol(j), -1), AND(row(colsol(j)), NOT(free(colsol(j))), EQ(s(colsol(j)), j)))), 1)]
    P("settled columns are for their rows, if those of smaller rank are", IMP(AND(col(b), W(b)), AND(LE(0, rk(b)), EQ(z(colsol(b)), b))), MID + asg(z) + [fa(lambda j: IMP(AND(col(j), W(j), LT(rk(j), rk(b))), EQ(z(colsol(j)), j)), 1)])
    P("a row that is given a settled column is the row of that column", IMP(AND(row(a), W(z(a))), EQ(colsol(z(a)), a)), MID + asg(z) + [fa(lambda j: IMP(AND(col(j), W(j)), EQ(z(colsol(j)), j)), 1)])
    prf.reachable(fn + " (settled columns, midway)", [], MID + asg(z) + [col(b), W(b), LT(0, rk(b))])
    # weak duality, from sums as the lemmas relate them
    cost, mine, U, VS, VR, VA = [T.sym(x, "R") for x in ("any cost", "this cost", "rows", "columns of the other", "columns of this", "all columns")]
    P("no other assignment costs less", LE(mine, cost), [LE(ADD(U, VS), cost), EQ(mine, ADD(U, VR)), LE(VA, VS), EQ(VA, VR)])
