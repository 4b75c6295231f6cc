"""C01: the spatial index (RTree.h, RTree<Item*, double, 2>)

Every node is described by ghost values: the weight of the entries below it (an arbitrary weight function on entries, so
equality of weights for all of them is equality of multisets), and a box all of them lie in. The contracts are those of one
call on any node; recursive calls are checked against the same contract (induction on the level)."""
from .lib import *
from vc.exec import asbool, asint, FnPtr
from vc.loops import changed_cells

RTN = r"RTree<Item\*, double, 2, double, 8, 4>::"
FULL, HALF = 8, 4


def F(name, args=""):
    return "^" + RTN + name + r"\(" + args


SEARCH = F("Search", "RTree<.*Node\\*")


class N:
    """a node with a given number of branches; kids: what the branches point to"""

    def __init__(self, B, name, count, level, leaf=None, full=True, wf=True):
        self.B, self.name, self.count, self.level = B, name, count, level
        w, ex, st = B.w, B.ex, B.st
        self.obj = ex.new_obj(st, name, w.size("node"))
        self.p = Ptr(self.obj, 0)
        ex.store(self.p.plus(w.o("n_count")), I32, count, st)
        ex.store(self.p.plus(w.o("n_level")), I32, level, st)
        self.rects, self.kids = [], []
        for k in range(count):
            r = B.rect_syms("%s.r%d" % (name, k))
            B.put_rect(B.branch(self.p, k).plus(w.o("b_rect")), r, st)
            kid = B.item("%s.i%d" % (name, k)) if leaf else B.child("%s.c%d" % (name, k))
            ex.store(B.branch(self.p, k).plus(w.o("b_child")), PTR, kid, st)
            self.rects.append(r)
            self.kids.append(kid)


class Bench:
    """an execution of one function of the tree"""

    def __init__(self, func, models=(), pattern=None, **opts):
        self.func, self.models = func, list(models)
        self.w = W("rtree", [], also=[func], stub=[m[0] for m in models if m[0] != func], models=models)
        names = self.w.find(func)
        if len(names) != 1:
            raise Unsupported("%d functions match %s" % (len(names), func))
        self.name = names[0]
        self.ex, self.st = self.w.ex(**opts)
        self.tree = self.ex.new_obj(self.st, "tree", self.w.size("tree"))
        self.t = Ptr(self.tree, 0)
        self.ex.store(self.t.plus(self.w.size("tree") - 8), DBL, T.sym("unit volume", "R"), self.st)
        self.pool = Obj("items", None, kind="array", stride=8, length=None, readonly=True)
        self.pool.elem = lambda i, f, ty: None
        self.pool.meta["fields"] = []
        self.st.wos(self.pool)
        if self.w.o("maxnodes") != FULL or self.w.o("minnodes") != HALF:
            raise Unsupported("node sizes")

    def run(self, *args):
        r, self.st = self.ex.call(self.name, [self.t] + list(args), self.st)
        return r

    def branch(self, p, k):
        return p.plus(self.w.o("n_branch") + self.w.size("branch") * k)

    def rect_syms(self, name, wf=True):
        r = [T.sym("%s.%s%d" % (name, m, d), "R") for m in ("min", "max") for d in range(2)]
        if wf:
            for d in range(2):
                self.ex.fact(T.le(r[d], r[2 + d]))
        return r

    def rect_cells(self, p):
        return [p.plus(self.w.o("rc_" + m) + 8 * d) for m in ("min", "max") for d in range(2)]

    def put_rect(self, p, r, st):
        for q, v in zip(self.rect_cells(p), r):
            self.ex.store(q, DBL, v, st)

    def get_rect(self, p, st=None):
        return [self.ex.load(q, DBL, st or self.st) for q in self.rect_cells(p)]

    def rect(self, name):
        r = self.rect_syms(name)
        o = self.ex.new_obj(self.st, name, self.w.size("rect"))
        self.put_rect(Ptr(o, 0), r, self.st)
        return Ptr(o, 0), r

    def item(self, name):
        return Ptr(self.pool, T.scale(8, T.sym(name, "I")))

    def child(self, name):
        o = self.ex.new_obj(self.st, name, self.w.size("node"))
        return Ptr(o, 0)

    def ex_child(self, st, name):
        return Ptr(self.ex.new_obj(st, name, self.w.size("node")), 0)

    def bput(self, p, r, kid, st=None):
        st = st or self.st
        self.put_rect(p.plus(self.w.o("b_rect")), r, st)
        self.ex.store(p.plus(self.w.o("b_child")), PTR, kid, st)

    def bget(self, p, st=None):
        st = st or self.st
        return self.get_rect(p.plus(self.w.o("b_rect")), st), self.ex.load(p.plus(self.w.o("b_child")), PTR, st)

    def new_branch(self, name, leaf=False):
        o = self.ex.new_obj(self.st, name, self.w.size("branch"))
        r, kid = self.rect_syms(name + ".r"), (self.item(name + ".i") if leaf else self.child(name + ".c"))
        self.bput(Ptr(o, 0), r, kid)
        return Ptr(o, 0), r, kid

    def count(self, p, st=None):
        return self.ex.load(p.plus(self.w.o("n_count")), I32, st or self.st)

    def level(self, p, st=None):
        return self.ex.load(p.plus(self.w.o("n_level")), I32, st or self.st)

    def ghost(self, name, v, ty=I64):
        o = self.ex.new_obj(self.st, name, 8)
        self.ex.store(Ptr(o, 0), ty, v, self.st)
        return Ghost(self.ex, Ptr(o, 0), ty)

    def cell(self, name, v=None, ty=PTR):
        o = self.ex.new_obj(self.st, name, 8)
        if v is not None:
            self.ex.store(Ptr(o, 0), ty, v, self.st)
        return Ptr(o, 0)


class Ghost:
    def __init__(s, ex, p, ty):
        s.ex, s.p, s.ty = ex, p, ty

    def get(s, st):
        return s.ex.load(s.p, s.ty, st)

    def set(s, v, st):
        s.ex.store(s.p, s.ty, v, st)


def peq(a, b):
    """the same pointer"""
    if isinstance(a, GV):
        return T.or_(*[T.and_(g, peq(x, b)) for g, x in a.alts])
    if isinstance(b, GV):
        return peq(b, a)
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return False
    return a.obj is b.obj and T.eq(a.off, b.off)


def req(r, s):
    return T.and_(*[T.eq(a, b) for a, b in zip(r, s)])


def touch(a, b):
    """closed boxes with a common point"""
    return T.and_(*[T.and_(T.le(a[d], b[2 + d]), T.le(b[d], a[2 + d])) for d in range(2)])


def inside(a, b):
    return T.and_(*[T.and_(T.le(b[d], a[d]), T.le(a[2 + d], b[2 + d])) for d in range(2)])


def hull(rs):
    r = list(rs[0])
    for s in rs[1:]:
        r = [T.min_(r[0], s[0]), T.min_(r[1], s[1]), T.max_(r[2], s[2]), T.max_(r[3], s[3])]
    return r


def wf(r):
    return T.and_(*[T.le(r[d], r[2 + d]) for d in range(2)])


def only(p, objs, what):
    """the object a pointer names, one of the given ones"""
    for i, o in enumerate(objs):
        q = o if isinstance(o, Ptr) else Ptr(o, 0)
        if isinstance(p, Ptr) and p.obj is q.obj and T.eq(p.off, q.off) is True:
            return i
    raise Unsupported("%s: another object (%s)" % (what, p))


# ---------------------------------------------------------------- boxes
def boxes(prf):
    """Overlap, CombineRect, NodeCover; covers and overlaps"""
    fn = "RTree::Overlap"
    B = Bench(F("Overlap"))
    (p, a), (q, b) = B.rect("a"), B.rect("b")
    r = asbool(B.run(p, q))
    prf.take(B.ex, fn)
    prf.function(fn)
    prf.prove(fn, "says whether the closed boxes have a common point", T.and_(T.implies(r, touch(a, b)), T.implies(touch(a, b), r)), B.ex.facts, B.st.pc)
    x = [T.sym("x%d" % d, "R") for d in range(2)]
    common = T.and_(*[T.and_(T.le(s[d], x[d]), T.le(x[d], s[2 + d])) for s in (a, b) for d in range(2)])
    mid = T.and_(*[T.and_(T.le(s[d], T.max_(a[d], b[d])), T.le(T.max_(a[d], b[d]), s[2 + d])) for s in (a, b) for d in range(2)])
    prf.prove(fn, "touching boxes: a common point makes the comparison true, and the comparison gives a common point",
              T.and_(T.implies(common, touch(a, b)), T.implies(touch(a, b), mid)), B.ex.facts)
    c = B.rect_syms("c")
    prf.prove(fn, "a box touching an entry touches every box around the entry", T.implies(T.and_(touch(a, b), inside(b, c)), touch(a, c)), B.ex.facts)
    prf.prove(fn, "being inside is transitive", T.implies(T.and_(inside(a, b), inside(b, c)), inside(a, c)), B.ex.facts)
    fn = "RTree::CombineRect"
    B = Bench(F("CombineRect"))
    (p, a), (q, b) = B.rect("a"), B.rect("b")
    o = B.ex.new_obj(B.st, "out", B.w.size("rect"))
    B.st = B.ex.call(B.name, [Ptr(o, 0), B.t, p, q], B.st)[1]
    prf.take(B.ex, fn)
    prf.function(fn)
    r = B.get_rect(Ptr(o, 0))
    x = B.rect_syms("x")
    prf.prove(fn, "contains both", T.and_(inside(a, r), inside(b, r)), B.ex.facts, B.st.pc)
    prf.prove(fn, "is the smallest box that does", T.implies(T.and_(inside(a, x), inside(b, x)), inside(r, x)), B.ex.facts, B.st.pc)
    prf.prove(fn, "leaves its arguments", T.and_(req(a, B.get_rect(p)), req(b, B.get_rect(q))), B.ex.facts, B.st.pc)
    fn = "RTree::NodeCover"
    prf.function(fn)
    for c in range(1, FULL + 1):
        B = Bench(F("NodeCover"))
        n = N(B, "n", c, T.sym("level", "I", 0))
        o = B.ex.new_obj(B.st, "out", B.w.size("rect"))
        B.st = B.ex.call(B.name, [Ptr(o, 0), B.t, n.p], B.st)[1]
        prf.take(B.ex, "%s (%d)" % (fn, c))
        r = B.get_rect(Ptr(o, 0))
        x = B.rect_syms("x")
        prf.prove(fn, "contains all %d boxes of the node" % c, T.and_(wf(r), *[inside(s, r) for s in n.rects]), B.ex.facts, B.st.pc)
        prf.prove(fn, "smallest around %d boxes" % c, T.implies(T.and_(*[inside(s, x) for s in n.rects]), inside(r, x)), B.ex.facts, B.st.pc)


# ---------------------------------------------------------------- search
def search(prf):
    """one node of a search: all that touch are reported once, unless the caller stops it"""
    fn = "RTree::Search"
    for leaf in (True, False):
        for c in range(FULL + 1):
            S = {}

            def visit(c_, i, n):
                ex, st = c_.ex, c_.st
                g = S["calls"][i]
                ex.oblige("each once", T.eq(g.get(st), 0), st)
                ex.oblige("not after the caller stopped it", T.eq(S["stop"].get(st), 0), st)
                g.set(1, st)
                go = T.app("go%d" % i, "B", 0)
                S["stop"].set(T.ite(go, 0, 1), st)
                S["made"].set(T.add(S["made"].get(st), n), st)
                return go

            def m_call(c_):
                ex, st = c_.ex, c_.st
                k = [j for j, q in enumerate(S["n"].kids) if isinstance(c_.args[0], Ptr) and q.obj is c_.args[0].obj and T.eq(q.off, c_.args[0].off) is True]
                ex.oblige("reports an item of the leaf, with the caller's context", len(k) == 1 and peq(c_.args[1], S["ctx"]), st)
                ex.oblige("only entries that touch", touch(S["n"].rects[k[0]], S["a"]), st)
                return visit(c_, k[0], 1)

            def m_rec(c_):
                ex, st = c_.ex, c_.st
                t, n, r, f, cb, ctx = c_.args
                i = only(n, S["n"].kids, "child")
                ex.oblige("the same query", T.and_(req(S["B"].get_rect(r, st), S["a"]), peq(ctx, S["ctx"]), peq(f, S["found"]), isinstance(cb, FnPtr) and cb.name == "vc_callback"), st)
                m = T.sym("found%d" % i, "I", 0)
                ex.store(f, I32, T.add(ex.load(f, I32, st), m), st)
                return visit(c_, i, m)
            B = S["B"] = Bench(SEARCH, [("^vc_callback$", m_call, None), (SEARCH, m_rec, None)])
            n = S["n"] = N(B, "n", c, 0 if leaf else T.add(1, T.sym("level", "I", 0)), leaf)
            n.obj.readonly = True
            r, S["a"] = B.rect("query")
            S["calls"] = [B.ghost("call%d" % i, 0) for i in range(c)]
            S["stop"], S["made"] = B.ghost("stop", 0), B.ghost("made", 0)
            f0 = T.sym("found before", "I", 0)
            S["found"] = B.cell("found", f0, I32)
            S["ctx"] = Ptr(B.ex.new_obj(B.st, "context", 8), 0)
            cb = FnPtr("vc_callback")
            res = asbool(B.run(n.p, r, S["found"], cb, S["ctx"]))
            g = "%s (%s, %d)" % (fn, "leaf" if leaf else "inner", c)
            prf.take(B.ex, g)
            stopped = T.eq(S["stop"].get(B.st), 1)
            prf.prove(g, "everything that touches is visited unless the caller stopped it",
                      T.or_(stopped, T.and_(*[T.implies(touch(x, S["a"]), T.eq(k.get(B.st), 1)) for x, k in zip(n.rects, S["calls"])])), B.ex.facts, B.st.pc)
            prf.prove(g, "says whether the caller stopped it", T.and_(T.implies(res, T.not_(stopped)), T.implies(T.not_(stopped), res)), B.ex.facts, B.st.pc)
            prf.prove(g, "counts what was reported", T.eq(B.ex.load(S["found"], I32, B.st), T.add(f0, S["made"].get(B.st))), B.ex.facts, B.st.pc)
    prf.function(fn)
    prf.reachable(fn, B.ex.facts, B.st.pc)
    # the public search
    S = {}

    def m_node(c_):
        ex, st = c_.ex, c_.st
        t, n, r, f, cb, ctx = c_.args
        ex.oblige("from the root, with the box and the context given", T.and_(peq(n, S["root"]), req(B.get_rect(r, st), S["a"]), peq(ctx, S["ctx"]), isinstance(cb, FnPtr) and cb.name == "vc_callback"), st)
        ex.oblige("nothing found before", T.eq(ex.load(f, I32, st), 0), st)
        ex.oblige("searched once", T.eq(S["n"].get(st), 0), st)
        S["n"].set(1, st)
        ex.store(f, I32, T.sym("all", "I", 0), st)
        return T.app("goes on", "B", 0)
    B = Bench(F("Search", "double"), [(SEARCH, m_node, None)])
    S["n"] = B.ghost("searches", 0)
    S["root"] = B.child("root")
    B.ex.store(B.t.plus(B.w.o("tree_root")), PTR, S["root"], B.st)
    S["a"] = B.rect_syms("q")
    S["ctx"] = Ptr(B.ex.new_obj(B.st, "context", 8), 0)
    lo, hi = arrays(B, S["a"])
    r = B.run(lo, hi, FnPtr("vc_callback"), S["ctx"])
    prf.take(B.ex, fn + " (all)")
    prf.prove(fn + " (all)", "the number of entries reported", T.and_(T.eq(S["n"].get(B.st), 1), T.eq(asint(r), T.sym("all", "I", 0))), B.ex.facts, B.st.pc)


def arrays(B, r):
    out = []
    for k in (0, 2):
        o = B.ex.new_obj(B.st, "corner%d" % k, 16)
        for d in range(2):
            B.ex.store(Ptr(o, 8 * d), DBL, r[k + d], B.st)
        out.append(Ptr(o, 0))
    return out


# ---------------------------------------------------------------- nodes
ADD, SPLIT, COVER, PICK = F("AddBranch"), F("SplitNode"), F("NodeCover"), F("PickBranch")
COMBINE, CLASSIFY, GETB, CHOOSE, LOAD = F("CombineRect"), F("Classify"), F("GetBranches"), F("ChoosePartition"), F("LoadNodes")
INITV, SEEDS, VOLUME, INSREC, INSRECT, REMREC = F("InitParVars"), F("PickSeeds"), F("CalcRectVolume"), F("InsertRectRec"), F("InsertRect"), F("RemoveRectRec")


def kept(B, n, k, st=None, at=None):
    """branch k of the node is still where it was (or at another place)"""
    r, kid = B.bget(B.branch(n.p, k if at is None else at), st)
    return T.and_(req(r, n.rects[k]), peq(kid, n.kids[k]))


def m_volume(c):
    r = T.fresh("volume", "R")
    return r


def add(prf):
    """AddBranch: appends, or splits a full node; DisconnectBranch: takes one branch out"""
    fn = "RTree::AddBranch"
    for c in range(FULL + 1):
        S = {"n": 0}

        def m_split(c_):
            ex, st = c_.ex, c_.st
            S["n"] += 1
            ex.oblige("splits this node with this branch", T.and_(peq(c_.args[1], n.p), peq(c_.args[3], out), peq(c_.args[2], b)), st)
            return None
        B = Bench(ADD, [(SPLIT, m_split, None)])
        n = N(B, "n", c, T.sym("level", "I", 0))
        b, r, kid = B.new_branch("b")
        out = B.cell("out") if c == FULL else NULL
        res = asbool(B.run(b, n.p, out))
        g = "%s (%d)" % (fn, c)
        prf.take(B.ex, g)
        f, pc = B.ex.facts, B.st.pc
        prf.prove(g, "says whether the node was split", T.eq(res, c == FULL) if not isinstance(res, bool) else res == (c == FULL), f, pc)
        prf.prove(g, "the branches before are kept", T.and_(*[kept(B, n, k) for k in range(c)]), f, pc)
        prf.prove(g, "the level stays", T.eq(B.level(n.p), n.level), f, pc)
        if c < FULL:
            q, k = B.bget(B.branch(n.p, c))
            prf.prove(g, "one more branch: the one given", T.and_(T.eq(B.count(n.p), c + 1), req(q, r), peq(k, kid), S["n"] == 0), f, pc)
        else:
            prf.prove(g, "split once", S["n"] == 1, f, pc)
    prf.function(fn)
    fn = "RTree::DisconnectBranch"
    for c in range(1, FULL + 1):
        for i in range(c):
            B = Bench(F("DisconnectBranch"))
            n = N(B, "n", c, T.sym("level", "I", 0))
            B.run(n.p, i)
            g = "%s (%d of %d)" % (fn, i, c)
            prf.take(B.ex, g)
            f, pc = B.ex.facts, B.st.pc
            prf.prove(g, "one branch less", T.and_(T.eq(B.count(n.p), c - 1), T.eq(B.level(n.p), n.level)), f, pc)
            rest = [k for k in range(c) if k != i]
            at = [[a for a in range(c - 1) if kept(B, n, k, None, a) is True] for k in rest]
            prf.prove(g, "the others stay, each once", all(len(a) == 1 for a in at) and len(set(a[0] for a in at)) == c - 1, f, pc)
    prf.function(fn)


# ---------------------------------------------------------------- splits
class Parts:
    """the variables of a partition"""

    def __init__(self, B, name="parts"):
        self.B = B
        self.obj = B.ex.new_obj(B.st, name, B.w.size("pv"))
        self.p = Ptr(self.obj, 0)

    def at(self, f, k=0):
        return self.p.plus(self.B.w.o("pv_" + f) + 4 * k)

    def get(self, f, k=0, st=None):
        return self.B.ex.load(self.at(f, k), I32, st or self.B.st)

    def put(self, f, v, k=0, st=None):
        self.B.ex.store(self.at(f, k), I32, v, st or self.B.st)

    def buf(self, k):
        return self.p.plus(self.B.w.o("pv_buf") + self.B.w.size("branch") * k)


def split(prf):
    """GetBranches, InitParVars, Classify, LoadNodes, SplitNode"""
    fn = "RTree::GetBranches"
    B = Bench(GETB, [(VOLUME, m_volume, None)])
    n = N(B, "n", FULL, T.sym("level", "I", 0))
    b, r, kid = B.new_branch("b")
    P = Parts(B)
    B.run(n.p, b, P.p)
    prf.take(B.ex, fn)
    prf.function(fn)
    f, pc = B.ex.facts, B.st.pc
    for k in range(FULL + 1):
        s, q = B.bget(P.buf(k))
        prf.prove(fn, "branch %d is in the buffer" % k, T.and_(req(s, n.rects[k] if k < FULL else r), peq(q, n.kids[k] if k < FULL else kid)), f, pc)
    prf.prove(fn, "nine branches; the node is emptied", T.and_(T.eq(P.get("branchCount"), FULL + 1), T.eq(B.count(n.p), 0)), f, pc)
    fn = "RTree::InitParVars"
    B = Bench(INITV)
    P = Parts(B)
    B.run(P.p, FULL + 1, HALF)
    prf.take(B.ex, fn)
    prf.function(fn)
    prf.prove(fn, "no branch is in a group", T.and_(T.eq(P.get("total"), FULL + 1), T.eq(P.get("minFill"), HALF), T.eq(P.get("count", 0), 0), T.eq(P.get("count", 1), 0),
                                                    *[T.eq(P.get("taken", k), 0) for k in range(FULL + 1)]), B.ex.facts, B.st.pc)
    fn = "RTree::Classify"
    prf.function(fn)
    for i in range(FULL + 1):
        for g in range(2):
            B = Bench(CLASSIFY, [(VOLUME, m_volume, None)])
            P = Parts(B)
            t, p, cn = given(B, P)
            B.put_rect(P.buf(i).plus(B.w.o("b_rect")), B.rect_syms("r"), B.st)
            for q in range(2):
                B.put_rect(P.p.plus(B.w.o("pv_cover") + B.w.size("rect") * q), B.rect_syms("cover%d" % q), B.st)
            B.ex.fact(T.eq(t[i], 0))
            B.ex.fact(T.le(0, cn[g]))
            B.run(i, g, P.p)
            nm = "%s (%d, %d)" % (fn, i, g)
            prf.take(B.ex, nm)
            prf.prove(nm, "puts this branch in this group and changes no other", classified(B, P, t, p, cn, i, g, B.st), B.ex.facts, B.st.pc)
    fn = "RTree::LoadNodes"
    S = {}

    def m_add(c_):
        ex, st = c_.ex, c_.st
        t, b, n, o = c_.args
        k = only(b, [P.buf(k) for k in range(FULL + 1)], "branch")
        ng = GV([(True, n)]) if isinstance(n, Ptr) else n
        for s in range(2):
            here = peq(n, S["n"][s])
            s0 = S["seen"][s][k].get(st)
            S["seen"][s][k].set(T.ite(here, T.add(s0, 1), s0), st)
            num = S["num"][s].get(st)
            ex.oblige("room in the node", T.implies(here, T.lt(num, FULL)), st)
            S["num"][s].set(T.ite(here, T.add(num, 1), num), st)
        ex.oblige("one of the two nodes", T.or_(peq(n, S["n"][0]), peq(n, S["n"][1])), st)
        return False
    B = Bench(LOAD, [(ADD, m_add, None)])
    P = Parts(B)
    p = [T.sym("part%d" % k, "I") for k in range(FULL + 1)]
    for k in range(FULL + 1):
        P.put("partition", p[k], k)
        B.ex.fact(T.or_(T.eq(p[k], 0), T.eq(p[k], 1)))
    for g in range(2):
        B.ex.fact(T.le(HALF, size_of(p, g)))
    P.put("total", FULL + 1)
    S["n"] = [B.child("a"), B.child("b")]
    S["seen"] = [[B.ghost("seen%d%d" % (s, k), 0) for k in range(FULL + 1)] for s in range(2)]
    S["num"] = [B.ghost("num%d" % s, 0) for s in range(2)]
    B.run(S["n"][0], S["n"][1], P.p)
    prf.take(B.ex, fn)
    prf.function(fn)
    for k in range(FULL + 1):
        prf.prove(fn, "branch %d goes to exactly one node: that of its group" % k,
                  T.and_(*[T.eq(S["seen"][s][k].get(B.st), T.ite(T.eq(p[k], s), 1, 0)) for s in range(2)]), B.ex.facts, B.st.pc)
    prf.prove(fn, "both nodes have at least %d branches" % HALF, T.and_(*[T.le(HALF, S["num"][s].get(B.st)) for s in range(2)]), B.ex.facts, B.st.pc)
    prf.reachable(fn, B.ex.facts, B.st.pc)
    fn = "RTree::SplitNode"
    log = []

    def m_get(c_):
        log.append("get")
        c_.ex.oblige("all branches of the node and the new one", T.and_(peq(c_.args[1], n.p), peq(c_.args[2], b), *[kept(B, n, k, c_.st) for k in range(FULL)]), c_.st)
        S["parts"] = c_.args[3]
        c_.ex.store(c_.args[1].plus(B.w.o("n_count")), I32, 0, c_.st)
        c_.ex.store(c_.args[1].plus(B.w.o("n_level")), I32, -1, c_.st)
        c_.ex.store(c_.args[3].plus(B.w.o("pv_branchCount")), I32, FULL + 1, c_.st)

    def m_choose(c_):
        log.append("choose")
        c_.ex.oblige("these branches, at least %d in each group" % HALF, T.and_(peq(c_.args[1], S["parts"]), T.eq(asint(c_.args[2]), HALF)), c_.st)
        c_.ex.store(c_.args[1].plus(B.w.o("pv_total")), I32, FULL + 1, c_.st)

    def m_load(c_):
        log.append("load")
        ex, st = c_.ex, c_.st
        t, x, y, pv = c_.args
        S["new"] = ex.load(out, PTR, st)
        old, new = (x, y) if peq(x, n.p) is True else (y, x)
        ex.oblige("into the node and the new node", T.and_(peq(old, n.p), peq(new, S["new"]), peq(pv, S["parts"]), S["new"].obj is not n.obj), st)
        ex.oblige("which are empty", T.and_(*[T.eq(B.count(q, st), 0) for q in (x, y)]), st)
        k = T.sym("k", "I", 0)
        ex.store(old.plus(B.w.o("n_count")), I32, k, st)
        ex.store(new.plus(B.w.o("n_count")), I32, T.sub(FULL + 1, k), st)
    B = Bench(SPLIT, [(GETB, m_get, None), (CHOOSE, m_choose, None), (LOAD, m_load, None)])
    n = N(B, "n", FULL, T.sym("level", "I", 0))
    b, r, kid = B.new_branch("b")
    out = B.cell("out", NULL)
    B.run(n.p, b, out)
    prf.take(B.ex, fn)
    prf.function(fn)
    prf.prove(fn, "gathers, partitions, distributes", log == ["get", "choose", "load"], B.ex.facts, B.st.pc)
    q = B.ex.load(out, PTR, B.st)
    prf.prove(fn, "hands out the new node", peq(q, S["new"]), B.ex.facts, B.st.pc)
    prf.prove(fn, "both nodes are on the level of the old one", T.and_(T.eq(B.level(n.p), n.level), T.eq(B.level(S["new"]), n.level)), B.ex.facts, B.st.pc)
    prf.reachable(fn, B.ex.facts, B.st.pc)


def size_of(p, g):
    return T.sumt([T.ite(T.eq(x, g), 1, 0) for x in p])


def given(B, P):
    """a partition under way: taken, partition, counts"""
    t = [T.sym("taken%d" % k, "I") for k in range(FULL + 1)]
    p = [T.sym("part%d" % k, "I") for k in range(FULL + 1)]
    c = [T.sym("count%d" % g, "I") for g in range(2)]
    for k in range(FULL + 1):
        P.put("taken", t[k], k)
        P.put("partition", p[k], k)
    for g in range(2):
        P.put("count", c[g], g)
    P.put("total", FULL + 1)
    P.put("minFill", HALF)
    return t, p, c


def classified(B, P, t, p, c, i, g, st):
    return T.and_(*[T.eq(P.get("taken", k, st), 1 if k == i else t[k]) for k in range(FULL + 1)],
                  *[T.eq(P.get("partition", k, st), g if k == i else p[k]) for k in range(FULL + 1)],
                  *[T.eq(P.get("count", q, st), T.add(c[q], 1) if q == g else c[q]) for q in range(2)],
                  T.eq(P.get("total", 0, st), FULL + 1), T.eq(P.get("minFill", 0, st), HALF))


def m_combine(c):
    """any box: the partition does not depend on which (the boxes only decide between branches)"""
    for d in range(4):
        c.ex.store(c.args[0].plus(8 * d), DBL, T.fresh("combined", "R"), c.st)


def partition(prf):
    """PickSeeds and ChoosePartition: every branch ends in exactly one group, at least four in each"""
    fn = "RTree::PickSeeds"
    log = []

    def m_classify(c_):
        i, g = asint(c_.args[1]), asint(c_.args[2])
        c_.ex.oblige("an existing branch", T.and_(T.le(0, i), T.lt(i, FULL + 1)), c_.st)
        c_.ex.oblige("a group of its own", T.and_(T.le(0, g), T.le(g, 1), *[T.and_(T.not_(T.eq(i, j)), T.not_(T.eq(g, q))) for j, q in log]), c_.st)
        c_.ex.oblige("always", not [x for x in c_.st.pc if not any(x is y for y in pc0)], c_.st)
        log.append((i, g))
    B = Bench(SEEDS, [(VOLUME, m_volume, None), (COMBINE, m_combine, None), (CLASSIFY, m_classify, None)])
    P = Parts(B)
    given(B, P)
    B.ex.store(P.p.plus(B.w.o("pv_coverSplitArea")), DBL, T.sym("area", "R"), B.st)
    for k in range(FULL + 1):
        B.put_rect(P.buf(k).plus(B.w.o("b_rect")), B.rect_syms("r%d" % k), B.st)
    pc0 = B.st.pc
    B.run(P.p)
    prf.take(B.ex, fn)
    prf.function(fn)
    prf.prove(fn, "one branch in each group", len(log) == 2, B.ex.facts, B.st.pc)

    fn = "RTree::ChoosePartition"
    S = {"phase": []}
    K = range(FULL + 1)

    def inv(t, p, c):
        return T.and_(*[T.and_(T.or_(T.eq(x, 0), T.eq(x, 1)), T.implies(T.eq(x, 1), T.or_(T.eq(y, 0), T.eq(y, 1))), T.implies(T.eq(x, 0), T.eq(y, -1))) for x, y in zip(t, p)],
                      *[T.eq(c[g], size_of(p, g)) for g in range(2)], *[T.and_(T.le(1, c[g]), T.le(c[g], FULL + 1 - HALF)) for g in range(2)])

    def state(st):
        return [P.get("taken", k, st) for k in K], [P.get("partition", k, st) for k in K], [P.get("count", g, st) for g in range(2)]

    def set_state(s, st):
        for nm, l in zip(("taken", "partition", "count"), s):
            for k, v in enumerate(l):
                P.put(nm, v, k, st)

    def m_init(c_):
        c_.ex.oblige("all branches", T.and_(peq(c_.args[1], P.p), T.eq(asint(c_.args[2]), FULL + 1), T.eq(asint(c_.args[3]), HALF)), c_.st)
        set_state(([0] * 9, [-1] * 9, [0, 0]), c_.st)
        P.put("total", FULL + 1, 0, c_.st)
        P.put("minFill", HALF, 0, c_.st)
        S["phase"].append("init")

    def m_seeds(c_):
        i, j = T.sym("seed0", "I", 0), T.sym("seed1", "I", 0)
        for f in (T.le(i, FULL), T.le(j, FULL), T.not_(T.eq(i, j))):
            c_.ex.fact(f)
        t, p, c = state(c_.st)
        c_.ex.oblige("no branch is in a group", T.and_(*[T.eq(x, 0) for x in t + c]), c_.st)
        set_state(([T.ite(T.or_(T.eq(i, k), T.eq(j, k)), 1, 0) for k in K], [T.ite(T.eq(i, k), 0, T.ite(T.eq(j, k), 1, -1)) for k in K], [1, 1]), c_.st)
        S["phase"].append("seeds")

    def m_class(c_):
        ex, st = c_.ex, c_.st
        i, g = asint(c_.args[1]), asint(c_.args[2])
        if i is UNDEF or g is UNDEF:
            raise Unsupported("no branch chosen")
        t, p, c = state(st)
        ex.oblige("an existing branch, not in a group yet", T.and_(T.le(0, i), T.le(i, FULL), *[T.implies(T.eq(i, k), T.eq(t[k], 0)) for k in K]), st)
        ex.oblige("an existing group", T.or_(T.eq(g, 0), T.eq(g, 1)), st)
        set_state(([T.ite(T.eq(i, k), 1, t[k]) for k in K], [T.ite(T.eq(i, k), g, p[k]) for k in K], [T.ite(T.eq(g, q), T.add(c[q], 1), c[q]) for q in range(2)]), st)

    def loop(ex, fr, h, body, st, phis):
        loops = ex.cfg_of(fr.f)[2]
        if not any(x in loops and x != h for x in body) or S.get("in"):
            r = ex.peel(fr, h, body, st, phis, 40)
            if r is None or r == "long":
                raise Unsupported("loop over the branches")
            return r
        ex.oblige("invariant at first", inv(*state(st)), st)
        G = st.fork()
        s = [[T.fresh("t%d" % k, "I") for k in K], [T.fresh("p%d" % k, "I") for k in K], [T.fresh("n%d" % g, "I") for g in range(2)]]
        set_state(s, G)
        for g in range(2):
            ex.store(P.p.plus(B.w.o("pv_area") + 8 * g), DBL, T.fresh("area", "R"), G)
        ex.facts.append(inv(*s))
        S["inv"] = s
        env0, trash = dict(fr.env), set()
        mark = len(ex.obls)
        for rnd in range(4):
            fr.env = dict(env0)
            X = G.fork()
            for o in trash:
                q = X.wos(o)
                q.cells, q.ranges = {}, (("undef", 0, None),)
            X0 = X.fork()
            S["in"] = True
            out = ex.run_dag(fr, body, {h: [(X, {p: UNDEF for p in phis})]}, h)
            S["in"] = False
            if not out["back"]:
                raise Unsupported("the loop does not come back")
            Z, _ = ex._merge(out["back"])
            cells, arrs, tr = changed_cells(ex, X0, Z, list(G.mem))
            if arrs:
                raise Unsupported("arrays change in the loop")
            mine = set(P.at(f, k).off for f, m in (("taken", 9), ("partition", 9), ("count", 2)) for k in range(m))
            other = [(o, f) for o, f, _ in cells if not (o is P.obj and f in mine)]
            bad = [x for x in other if x[0] is P.obj and not any(B.w.o(a) <= x[1] < B.w.o(a) + n for a, n in (("pv_cover", 64), ("pv_area", 16)))]
            if bad or P.obj in tr:
                raise Unsupported("changed in the loop: %s" % (bad,))
            new = ({o for o, _ in other if o is not P.obj} | tr) - trash
            if not new:
                break
            trash |= new
            del ex.obls[mark:]
        else:
            raise Unsupported("loop does not settle")
        t, p, c = state(Z)
        ex.oblige("invariant: groups are what the counts say, taken means in a group, no group takes too many", inv(t, p, c), Z)
        ex.oblige("one more branch is in a group per round", T.and_(T.eq(T.add(*c), T.add(T.add(*s[2]), 1)), T.le(T.add(*c), FULL + 1)), Z)
        S["phase"].append("loop")
        return [(a, x, y) for a, l in out["exits"].items() for x, y in l]
    B = Bench(CHOOSE, [(INITV, m_init, None), (SEEDS, m_seeds, None), (VOLUME, m_volume, None), (COMBINE, m_combine, None), (CLASSIFY, m_class, None)])
    P = Parts(B)
    given(B, P)
    P.put("branchCount", FULL + 1)
    for g in range(2):
        B.put_rect(P.p.plus(B.w.o("pv_cover") + B.w.size("rect") * g), B.rect_syms("cover%d" % g), B.st)
        B.ex.store(P.p.plus(B.w.o("pv_area") + 8 * g), DBL, T.sym("area%d" % g, "R"), B.st)
    B.ex.loop_specs = {(r"ChoosePartition", None): loop}
    B.run(P.p, HALF)
    prf.take(B.ex, fn)
    prf.function(fn)
    t, p, c = state(B.st)
    f, pc = B.ex.facts, B.st.pc
    prf.prove(fn, "seeds, then the others", S["phase"] == ["init", "seeds", "loop"], f, pc)
    prf.prove(fn, "nine branches", T.eq(P.get("total"), FULL + 1), f, pc)
    for k in K:
        prf.prove(fn, "branch %d is in a group" % k, T.or_(T.eq(p[k], 0), T.eq(p[k], 1)), f, pc)
    for g in range(2):
        prf.prove(fn, "at least %d branches in group %d" % (HALF, g), T.le(HALF, size_of(p, g)), f, pc)
    prf.reachable(fn, B.ex.facts, B.st.pc)


# ---------------------------------------------------------------- insertion
class Content:
    """ghost description of the nodes: weight of the entries below, a box they all lie in"""

    def __init__(self, B):
        self.B, self.W, self.H = B, {}, {}

    def track(self, p, name, st=None):
        st = st or self.B.st
        self.W[p.obj] = g = Ghost(self.B.ex, Ptr(self.B.ex.new_obj(st, "weight of " + name, 8), 0), DBL)
        self.H[p.obj] = [Ghost(self.B.ex, Ptr(self.B.ex.new_obj(st, "hull of " + name, 8), 0), DBL) for _ in range(4)]
        g.set(T.sym("w." + name, "R"), st)
        self.set_hull(p, self.B.rect_syms("hull." + name), st)
        return p

    def set_hull(self, p, r, st):
        for h, v in zip(self.H[p.obj], r):
            h.set(v, st)

    def hull(self, p, st):
        return [h.get(st) for h in self.H[p.obj]]


def pick(prf):
    """PickBranch: one of the branches"""
    fn = "RTree::PickBranch"
    for c in range(1, FULL + 1):
        B = Bench(PICK, [(VOLUME, m_volume, None), (COMBINE, m_combine, None)])
        n = N(B, "n", c, T.add(1, T.sym("level", "I", 0)))
        n.obj.readonly = True
        p, r = B.rect("r")
        i = asint(B.run(p, n.p))
        prf.take(B.ex, "%s (%d)" % (fn, c))
        prf.prove(fn, "a branch of the node (%d)" % c, T.and_(T.le(0, i), T.lt(i, c)), B.ex.facts, B.st.pc)
    prf.function(fn)


def insert_rec(prf):
    """InsertRectRec: one more entry below the node, every branch's box around what is below it"""
    fn = "RTree::InsertRectRec"
    # on the level to insert in
    for c in (0, 3, FULL):
        S = {"n": 0}

        def m_add(c_):
            ex, st = c_.ex, c_.st
            S["n"] += 1
            r, k = B.bget(c_.args[1], st)
            ex.oblige("adds the box with what belongs to it, to this node", T.and_(peq(c_.args[2], n.p), peq(c_.args[3], out), req(r, a), peq(k, x)), st)
            return T.app("split", "B", 0)
        B = Bench(INSREC, [(ADD, m_add, None), (PICK, lambda c_: _never(c_), None), (INSREC, lambda c_: _never(c_), None)], branch_prune=True)
        L = T.sym("level", "I", 0)
        n = N(B, "n", c, L)
        p, a = B.rect("r")
        x = B.child("x")
        out = B.cell("out", NULL)
        res = asbool(B.run(p, x, n.p, out, L))
        prf.take(B.ex, fn + " (here)")
        f, pc = B.ex.facts, B.st.pc
        prf.prove(fn + " (here)", "added once; says whether the node was split", T.and_(S["n"] == 1, iff(res, T.app("split", "B", 0))), f, pc)
        prf.prove(fn + " (here)", "nothing else changes", T.and_(T.eq(B.count(n.p), c), T.eq(B.level(n.p), L), *[kept(B, n, k) for k in range(c)]), f, pc)
    # above it
    for c in range(1, FULL + 1):
        for i in range(c):
            for split in (False, True):
                S = {"rec": 0, "add": 0}

                def m_pick(c_):
                    c_.ex.oblige("picks a branch of this node", T.and_(peq(c_.args[2], n.p), req(B.get_rect(c_.args[1], c_.st), a)), c_.st)
                    return i

                def m_rec(c_):
                    ex, st = c_.ex, c_.st
                    t, r, ch, nd, o, l = c_.args
                    S["rec"] += 1
                    ex.oblige("the same, one level further down", T.and_(req(B.get_rect(r, st), a), peq(ch, x), peq(nd, n.kids[i]), T.eq(asint(l), low)), st)
                    ex.oblige("not below the level to insert in", T.le(low, T.sub(n.level, 1)), st)
                    k = n.kids[i]
                    w0 = C.W[k.obj].get(st)
                    if not split:
                        C.W[k.obj].set(T.add(w0, wx), st)
                        h = B.rect_syms("hull after")
                        ex.fact(inside(h, hull([C.hull(k, st), a])))
                        C.set_hull(k, h, st)
                        return False
                    S["other"] = C.track(B.ex_child(st, "other"), "other", st)
                    v = T.sym("w.moved", "R")
                    C.W[S["other"].obj].set(v, st)
                    C.W[k.obj].set(T.sub(T.add(w0, wx), v), st)
                    C.set_hull(k, B.rect_syms("hull after"), st)
                    ex.store(o, PTR, S["other"], st)
                    return True

                def m_cover(c_):
                    ex, st = c_.ex, c_.st
                    o, t, nd = c_.args
                    r = B.rect_syms("cover%d" % next(T._fresh))
                    if nd.obj in C.H:
                        ex.fact(inside(C.hull(nd, st), r))
                    B.put_rect(o, r, st)

                def m_add2(c_):
                    ex, st = c_.ex, c_.st
                    S["add"] += 1
                    r, k = B.bget(c_.args[1], st)
                    ex.oblige("adds the new node, in a box around what is in it, to this node", T.and_(peq(c_.args[2], n.p), peq(c_.args[3], out), peq(k, S["other"]), inside(C.hull(S["other"], st), r)), st)
                    return T.app("split", "B", 0)
                B = Bench(INSREC, [(ADD, m_add2, None), (PICK, m_pick, None), (INSREC, m_rec, None), (COVER, m_cover, None)], branch_prune=True)
                C = Content(B)
                low = T.sym("low", "I", 0)
                n = N(B, "n", c, T.add(T.add(low, 1), T.sym("up", "I", 0)))
                for k in range(c):
                    C.track(n.kids[k], "c%d" % k)
                    B.ex.fact(inside(C.hull(n.kids[k], B.st), n.rects[k]))
                wx = T.sym("w.x", "R")
                p, a = B.rect("r")
                x = B.child("x")
                out = B.cell("out", NULL)
                res = asbool(B.run(p, x, n.p, out, low))
                g = "%s (%d of %d, %s)" % (fn, i, c, "split" if split else "not split")
                prf.take(B.ex, g)
                f, pc = B.ex.facts, B.st.pc
                prf.prove(g, "goes down once; says whether the node was split", T.and_(S["rec"] == 1, S["add"] == int(split), iff(res, T.app("split", "B", 0) if split else False)), f, pc)
                prf.prove(g, "the other branches stay", T.and_(T.eq(B.count(n.p), c), T.eq(B.level(n.p), n.level), *[kept(B, n, k) for k in range(c) if k != i]), f, pc)
                r, k = B.bget(B.branch(n.p, i))
                prf.prove(g, "the box of the branch is around what is below it now", T.and_(peq(k, n.kids[i]), wf(r), inside(C.hull(n.kids[i], B.st), r)), f, pc)
                before = T.sumt([T.sym("w.c%d" % q, "R") for q in range(c)])
                after = T.sumt([C.W[q.obj].get(B.st) for q in n.kids] + ([C.W[S["other"].obj].get(B.st)] if split else []))
                prf.prove(g, "one more entry below", T.eq(after, T.add(before, wx)), f, pc)
    prf.function(fn)
    prf.reachable(fn, B.ex.facts, B.st.pc)


def iff(a, b):
    return T.and_(T.implies(a, b), T.implies(b, a))


def _never(c):
    c.ex.oblige("not called here", False, c.st)
    raise Dead()


def insert(prf):
    """InsertRect: a split of the root adds a level; Insert: the entry goes in at the bottom"""
    fn = "RTree::InsertRect"
    for split in (False, True):
        S = {"rec": 0}

        def m_rec(c_):
            ex, st = c_.ex, c_.st
            t, r, ch, nd, o, l = c_.args
            S["rec"] += 1
            ex.oblige("this entry, from the root, on this level", T.and_(req(B.get_rect(r, st), a), peq(ch, x), peq(nd, root), T.eq(asint(l), low)), st)
            if split:
                S["other"] = B.ex_child(st, "other")
                ex.store(S["other"].plus(B.w.o("n_level")), I32, L, st)
                ex.store(o, PTR, S["other"], st)
            return split

        def m_cover(c_):
            r = B.rect_syms("cover." + c_.args[2].obj.name)
            B.put_rect(c_.args[0], r, c_.st)
        B = Bench(INSRECT, [(INSREC, m_rec, None), (COVER, m_cover, None), (SPLIT, _never, None)], branch_prune=True)
        low = T.sym("low", "I", 0)
        L = T.add(low, T.sym("up", "I", 0))
        root = B.child("root")
        B.ex.store(root.plus(B.w.o("n_level")), I32, L, B.st)
        p, a = B.rect("r")
        x = B.child("x")
        rp = B.cell("root pointer", root)
        res = asbool(B.run(p, x, rp, low))
        g = fn + (" (root split)" if split else " (root not split)")
        prf.take(B.ex, g)
        f, pc = B.ex.facts, B.st.pc
        q = B.ex.load(rp, PTR, B.st)
        prf.prove(g, "inserted once; says whether the root was split", T.and_(S["rec"] == 1, iff(res, split)), f, pc)
        if not split:
            prf.prove(g, "the root stays", peq(q, root), f, pc)
            continue
        new = isinstance(q, Ptr) and q.obj not in (root.obj, S["other"].obj, x.obj)
        prf.prove(g, "a new root one level up with two branches", new and T.and_(T.eq(B.count(q), 2), T.eq(B.level(q), T.add(L, 1))), f, pc)
        b = [B.bget(B.branch(q, k)) for k in range(2)]
        hit = lambda k, nd: T.and_(peq(b[k][1], nd), req(b[k][0], [T.sym("cover.%s.%s%d" % (nd.obj.name, m, d), "R") for m in ("min", "max") for d in range(2)]))
        prf.prove(g, "the two halves, each in the box around it", T.or_(T.and_(hit(0, root), hit(1, S["other"])), T.and_(hit(0, S["other"]), hit(1, root))), f, pc)
        prf.prove(g, "the halves stay on their level", T.and_(T.eq(B.level(root), L), T.eq(B.level(S["other"]), L)), f, pc)
    prf.function(fn)
    for fn, pat, low in (("RTree::Insert", F("Insert"), INSRECT), ("RTree::Remove", F("Remove"), F("RemoveRect"))):
        S = {"n": 0}

        def m_in(c_):
            ex, st = c_.ex, c_.st
            S["n"] += 1
            if fn.endswith("Insert"):
                t, r, ch, rt, l = c_.args
                ex.oblige("this item, on the lowest level", T.and_(peq(ch, S["item"]), T.eq(asint(l), 0)), st)
            else:
                t, r, idp, rt = c_.args
                ex.oblige("this item", peq(ex.load(idp, PTR, st), S["item"]), st)
            ex.oblige("this box, in this tree", T.and_(req(B.get_rect(r, st), a), peq(rt, B.t.plus(B.w.o("tree_root")))), st)
            return T.app("result", "B", 0)
        B = Bench(pat, [(low, m_in, None)])
        a = B.rect_syms("r")
        lo, hi = arrays(B, a)
        S["item"] = B.item("item")
        B.run(lo, hi, B.cell("item", S["item"]))
        prf.take(B.ex, fn)
        prf.function(fn)
        prf.prove(fn, "once", S["n"] == 1, B.ex.facts, B.st.pc)


# ---------------------------------------------------------------- removal
def remove_rec(prf):
    """RemoveRectRec: takes one entry of the item away and leaves the rest, or finds none and changes nothing"""
    fn = "RTree::RemoveRectRec"
    for c in range(FULL + 1):
        for k in [None] + list(range(c)):
            B = Bench(REMREC, [(REMREC, _never, None)], branch_prune=True)
            n = N(B, "n", c, 0, leaf=True)
            item = B.item("item")
            for j in range(c):
                e = T.eq(n.kids[j].off, item.off)
                if k is None or j < k:
                    B.ex.fact(T.not_(e))
                elif j == k:
                    B.ex.fact(e)
            p, a = B.rect("r")
            old = B.child("list")
            lst = B.cell("list pointer", old)
            res = asbool(B.run(p, B.cell("id", item), n.p, lst))
            g = "%s (leaf, %s of %d)" % (fn, k, c)
            prf.take(B.ex, g)
            f, pc = B.ex.facts, B.st.pc
            prf.prove(g, "says whether the item is in the leaf", iff(res, k is None), f, pc)
            prf.prove(g, "nothing to insert again", T.and_(peq(B.ex.load(lst, PTR, B.st), old), T.eq(B.level(n.p), 0)), f, pc)
            if k is None:
                prf.prove(g, "nothing changes", T.and_(T.eq(B.count(n.p), c), *[kept(B, n, j) for j in range(c)]), f, pc)
            else:
                # which entry of the item goes: one of those that carry it
                prf.prove(g, "one entry less", T.eq(B.count(n.p), c - 1), f, pc)
                stays(prf, B, n, g, [j for j in range(c) if j != k], c - 1)
    for c in range(1, FULL + 1):
        for j in [None] + list(range(c)):
            for full in ((True, False) if j is not None else (True,)):
                S = {}

                def m_rec(c_):
                    ex, st = c_.ex, c_.st
                    t, r, idp, nd, l = c_.args
                    i = only(nd, n.kids, "child")
                    ex.oblige("the same item and box, further down", T.and_(req(B.get_rect(r, st), a), peq(ex.load(idp, PTR, st), item), peq(l, lst)), st)
                    ex.oblige("nothing after it was found", T.eq(S["found"].get(st), 0), st)
                    S["seen"][i].set(1, st)
                    if i != j:
                        return True
                    S["found"].set(1, st)
                    kid = n.kids[i]
                    m = T.sym("left", "I", 0)
                    ex.fact(T.le(HALF, m) if full else T.lt(m, HALF))
                    ex.store(kid.plus(B.w.o("n_count")), I32, m, st)
                    C.W[kid.obj].set(T.sub(C.W[kid.obj].get(st), T.sym("w.item", "R")), st)
                    C.set_hull(kid, B.rect_syms("hull after"), st)
                    ex.store(lst, PTR, S["list"], st)
                    return False

                def m_cover(c_):
                    ex, st = c_.ex, c_.st
                    o, t, nd = c_.args
                    r = B.rect_syms("cover%d" % next(T._fresh))
                    if nd.obj in C.H:
                        ex.fact(inside(C.hull(nd, st), r))
                    B.put_rect(o, r, st)
                B = Bench(REMREC, [(REMREC, m_rec, None), (COVER, m_cover, None)], branch_prune=True)
                C = Content(B)
                n = N(B, "n", c, T.add(1, T.sym("level", "I", 0)))
                S["found"], S["seen"] = B.ghost("found", 0), [B.ghost("seen%d" % i, 0) for i in range(c)]
                for i in range(c):
                    C.track(n.kids[i], "c%d" % i)
                    B.ex.fact(inside(C.hull(n.kids[i], B.st), n.rects[i]))
                p, a = B.rect("r")
                item = B.item("item")
                old = B.child("list")
                S["list"] = B.child("list after")
                lst = B.cell("list pointer", old)
                if j is not None:
                    B.ex.fact(touch(a, n.rects[j]))
                res = asbool(B.run(p, B.cell("id", item), n.p, lst))
                g = "%s (%s of %d%s)" % (fn, j, c, "" if full else ", too few left")
                prf.take(B.ex, g)
                f, pc = B.ex.facts, B.st.pc
                l = B.ex.load(lst, PTR, B.st)
                if j is None:
                    prf.prove(g, "not found, nothing changes", T.and_(res, peq(l, old), T.eq(B.count(n.p), c), T.eq(B.level(n.p), n.level), *[kept(B, n, i) for i in range(c)]), f, pc)
                    prf.prove(g, "no branch that touches the box is left out", T.and_(*[T.implies(touch(a, n.rects[i]), T.eq(S["seen"][i].get(B.st), 1)) for i in range(c)]), f, pc)
                    continue
                prf.prove(g, "found", T.and_(T.not_(res), T.eq(S["found"].get(B.st), 1), T.eq(B.level(n.p), n.level)), f, pc)
                if full:
                    r, k = B.bget(B.branch(n.p, j))
                    prf.prove(g, "the box of the branch is around what is left in it", T.and_(peq(k, n.kids[j]), wf(r), inside(C.hull(n.kids[j], B.st), r)), f, pc)
                    prf.prove(g, "all branches stay, nothing to insert again", T.and_(T.eq(B.count(n.p), c), peq(l, S["list"]), *[kept(B, n, i) for i in range(c) if i != j]), f, pc)
                else:
                    good = isinstance(l, Ptr) and l.obj not in (old.obj, S["list"].obj)
                    prf.prove(g, "the branch that is left with too few goes on the list to insert again", good and T.and_(
                        peq(B.ex.load(l.plus(B.w.o("l_node")), PTR, B.st), n.kids[j]), peq(B.ex.load(l.plus(B.w.o("l_next")), PTR, B.st), S["list"])), f, pc)
                    prf.prove(g, "one branch less", T.eq(B.count(n.p), c - 1), f, pc)
                    stays(prf, B, n, g, [i for i in range(c) if i != j], c - 1)
    prf.function(fn)
    prf.reachable(fn, B.ex.facts, B.st.pc)


def stays(prf, B, n, g, rest, m):
    """the branches `rest` are, each once, the first m branches now"""
    f, pc = B.ex.facts, B.st.pc
    at = []
    for k in rest:
        places = [q for q in range(m) if kept(B, n, k, None, q) is True]
        at.append(places)
    ok = all(len(x) == 1 for x in at) and len(set(x[0] for x in at)) == m == len(rest)
    prf.prove(g, "the others stay, each once", ok, f, pc)


def remove(prf):
    """RemoveRect: what was in removed nodes goes back in; a root with one branch gives way to it; RemoveAll, construction"""
    fn = "RTree::RemoveRect"
    LOOP = {}
    for c in [None, "none"] + list(range(HALF)):
        for shape in ("leaf", "one", "more"):
            if c is None and shape != "leaf":
                continue
            S = {"ins": [], "loop": 0}

            def m_rec(c_):
                ex, st = c_.ex, c_.st
                t, r, idp, nd, l = c_.args
                ex.oblige("this item, from the root, with an empty list", T.and_(req(B.get_rect(r, st), a), peq(ex.load(idp, PTR, st), item), peq(nd, root), peq(ex.load(l, PTR, st), NULL)), st)
                S["lst"] = l
                if c is None:
                    return True
                ex.store(l, PTR, NULL if c == "none" else S["L"], st)
                return False

            def m_ins(c_):
                ex, st = c_.ex, c_.st
                t, r, ch, rt, l = c_.args
                k = [q for q in range(n.count) if peq(ch, n.kids[q]) is True]
                ex.oblige("a branch of the node taken off the list, in its box, on its level", len(k) == 1 and T.and_(req(B.get_rect(r, st), n.rects[k[0]]), peq(rt, rp), T.eq(asint(l), n.level)), st)
                now = ex.load(rt, PTR, st)
                ex.oblige("not above the root", T.le(n.level, B.level(now, st)), st)
                S["ins"].append(k[0])
                new = B.ex_child(st, "root%d" % len(S["ins"]))
                ex.store(new.plus(B.w.o("n_level")), I32, T.add(B.level(now, st), T.sym("grown%d" % len(S["ins"]), "I", 0)), st)
                ex.store(rt, PTR, new, st)
                return T.app("result", "B", 0)

            def loop(ex, fr, h, body, st, phis):
                loops = ex.cfg_of(fr.f)[2]
                if not any(x in loops and x != h for x in body):
                    return ex.peel(fr, h, body, st, phis, 40)
                S["loop"] += 1
                G = st.fork()
                for p in phis:
                    raise Unsupported("loop state")
                # a round: L is the head of the list; the root may be any by now
                R = B.ex_child(G, "some root")
                ex.store(R.plus(B.w.o("n_level")), I32, T.add(n.level, T.sym("above", "I", 0)), G)
                ex.store(rp, PTR, R, G)
                env0 = dict(fr.env)
                if c != "none":
                    X = G.fork()
                    ex.store(S["lst"], PTR, S["L"], X)
                    out = ex.run_dag(fr, body, {h: [(X, {})]}, h)
                    if out["exits"] or len(out["back"]) < 1:
                        raise Unsupported("the loop ends before the list does")
                    Z, _ = ex._merge(out["back"])
                    ex.oblige("goes on with the next on the list", peq(ex.load(S["lst"], PTR, Z), S["next"]), Z)
                    ex.oblige("every branch is inserted again, once", sorted(S["ins"]) == list(range(n.count)), Z)
                    ex.oblige("the node and its place on the list are given back", Z.os(n.obj).freed and Z.os(S["L"].obj).freed, Z)
                    ex.oblige("the root never goes down", T.le(n.level, B.level(ex.load(rp, PTR, Z), Z)), Z)
                # the end of the list
                fr.env = env0
                E = st.fork()
                S["root"] = Q = B.ex_child(E, "root at the end")
                lv = 0 if shape == "leaf" else T.add(1, T.sym("up", "I", 0))
                ct = T.sym("any", "I", 0) if shape == "leaf" else 1 if shape == "one" else T.add(2, T.sym("any", "I", 0))
                ex.store(Q.plus(B.w.o("n_level")), I32, lv, E)
                ex.store(Q.plus(B.w.o("n_count")), I32, ct, E)
                S["only"] = B.ex_child(E, "only child")
                B.bput(B.branch(Q, 0), B.rect_syms("only.r"), S["only"], E)
                ex.store(rp, PTR, Q, E)
                ex.store(S["lst"], PTR, NULL, E)
                out = ex.run_dag(fr, body, {h: [(E, {})]}, h)
                if out["back"]:
                    raise Unsupported("goes on after the end of the list")
                return [(t, s, q) for t, l in out["exits"].items() for s, q in l]
            B = Bench(F("RemoveRect"), [(REMREC, m_rec, None), (INSRECT, m_ins, None)], branch_prune=True)
            root = B.child("root")
            rp = B.cell("root pointer", root)
            n = N(B, "taken out", c if isinstance(c, int) else 0, T.sym("level", "I", 0))
            S["L"] = Ptr(B.ex.new_obj(B.st, "list", B.w.size("l")), 0)
            S["next"] = B.child("rest of the list")
            B.ex.store(S["L"].plus(B.w.o("l_node")), PTR, n.p, B.st)
            B.ex.store(S["L"].plus(B.w.o("l_next")), PTR, S["next"], B.st)
            p, a = B.rect("r")
            item = B.item("item")
            B.ex.loop_specs = {("RemoveRect", None): loop}
            res = asbool(B.run(p, B.cell("id", item), rp))
            g = "%s (%s, %s)" % (fn, c, shape)
            prf.take(B.ex, g)
            f, pc = B.ex.facts, B.st.pc
            q = B.ex.load(rp, PTR, B.st)
            if c is None:
                prf.prove(g, "not found: says so and changes nothing", T.and_(res, peq(q, root), S["loop"] == 0), f, pc)
            else:
                prf.prove(g, "found", T.and_(T.not_(res), S["loop"] == 1), f, pc)
                one = shape == "one"
                prf.prove(g, "a root with one branch, and only that, gives way to it", T.and_(peq(q, S["only"] if one else S["root"]), B.st.os(S["root"].obj).freed == one, not B.st.os(S["only"].obj).freed), f, pc)
    prf.function(fn)
    fn = "RTree::RemoveAllRec"
    for leaf in (True, False):
        for c in range(FULL + 1):
            S = {}

            def m_all(c_):
                i = only(c_.args[1], n.kids, "child")
                c_.ex.oblige("each child once, before the node", T.and_(T.eq(S["seen"][i].get(c_.st), 0), not c_.st.os(n.obj).freed), c_.st)
                S["seen"][i].set(1, c_.st)
            B = Bench(F("RemoveAllRec"), [(F("RemoveAllRec"), m_all, None)])
            n = N(B, "n", c, 0 if leaf else T.add(1, T.sym("level", "I", 0)), leaf)
            S["seen"] = [B.ghost("seen%d" % i, 0) for i in range(c)]
            B.run(n.p)
            g = "%s (%s, %d)" % (fn, "leaf" if leaf else "inner", c)
            prf.take(B.ex, g)
            prf.prove(g, "everything below goes, and the node", T.and_(B.st.os(n.obj).freed, *[T.eq(s.get(B.st), 0 if leaf else 1) for s in S["seen"]]), B.ex.facts, B.st.pc)
    prf.function(fn)
    for fn, pat in (("RTree::RemoveAll", F("RemoveAll")), ("RTree::RTree", None)):
        S = {"n": 0}

        def m_top(c_):
            S["n"] += 1
            c_.ex.oblige("the old root", peq(c_.args[1], root), c_.st)
        if pat:
            B = Bench(pat, [(F("RemoveAllRec"), m_top, None)])
            root = B.child("root")
            B.ex.store(B.t.plus(B.w.o("tree_root")), PTR, root, B.st)
            B.run()
            ex, st, t, w = B.ex, B.st, B.t, B.w
        else:
            w = W("rtree", ["d_construct"])
            ex, st = w.ex()
            t = Ptr(ex.new_obj(st, "tree", w.size("tree")), 0)
            _, st = ex.call("d_construct", [t], st)
            root = NULL
        prf.take(ex, fn)
        prf.function(fn)
        q = ex.load(t.plus(w.o("tree_root")), PTR, st)
        prf.prove(fn, "the root is an empty leaf", T.and_(not peq(q, root) is True, T.eq(ex.load(q.plus(w.o("n_count")), I32, st), 0), T.eq(ex.load(q.plus(w.o("n_level")), I32, st), 0), S["n"] == (1 if pat else 0)), ex.facts, st.pc)
