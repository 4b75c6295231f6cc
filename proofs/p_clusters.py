"""C04: SILMB::cluster: every report and every target in one cluster, clusters are the connected components"""
from .lib import *
from .p_target import index_of
from .p_sensor import same_ptr
from vc.loops import Tmpl, changed_cells
from vc.exec import asbool, asint
from vc import smt

AND, OR, NOT, IMP, EQ, LE, LT, ITE, ADD, SUB = T.and_, T.or_, T.not_, T.implies, T.eq, T.le, T.lt, T.ite, T.add, T.sub
TP = r"lmb::Target_<lmb::GM<4, 10>>\*"
RP = r"lmb::GaussianReport_<2>\*"
VT = r"std::vector<%s, std::allocator<%s>>::" % (TP, TP)
VR = r"std::vector<%s, std::allocator<%s>>::" % (RP, RP)
VCL = r"^[^(]*std::vector<lmb::Cluster_<lmb::GaussianReport_<2>, lmb::Target_<lmb::GM<4, 10>>>, std::allocator<[^()]*>>::"
MT = r"std::map<%s, std::vector<%s, [^()]*>::" % (RP, TP)
MR = r"std::map<%s, std::vector<%s, [^()]*>::" % (TP, RP)
CC = r"lmb::ConnectedComponents<lmb::GaussianReport_<2>>::"
IT = r"__gnu_cxx::__normal_iterator<%s\*, " % TP
# the ghost cells
MRC, CONN, INI, CTM, SORTED, NR, KR, NT, KT, NC = (8 * i for i in range(10))


def fa(body, n=1):
    vs = [T.fresh("s", "I") for _ in range(n)]
    return smt.forall(tuple(vs), body(*vs))


def fun(nm, sort="I"):
    n = "%s~%d" % (nm, next(T._fresh))
    return lambda *a: T.app(n, sort, *a)


def bit(c):
    return ITE(c, 1, 0) if isinstance(c, Term) else int(bool(c))


class Clusters:
    def __init__(self, w, ex, st):
        self.w, self.ex = w, ex
        N, NTG = self.N, self.NTG = T.sym("N", "I", 0), T.sym("NT", "I", 0)
        self.sr, self.stt = w.size("r"), w.size("t")
        self.rcid, self.tcid = w.o("r_cid"), w.o("t_cid")
        self.rep, self.qs, self.tau = (lambda r: T.app("rep", "I", r)), (lambda r: T.app("qs", "I", r)), (lambda m: T.app("tau", "I", m))
        self.M, self.wi = (lambda r, t: T.app("M", "B", r, t)), (lambda r, t: T.app("wi", "I", r, t))
        self.Share, self.sw = (lambda r, s: T.app("Share", "B", r, s)), (lambda r, s: T.app("sw", "I", r, s))
        self.Aff, self.ap0, self.al0, self.na0 = (lambda t: T.app("Aff", "B", t)), (lambda t: T.app("ap0", "I", t)), (lambda x: T.app("al0", "I", x)), T.sym("na0", "I", 0)
        self.r0, self.s0, self.t0 = T.sym("r*", "I"), T.sym("s*", "I"), T.sym("t*", "I")
        self.stack, self.maps, self.phase, self.comp, self.done = [], {}, 0, None, {}
        self.rng = lambda r: AND(LE(0, r), LT(r, N))
        rng, qs, tau, M, wi, Sh, sw = self.rng, self.qs, self.tau, self.M, self.wi, self.Share, self.sw
        inl = lambda r, m: AND(LE(qs(r), m), LT(m, qs(ADD(r, 1))))
        self.inl = inl
        F = ex.facts.append
        # what TargetTree::query says of each report: its list, stretch [qs(r), qs(r+1)) of one array
        F(EQ(qs(0), 0))
        F(fa(lambda r: IMP(rng(r), AND(LE(0, qs(r)), LE(qs(r), qs(ADD(r, 1)))))))
        F(fa(lambda r, m: IMP(AND(rng(r), inl(r, m)), AND(M(r, tau(m)), EQ(wi(r, tau(m)), m))), 2))
        F(fa(lambda r, t: IMP(M(r, t), AND(rng(r), LE(0, t), LT(t, NTG), inl(r, wi(r, t)), EQ(tau(wi(r, t)), t))), 2))
        # Share(r, s): some target matches both; sw: the first of them in the list of r
        F(fa(lambda r, s: IMP(Sh(r, s), AND(rng(r), inl(r, sw(r, s)), M(s, tau(sw(r, s))))), 2))
        F(fa(lambda r, s, m: IMP(AND(rng(r), inl(r, m), M(s, tau(m))), AND(Sh(r, s), LE(sw(r, s), m))), 3))
        # the list of affected targets: each once
        self.list_facts(self.Aff, self.ap0, self.al0, self.na0)
        F(fa(lambda t: IMP(self.Aff(t), AND(LE(0, t), LT(t, NTG)))))
        self.reports = self.array(st, "reports", self.sr, N, [(self.rcid, 4, I32)], lambda i, f, ty: T.app("cid0", "I", i) if f == self.rcid else None)
        self.pool = self.array(st, "targets", self.stt, NTG, [(self.tcid, 4, I32)], lambda i, f, ty: T.app("tcid0", "I", i) if f == self.tcid else None)
        self.tl = self.array(st, "match lists", 8, None, [(0, 8, PTR)], lambda i, f, ty: self.tgt(tau(i)))
        self.tl.readonly = True
        self.mt = self.array(st, "matching targets", 24, N, [(0, 8, PTR), (8, 8, PTR), (16, 8, PTR)], lambda i, f, ty: NULL)
        self.mr = self.array(st, "matching reports", 24, NTG, [], self.hidden)
        self.mr.readonly = True
        self.out = self.array(st, "listed", 8, N, [(0, 8, I64)], lambda i, f, ty: 0)
        g = self.g = ex.new_obj(st, "ghost", 80)
        for o in (MRC, CONN, INI, CTM, SORTED):
            ex.store(Ptr(g, o), I64, 0, st)
        for o in (NR, KR, NT, KT, NC):
            ex.store(Ptr(g, o), I64, T.fresh("before", "I"), st)
        self.scan = ex.new_obj(st, "scan", 24)
        for o, n in ((0, 0), (8, N), (16, N)):
            ex.store(Ptr(self.scan, o), PTR, Ptr(self.reports, T.scale(self.sr, n)), st)
        self.scan.readonly = True
        self.all = ex.new_obj(st, "all targets", 24)
        self.put(st, Ptr(self.all, 0), "affected", (self.Aff, self.ap0, self.al0, self.na0))
        self.clusters = ex.new_obj(st, "clusters", 24)
        self.tr = ex.new_obj(st, "tracker", w.size("tr"), lazy=True)

    # ------------------------------------------------------------------------------------------------ helpers
    def hidden(self, i, f, ty):
        raise Unsupported("the elements of a list that is only known by what it contains")

    def array(self, st, nm, stride, n, fields, elem):
        a = Obj(nm, None, kind="array", stride=stride, length=n)
        a.elem = elem
        a.meta["fields"] = fields
        st.wos(a)
        return a

    def tgt(self, t):
        return Ptr(self.pool, T.scale(self.stt, t))

    def rpt(self, r):
        return Ptr(self.reports, T.scale(self.sr, r))

    def list_facts(self, mem, pos, el, n):
        F = self.ex.facts.append
        F(fa(lambda x: IMP(AND(LE(0, x), LT(x, n)), AND(mem(el(x)), EQ(pos(el(x)), x)))))
        F(fa(lambda t: IMP(mem(t), AND(LE(0, pos(t)), LT(pos(t), n), EQ(el(pos(t)), t)))))

    def content(self, st, nm, what, node):
        """an array object that lists a set: what = (member?, position, element, length)"""
        a = self.array(st, nm, 8, None, [(0, 8, PTR)], lambda i, f, ty: UNDEF)
        self.lists(st, a, what + (node,))
        return a

    def lists(self, st, a, what):
        log = st.wos(a).log = (("map", 0, what[3], {0: (8, Tmpl(what[4](what[2](KVAR))))}),)
        a.meta["sets"] = a.meta.get("sets", ()) + ((log, what),)

    def set_of(self, a, st):
        """the set an array lists in a state"""
        log = st.os(a).log
        for l, what in reversed(a.meta.get("sets", ())):
            if l is log or l == log:
                return what
        return None

    def put(self, st, v, nm, what, node=None):
        a = self.content(st, nm, what, node or self.tgt)
        self.header(st, v, a, what[3])
        return a

    def header(self, st, v, a, n):
        for o, k in ((0, 0), (8, n), (16, n)):
            self.ex.store(v.plus(o), PTR, Ptr(a, T.scale(8, k)) if a is not None else NULL, st)

    def gl(self, o, st):
        return self.ex.load(Ptr(self.g, o), I64, st)

    def gs(self, o, v, st):
        self.ex.store(Ptr(self.g, o), I64, v, st)

    def rdx(self, p, st):
        """index of the report a pointer points to"""
        return self.idx(p, self.reports)

    def idx(self, p, o):
        if not (isinstance(p, Ptr) and p.obj is o):
            raise Unsupported("not one of the %s: %s" % (o, p))
        i, f = self.ex.split(p.obj, p.off)
        if f != 0:
            raise Unsupported("inside an element of %s" % o)
        return i

    def same(self, p, q):
        if not (isinstance(p, Ptr) and isinstance(q, Ptr)):
            if isinstance(p, Ptr) or isinstance(q, Ptr):
                raise Unsupported("pointers %s %s" % (p, q))
            return EQ(p, q)
        return EQ(p.off, q.off) if p.obj is q.obj else False

    def elems(self, name, a, el, n, node, st):
        x = T.fresh("x", "I")
        s = st.fork(AND(LE(0, x), LT(x, n)))
        self.ex.oblige(name, self.same(self.ex.aread(a, x, 0, PTR, 8, s), node(el(x))), s)

    def listed(self, name, first, last, st):
        """[first, last) is the whole of an array that lists a set -> that set (None: nothing)"""
        ex = self.ex
        if first.obj is None and last.obj is None:
            return None
        if first.obj is not last.obj or first.obj is None:
            raise Unsupported("not one range")
        if T.eq(first.off, last.off) is True:
            return None
        what = self.set_of(first.obj, st)
        if what is None:
            raise Unsupported("a list with unknown members (%s)" % name)
        mem, pos, el, n, node = what
        ex.oblige("%s: the whole list" % name, AND(EQ(first.off, 0), EQ(last.off, T.scale(8, n))), st)
        self.elems("%s: its elements" % name, first.obj, el, n, node, st)
        return what

    def vec(self, v, st):
        return self.ex.load(v, PTR, st), self.ex.load(v.plus(8), PTR, st)

    def is_sorted(self, name, what, st):
        x, y = T.fresh("x", "I"), T.fresh("y", "I")
        self.ex.oblige(name, IMP(AND(LE(0, x), LT(x, y), LT(y, what[3])), LT(what[2](x), what[2](y))), st)

    def one_map(self, c, nm):
        p = c.args[0]
        if not isinstance(p, Ptr) or self.maps.setdefault(nm, p.obj) is not p.obj:
            raise Unsupported("another map")

    # ------------------------------------------------------------------------------------------------ contracts of what is called
    def m_box(self, c):
        out, r = c.args[:2]
        c.ex.store(out, I64, self.rdx(r, c.st), c.st)           # whose box this is
        return None

    def m_query(self, c):
        ex, st = c.ex, c.st
        out, tree, b = c.args[:3]
        if not same_ptr(c, tree, self.tr, self.w.o("tr_tree")):
            raise Unsupported("query of another tree")
        r = ex.load(b, I64, st)
        if not isinstance(r, (int, Term)):
            raise Unsupported("query of a box that is not a report's")
        for o, k in ((0, self.qs(r)), (8, self.qs(ADD(r, 1))), (16, self.qs(ADD(r, 1)))):
            ex.store(out.plus(o), PTR, Ptr(self.tl, T.scale(8, k)), st)
        return None

    def m_mt(self, c):
        self.one_map(c, "targets of reports")
        r = self.rdx(c.ex.load(c.args[1], PTR, c.st), c.st)
        c.ex.oblige("a report of the scan", self.rng(r), c.st)
        return Ptr(self.mt, T.scale(24, r))

    def m_mr(self, c):
        self.one_map(c, "reports of targets")
        return Ptr(self.mr, T.scale(24, self.idx(c.ex.load(c.args[1], PTR, c.st), self.pool)))

    def m_push(self, c):
        ex, st = c.ex, c.st
        t, r = self.idx2(c.args[0]), self.rdx(ex.load(c.args[1], PTR, st), st)
        hit = AND(EQ(t, self.t0), EQ(r, self.r0))
        self.gs(MRC, ITE(hit, 1, self.gl(MRC, st)) if isinstance(hit, Term) else 1 if hit else self.gl(MRC, st), st)
        return None

    def idx2(self, p):
        if not (isinstance(p, Ptr) and p.obj is self.mr):
            raise Unsupported("a list of reports that is not that of a target")
        return self.idx(p, self.mr)

    def m_init(self, c):
        r = self.rdx(c.args[1], c.st)
        self.gs(INI, bit(OR(EQ(r, self.r0), EQ(self.gl(INI, c.st), 1))), c.st)
        return None

    def m_connect(self, c):
        ex, st = c.ex, c.st
        r, t = self.rdx(c.args[1], st), self.idx2(c.args[2])
        # for an arbitrary target and report: so for the target at hand and s*
        ex.oblige("the lists of matching reports are complete", EQ(self.gl(MRC, st), bit(self.M(self.r0, self.t0))), st)
        self.gs(CONN, bit(OR(AND(EQ(r, self.r0), self.M(self.s0, t)), EQ(self.gl(CONN, st), 1))), st)
        return None

    def m_component(self, c):
        """contract of get_component: an entire component of what is left"""
        ex, st = c.ex, c.st
        res = c.args[1]
        ex.oblige("the graph: every report is a node", IMP(self.rng(self.r0), EQ(self.gl(INI, st), 1)), st)
        ex.oblige("the graph: reports are connected when a target matches both", IMP(self.rng(self.r0), EQ(self.gl(CONN, st), bit(self.Share(self.r0, self.s0)))), st)
        ret, root, nr = T.fresh("more", "B"), T.fresh("root", "I"), T.fresh("nr", "I", 0)
        mem, pos, el = fun("in", "B"), fun("pr"), fun("rf")
        has, mf = fun("Has", "B"), fun("mf")
        gone = lambda r, s=st.fork(): EQ(ex.aread(self.out, r, 0, I64, 8, s), 1)
        F = ex.facts.append
        F(IMP(ret, mem(root)))
        F(IMP(NOT(ret), EQ(nr, 0)))
        F(fa(lambda r: IMP(mem(r), AND(ret, self.rng(r), NOT(gone(r)), EQ(self.rep(r), self.rep(root))))))
        F(fa(lambda r: IMP(AND(ret, self.rng(r), EQ(self.rep(r), self.rep(root))), mem(r))))
        F(fa(lambda r: IMP(AND(NOT(ret), self.rng(r)), gone(r))))
        self.list_facts(mem, pos, el, nr)
        # the targets of the component; the first of its reports that has each
        F(fa(lambda t: IMP(has(t), AND(LE(0, mf(t)), LT(mf(t), nr), self.M(el(mf(t)), t)))))
        F(fa(lambda x, t: IMP(AND(LE(0, x), LT(x, nr), self.M(el(x), t)), AND(has(t), LE(mf(t), x))), 2))
        self.res = res.obj
        self.put(st, res, "component", (mem, pos, el, nr), self.rpt)
        old = ex.aread(self.out, KVAR, 0, I64, 8, st)
        s = st.wos(self.out)
        s.log = s.log + (("map", 0, self.N, {0: (8, Tmpl(ITE(mem(KVAR), 1, old)))}),)
        self.gs(CTM, 0, st)
        self.comp = dict(ret=ret, root=root, nr=nr, mem=mem, pos=pos, el=el, has=has, mf=mf)
        return ret

    def m_assign(self, c):
        ex, st = c.ex, c.st
        d, s = c.args[:2]
        for o in (0, 8, 16):
            ex.store(d.plus(o), PTR, ex.load(s.plus(o), PTR, st), st)
        return d

    def m_vector(self, c):
        for o in (0, 8, 16):
            c.ex.store(c.args[0].plus(o), PTR, NULL, c.st)
        return None

    def m_single(self, c):
        ex, st = c.ex, c.st
        v, d, n = c.args[:3]
        if asint(n) != 1:
            raise Unsupported("list of %s" % n)
        t = self.idx(ex.load(d, PTR, st), self.pool)
        self.put(st, v, "single", (lambda x: EQ(x, t), lambda x: 0, lambda x: t, 1))
        return None

    def m_insert(self, c):
        """v.insert(v.end(), list of a report)"""
        ex, st = c.ex, c.st
        v, pos, first, last = c.args[:4]
        b, e = self.vec(v, st)
        if not (isinstance(first, Ptr) and first.obj is self.tl and last.obj is self.tl):
            raise Unsupported("inserts something else")
        if e.obj is not None and e.obj.meta.get("raw") is None or pos.obj is not e.obj:
            raise Unsupported("inserts in another list")
        ex.oblige("inserted at the end", EQ(pos.off, e.off), st)
        rs = [x.args[0] for x in T.subterms([first.off]) if isinstance(x, Term) and x.op == "app:qs"]
        if len(rs) != 1:
            raise Unsupported("whose list")
        r, = rs
        ex.oblige("the list of one report", AND(EQ(first.off, T.scale(8, self.qs(r))), EQ(last.off, T.scale(8, self.qs(ADD(r, 1))))), st)
        self.gs(CTM, ITE(self.M(r, self.t0), 1, self.gl(CTM, st)), st)
        self.gs(SORTED, 0, st)
        if e.obj is None:
            b = e = Ptr(self.union(st), 0)
        n = ADD(e.off, SUB(last.off, first.off))
        for o, k in ((0, 0), (8, n), (16, n)):
            ex.store(v.plus(o), PTR, Ptr(b.obj, k), st)
        self.union_v = v
        return Ptr(b.obj, e.off)

    def union(self, st):
        a = self.array(st, "union", 8, None, [(0, 8, PTR)], self.hidden)
        a.meta["raw"] = True
        return a

    def whole_union(self, name, first, last, st):
        b, e = self.vec(self.union_v, st)
        if not (b.obj is first.obj and e.obj is last.obj):
            raise Unsupported(name)
        self.ex.oblige(name + ": all of the list", AND(EQ(first.off, 0), EQ(last.off, e.off)), st)

    def m_sort(self, c):
        ex, st = c.ex, c.st
        first, last = c.args[:2]
        if first.obj is not None and first.obj.meta.get("raw") and not self.set_of(first.obj, st):
            self.whole_union("sort", first, last, st)
            self.gs(SORTED, 1, st)
            return None
        what = self.listed("sort", first, last, st)
        if what is None:
            return None
        mem, pos, el, n, node = what
        p2, e2 = fun("sp"), fun("sl")
        self.list_facts(mem, p2, e2, n)
        ex.facts.append(fa(lambda x, y: IMP(AND(LE(0, x), LT(x, y), LT(y, n)), LT(e2(x), e2(y))), 2))
        self.lists(st, first.obj, (mem, p2, e2, n, node))
        return None

    def m_unique(self, c):
        ex, st = c.ex, c.st
        first, last = c.args[:2]
        if first.obj is None or not first.obj.meta.get("raw") or self.set_of(first.obj, st):
            raise Unsupported("unique of another list")
        self.whole_union("unique", first, last, st)
        C = self.comp
        ex.oblige("unique: the list is sorted", EQ(self.gl(SORTED, st), 1), st)
        # for an arbitrary target: so for all
        ex.oblige("the list has the targets of the component's reports", EQ(self.gl(CTM, st), bit(C["has"](self.t0))), st)
        u, pos, el = T.fresh("u", "I", 0), fun("up"), fun("ul")
        what = (C["has"], pos, el, u)
        self.list_facts(*what)
        ex.facts.append(fa(lambda x, y: IMP(AND(LE(0, x), LT(x, y), LT(y, u)), LT(el(x), el(y))), 2))
        self.lists(st, first.obj, what + (self.tgt,))
        self.comp["u"] = what
        return Ptr(first.obj, T.scale(8, u))

    def m_erase(self, c):
        ex, st = c.ex, c.st
        v, first, last = c.args[:3]
        b, e = self.vec(v, st)
        if not (b.obj is first.obj is last.obj is e.obj):
            raise Unsupported("erases from another list")
        ex.oblige("erases the end of the list", EQ(last.off, e.off), st)
        ex.store(v.plus(8), PTR, first, st)
        return first

    def m_inserter(self, c):
        return (c.args[0], c.args[1])

    def m_difference(self, c):
        ex, st = c.ex, c.st
        a0, a1, b0, b1, v = c.args[:5]
        A, B = self.listed("set_difference", a0, a1, st), self.listed("set_difference", b0, b1, st)
        for nm, x in (("first", A), ("second", B)):
            if x is not None:
                self.is_sorted("set_difference: the %s list is sorted" % nm, x, st)
        b, e = self.vec(v, st)
        ex.oblige("the difference is put into an empty list", b.obj is e.obj and EQ(b.off, e.off), st)
        if len(c.args) > 5:
            it = c.args[5]
            ex.oblige("... at its end", it.obj is e.obj and EQ(it.off, e.off), st)
        am, bm = (A[0] if A else lambda t: False), (B[0] if B else lambda t: False)
        mem, pos, el, n = (lambda t: AND(am(t), NOT(bm(t)))), fun("dp"), fun("dl"), T.fresh("nd", "I", 0)
        self.list_facts(mem, pos, el, n)
        ex.facts.append(fa(lambda x, y: IMP(AND(LE(0, x), LT(x, y), LT(y, n)), LT(el(x), el(y))), 2))
        self.put(st, v, "difference", (mem, pos, el, n))
        return (v, UNDEF) if len(c.args) > 5 else v

    def m_swap(self, c):
        ex, st = c.ex, c.st
        a, b = c.args[:2]
        for o in (0, 8, 16):
            x, y = ex.load(a.plus(o), PTR, st), ex.load(b.plus(o), PTR, st)
            ex.store(a.plus(o), PTR, y, st)
            ex.store(b.plus(o), PTR, x, st)
        return None

    def m_clear(self, c):
        c.ex.store(c.args[0].plus(8), PTR, c.ex.load(c.args[0], PTR, c.st), c.st)
        return None

    def mine(self, c):
        if not same_ptr(c, c.args[0], self.clusters):
            raise Unsupported("another list of clusters")

    def m_clear_clusters(self, c):
        self.mine(c)
        for o in (NC, NR, NT):
            self.gs(o, 0, c.st)
        return None

    def m_emplace(self, c):
        self.mine(c)
        ex, st = c.ex, c.st
        v, pid, prep, ptgt, ppar = c.args[:5]
        k = ex.load(pid, I32, st)
        nc = self.gl(NC, st)
        ex.oblige("clusters are numbered in order", EQ(k, nc), st)
        ex.oblige("a cluster has the tracker's parameters", same_ptr(c, ex.load(ppar, PTR, st), self.tr, self.w.o("tr_params")), st)
        R, S = self.listed("reports of the cluster", *self.vec(prep, st), st), self.listed("targets of the cluster", *self.vec(ptgt, st), st)
        for what, x, n, q in ((R, self.r0, NR, KR), (S, self.t0, NT, KT)):
            m = what[0](x) if what else False
            if m is False:
                continue
            self.gs(n, ADD(self.gl(n, st), bit(m)), st)
            self.gs(q, ITE(m, nc, self.gl(q, st)), st)
        self.gs(NC, ADD(nc, 1), st)
        return Ptr(ex.new_obj(st, "cluster", self.w.size("k")), 0)

    def nop(self, c):
        return None

    def models(self):
        f = lambda n: (lambda c: getattr(self, n)(c))
        q = r"^lmb::TargetTree_<lmb::GM<4, 10>>::query\(lmb::AABBox const&\) const$"
        return [(r"^lmb::GaussianReport_<2>::llaabbox\(\)", self.m_box, "GaussianReport::llaabbox gives the report's box (C15, C16, C17)"),
                (q, self.m_query, "TargetTree_::query returns the live targets whose box touches the region, each once (C01, C02)"),
                ("^" + MT + r"operator\[\]\(", self.m_mt, "std::map"), ("^" + MR + r"operator\[\]\(", self.m_mr, None),
                ("^(" + MT + "|" + MR + r")(~?map)\(\)", self.nop, None),
                ("^[^(]*" + VR + r"(push_back\(|emplace_back<)", self.m_push, "std::vector"),
                ("^(" + VT + "|" + VR + r")vector\(\)", self.m_vector, None), ("^(" + VT + "|" + VR + r")~vector\(\)", self.nop, None),
                ("^" + VT + r"vector\(std::initializer_list", self.m_single, None), ("^" + VT + r"operator=\(", self.m_assign, None),
                ("^[^(]*" + VT + r"insert<", self.m_insert, None), ("^" + VT + r"erase\(__gnu_cxx::__normal_iterator<[^()]*, __gnu", self.m_erase, None),
                ("^" + VT + r"swap\(", self.m_swap, None), ("^" + VT + r"clear\(\)", self.m_clear, None),
                ("^void std::sort<" + IT, self.m_sort, "std::sort, std::unique, std::set_difference"), ("^[^(]*std::unique<" + IT, self.m_unique, None),
                (r"^[^(]*std::inserter<std::vector<" + TP, self.m_inserter, None), (r"^[^(]*std::back_inserter<std::vector<" + TP, lambda c: c.args[0], None), (r"^[^(]*std::set_difference<" + IT, self.m_difference, None),
                (VCL + r"clear\(\)", self.m_clear_clusters, None), (VCL + "emplace_back<", self.m_emplace, None),
                (r"^lmb::Cluster_<[^()]*::(~?Cluster_)\(", self.nop, None),
                ("^" + CC + r"(~?ConnectedComponents)\(\)", self.nop, None), ("^" + CC + r"init\(", self.m_init, "ConnectedComponents (proved: component, graph)"),
                ("^" + CC + r"connect\(", self.m_connect, None), ("^" + CC + r"get_component\(", self.m_component, None)]

    # ------------------------------------------------------------------------------------------------ loops
    def check(self, name, items, s):
        ex = self.ex
        for it in items:
            if it[0] == "cell":
                _, nm, p, ty, v = it
                ex.oblige("%s: %s" % (name, nm), self.same(ex.load(p, ty, s), v), s)
            elif it[0] == "arr":
                _, nm, o, f, ty, size, hi, fn = it
                if T.eq(hi, 0) is True:
                    continue
                x = T.fresh("x", "I")
                whole = hi is o.length
                for s2, y in [(s.fork(AND(LE(0, x), LT(x, hi if whole else SUB(hi, 1)))), x)] + ([] if whole else [(s.fork(LE(1, hi)), SUB(hi, 1))]):
                    ex.oblige("%s: %s" % (name, nm), self.same(ex.aread(o, y, f, ty, size, s2), fn(y)), s2)
            elif it[0] == "vec":
                _, nm, v, what, node = it
                b, e = self.vec(v, s)
                got = self.set_of(b.obj, s) if isinstance(b, Ptr) and b.obj is not None else None
                if got is None or e.obj is not b.obj:
                    raise Unsupported("%s: %s" % (name, nm))
                ex.oblige("%s: %s" % (name, nm), AND(EQ(b.off, 0), EQ(e.off, T.scale(8, got[3]))), s)
                self.elems("%s: elements of %s" % (name, nm), b.obj, got[2], got[3], got[4], s)
            elif it[0] == "empty":
                _, nm, v = it
                b, e = self.vec(v, s)
                ex.oblige("%s: %s" % (name, nm), b.obj is e.obj and EQ(b.off, e.off), s)

    def assume(self, items, s):
        ex = self.ex
        for it in items:
            if it[0] == "cell":
                ex.store(it[2], it[3], it[4], s)
            elif it[0] == "arr":
                _, nm, o, f, ty, size, hi, fn = it
                w = s.wos(o)
                w.log = w.log + (("map", 0, hi, {f: (size, Tmpl(fn(KVAR)))}),)
            elif it[0] == "vec":
                self.put(s, it[2], it[1], it[3], it[4])
            elif it[0] == "empty":
                self.header(s, it[2], None, 0)
            elif it[0] == "raw":
                self.header(s, it[2], self.union(s), T.fresh("len", "I", 0))
                self.union_v = it[2]

    def cut(self, fr, h, body, st, phis, name, first, generic, again, scratch=()):
        """first(state): the loop's invariant at first; generic(state) -> (phis, items, facts of the state): any iteration; again(state, phis): the invariant again"""
        ex = self.ex
        first(st)
        env0, trash = dict(fr.env), set(scratch)
        mark = len(ex.obls), len(ex.facts), dict(self.__dict__)
        for rnd in range(6):
            fr.env = dict(env0)
            G = st.fork()
            for o in trash:
                s = G.wos(o)
                s.cells, s.ranges = {}, (("undef", 0, None),)
            ph, items, pc = generic(G)
            self.assume(items, G)
            G = G.fork(AND(*pc))
            known = {(it[2].obj, it[2].off) for it in items if it[0] == "cell"} | {(it[2].obj, it[2].off + o) for it in items if it[0] in ("vec", "empty", "raw") for o in (0, 8, 16)}
            karr = {it[2] for it in items if it[0] == "arr"}
            X0 = G.fork()
            self.stack.append(name)
            outs = ex.run_dag(fr, body, {h: [(G, dict(ph))]}, h)
            self.stack.pop()
            new = set()
            for B, _ in outs["back"]:
                cells, arrays, tr = changed_cells(ex, X0, B, list(st.mem))
                bad = [o for o in arrays if o not in karr]
                if bad:
                    raise Unsupported("%s: changed in the loop: %s" % (name, bad))
                lost = {o for o, k, n in cells if (o, k) not in known} | tr
                keep = [o for o in lost if any(o is p for p, _ in known) or o is self.g]
                if keep:
                    raise Unsupported("%s: changed in the loop: %s" % (name, keep))
                new |= lost - trash
            if not new:
                break
            trash |= new
            del ex.obls[mark[0]:]
            del ex.facts[mark[1]:]
            self.__dict__.update(mark[2])
        else:
            raise Unsupported("%s: does not settle" % name)
        for B, bph in outs["back"]:
            again(B, bph)
        self.done[name] = True
        return [(t, s, p) for t, l in outs["exits"].items() for s, p in l]

    def handler(self, ex, fr, h, body, st, phis):
        ps = [(k, v) for k, v in phis.items() if isinstance(v, Ptr)]
        if not phis:
            return self.rounds(fr, h, body, st, phis)
        if len(phis) != 1 or not ps:
            raise Unsupported("loop with other counters")
        (p, v), = ps
        o = v.obj
        if o is self.reports:
            self.phase += 1
            return self.scan_loop(fr, h, body, st, p, v, self.phase)
        if o is self.tl:
            return self.list_loop(fr, h, body, st, p, v)
        if o is not None and self.set_of(o, st):
            return self.set_loop(fr, h, body, st, p, v)
        raise Unsupported("loop over %s" % o)

    def scan_loop(self, fr, h, body, st, p, v, phase):
        ex, r0, s0, t0 = self.ex, self.r0, self.s0, self.t0
        name = "matching" if phase == 1 else "connecting"
        if phase > 2:
            raise Unsupported("another loop over the scan")

        def items(i):
            if phase == 1:
                L = [("cell", "reports of targets", Ptr(self.g, MRC), I64, bit(AND(self.M(r0, t0), LT(r0, i))))]
                return L + [("arr", "targets of reports", self.mt, o, PTR, 8, i, (lambda k, d=d: Ptr(self.tl, T.scale(8, self.qs(ADD(k, d)))))) for o, d in ((0, 0), (8, 1), (16, 1))]
            return [("cell", "nodes", Ptr(self.g, INI), I64, bit(AND(LE(0, r0), LT(r0, i)))), ("cell", "edges", Ptr(self.g, CONN), I64, bit(AND(self.Share(r0, s0), LT(r0, i))))]

        def first(s):
            ex.oblige("%s: from the first report" % name, EQ(v.off, 0), s)
            self.check("%s, at first" % name, items(0), s)

        def generic(G):
            i = self.i = T.fresh("i", "I", 0)
            return {p: self.rpt(i)}, items(i), [LE(i, self.N)]

        def again(B, bph):
            j = self.idx(bph[p], self.reports)
            ex.oblige("%s: one report after the other" % name, EQ(j, ADD(self.i, 1)), B)
            ex.oblige("%s: within the scan" % name, LE(j, self.N), B)
            self.check("%s, again" % name, items(ADD(self.i, 1)), B)
        out = self.cut(fr, h, body, st, {}, name, first, generic, again)
        for t, s, q in out:
            ex.oblige("%s: all reports" % name, EQ(self.i, self.N), s)
        return out

    def list_loop(self, fr, h, body, st, p, v):
        ex, r0, s0, t0 = self.ex, self.r0, self.s0, self.t0
        if not self.stack or self.stack[-1] not in ("matching", "connecting"):
            raise Unsupported("loop over matches")
        one = self.stack[-1] == "matching"
        name, i = self.stack[-1] + ", of one report", self.i
        before = OR(LT(r0, i), EQ(r0, i))

        def items(m):
            if one:
                return [("cell", "reports of targets", Ptr(self.g, MRC), I64, bit(AND(self.M(r0, t0), OR(LT(r0, i), AND(EQ(r0, i), LT(self.wi(r0, t0), m))))))]
            return [("cell", "edges", Ptr(self.g, CONN), I64, bit(AND(self.Share(r0, s0), OR(LT(r0, i), AND(EQ(r0, i), LT(self.sw(r0, s0), m))))))]

        def first(s):
            ex.oblige("%s: from its first match" % name, EQ(v.off, T.scale(8, self.qs(i))), s)
            self.check("%s, at first" % name, items(self.qs(i)), s)

        def generic(G):
            self.m = T.fresh("m", "I")
            return {p: Ptr(self.tl, T.scale(8, self.m))}, items(self.m), [LE(self.qs(i), self.m), LE(self.m, self.qs(ADD(i, 1)))]

        def again(B, bph):
            ex.oblige("%s: one match after the other" % name, EQ(bph[p].off, T.scale(8, ADD(self.m, 1))), B)
            ex.oblige("%s: within its matches" % name, LE(ADD(self.m, 1), self.qs(ADD(i, 1))), B)
            self.check("%s, again" % name, items(ADD(self.m, 1)), B)
        out = self.cut(fr, h, body, st, {}, name, first, generic, again)
        for t, s, q in out:
            ex.oblige("%s: all matches" % name, EQ(self.m, self.qs(ADD(i, 1))), s)
        return out

    def cell_of(self, fr, st, v):
        """the variable that holds the number of the next cluster"""
        return [(o, k) for o in st.mem if o.kind != "array" and o is not self.g and o.size == 4 for k, (sz, x) in st.os(o).cells.items() if sz == 4]

    def rounds(self, fr, h, body, st, phis):
        """while (get_component)"""
        ex, r0, t0 = self.ex, self.r0, self.t0
        if self.phase != 2 or "rounds" in self.stack or self.done.get("rounds"):
            raise Unsupported("another loop")
        name = "rounds"
        ints = self.cell_of(fr, st, 0)
        if len(ints) != 1:
            raise Unsupported("number of the next cluster")
        pid = Ptr(*ints[0])
        # vectors of targets among the locals: the spare one is empty
        spare = [Ptr(o, 0) for o in st.mem if o.kind != "array" and o is not self.all and o is not self.clusters and o is not self.scan and o.size == 24 and self.is_null(o, st)]
        if not spare:
            raise Unsupported("spare list")
        K, na = [None], [None]

        def inv(f):
            """f: out, cid, tcid, took, tw, left -> named parts"""
            rng = self.rng
            return [("listed reports are numbered below the next number", lambda r: IMP(f["out"](r), AND(rng(r), LE(0, f["cid"](r)), LT(f["cid"](r), f["K"]))), 1),
                    ("a listed report's component is listed with it, with its number", lambda r, s: IMP(AND(f["out"](r), rng(s), EQ(self.rep(r), self.rep(s))), AND(f["out"](s), EQ(f["cid"](r), f["cid"](s)))), 2),
                    ("reports of equal number are of one component", lambda r, s: IMP(AND(f["out"](r), f["out"](s), EQ(f["cid"](r), f["cid"](s))), EQ(self.rep(r), self.rep(s))), 2),
                    ("a target taken matches a listed report", lambda t: IMP(f["took"](t), AND(f["out"](f["tw"](t)), self.M(f["tw"](t), t))), 1),
                    ("targets of listed reports are taken and have their number", lambda r, t: IMP(AND(f["out"](r), self.M(r, t)), AND(f["took"](t), EQ(f["tcid"](t), f["cid"](r)))), 2),
                    ("the targets left are the affected ones not taken", lambda t: AND(IMP(f["left"](t), AND(self.Aff(t), NOT(f["took"](t)))), IMP(AND(self.Aff(t), NOT(f["took"](t))), f["left"](t))), 1),
                    ("a listed report is in one cluster, that of its number", lambda: AND(EQ(f["nr"], bit(f["out"](r0))), IMP(f["out"](r0), EQ(f["kr"], f["cid"](r0)))), 0),
                    ("a target taken is in one cluster, that of its number", lambda: AND(EQ(f["nt"], bit(f["took"](t0))), IMP(f["took"](t0), EQ(f["kt"], f["tcid"](t0)))), 0)]

        def of_state(s, took, tw, Kv, left):
            return dict(out=lambda r: EQ(ex.aread(self.out, r, 0, I64, 8, s), 1), cid=lambda r: ex.aread(self.reports, r, self.rcid, I32, 4, s), tcid=lambda t: ex.aread(self.pool, t, self.tcid, I32, 4, s),
                        took=took, tw=tw, left=left, K=Kv, nr=self.gl(NR, s), kr=self.gl(KR, s), nt=self.gl(NT, s), kt=self.gl(KT, s))

        def left_of(s):
            b, e = self.vec(Ptr(self.all, 0), s)
            what = self.set_of(b.obj, s) if b.obj is not None else None
            if what is None:
                raise Unsupported("targets left")
            return what

        def fixed(Kv):
            return [("cell", "number of the next cluster", pid, I32, Kv), ("cell", "clusters made", Ptr(self.g, NC), I64, Kv)] + [("empty", "spare list", x) for x in spare if x.obj is not getattr(self, "res", None)]

        def first(s):
            what = left_of(s)
            self.check("rounds, at first", fixed(0) + [("vec", "targets left", Ptr(self.all, 0), what[:4], self.tgt)], s)
            f = of_state(s, lambda t: False, lambda t: 0, 0, what[0])
            for nm, b, n in inv(f):
                ex.oblige("rounds, at first: %s" % nm, b(*[T.fresh("x", "I") for _ in range(n)]), s)
            r = T.fresh("r", "I")
            ex.oblige("rounds, at first: no report is listed", NOT(f["out"](r)), s)

        def generic(G):
            K[0] = T.fresh("K", "I", 0)
            f = self.f = dict(out=fun("out", "B"), cid=fun("cid"), tcid=fun("tcid"), took=fun("took", "B"), tw=fun("tw"), left=fun("left", "B"), K=K[0],
                              nr=T.fresh("nr*", "I"), kr=T.fresh("kr*", "I"), nt=T.fresh("nt*", "I"), kt=T.fresh("kt*", "I"))
            lp, ll, n = fun("lp"), fun("ll"), T.fresh("left", "I", 0)
            self.left = (f["left"], lp, ll, n)
            self.list_facts(*self.left)
            pc = []
            for nm, b, k in inv(f):
                (ex.facts.append(fa(b, k)) if k else pc.append(b()))
            items = fixed(K[0]) + [("vec", "targets left", Ptr(self.all, 0), self.left, self.tgt),
                                   ("arr", "", self.out, 0, I64, 8, self.N, lambda k: ITE(f["out"](k), 1, 0)), ("arr", "", self.reports, self.rcid, I32, 4, self.N, f["cid"]), ("arr", "", self.pool, self.tcid, I32, 4, self.NTG, f["tcid"]),
                                   ("cell", "", Ptr(self.g, NR), I64, f["nr"]), ("cell", "", Ptr(self.g, KR), I64, f["kr"]), ("cell", "", Ptr(self.g, NT), I64, f["nt"]), ("cell", "", Ptr(self.g, KT), I64, f["kt"]),
                                   ("cell", "", Ptr(self.g, CTM), I64, T.fresh("ctm", "I")), ("cell", "", Ptr(self.g, SORTED), I64, T.fresh("srt", "I"))]
            return {}, items, pc

        def again(B, bph):
            C, f, what = self.comp, self.f, left_of(B)
            self.check("rounds, again", fixed(ADD(K[0], 1)) + [("vec", "targets left", Ptr(self.all, 0), what[:4], self.tgt)], B)
            took = lambda t: OR(f["took"](t), C["has"](t))
            tw = lambda t: ITE(f["took"](t), f["tw"](t), C["el"](C["mf"](t)))
            f2 = of_state(B, took, tw, ADD(K[0], 1), what[0])
            for nm, b, n in inv(f2):
                ex.oblige("rounds, again: %s" % nm, b(*[T.fresh("x", "I") for _ in range(n)]), B)
            ex.oblige("rounds: a report more is listed", AND(f2["out"](C["root"]), NOT(f["out"](C["root"]))), B)
            self.B = B
        out = self.cut(fr, h, body, st, {}, name, first, generic, again)
        # the last call listed nothing
        for t, s, q in out:
            r = T.fresh("r", "I")
            ex.oblige("rounds: all reports are listed", IMP(self.rng(r), self.f["out"](r)), s)
        self.K = K[0]
        return out

    def is_null(self, o, st):
        try:
            b, e = self.vec(Ptr(o, 0), st)
        except Unsupported:
            return False
        return isinstance(b, Ptr) and isinstance(e, Ptr) and b.obj is None and e.obj is None and o.size == 24

    def set_loop(self, fr, h, body, st, p, v):
        ex, r0, t0 = self.ex, self.r0, self.t0
        mem, pos, el, n, node = self.set_of(v.obj, st)
        if "rounds" in self.stack and node == self.rpt:
            return self.component_loop(fr, h, body, st, p, v)
        name = "numbers of the cluster's targets" if "rounds" in self.stack else "targets left"
        x = T.fresh("x", "I", 0)
        base = st.fork()
        old = lambda t: ex.aread(self.pool, t, self.tcid, I32, 4, base)
        K = self.f["K"]
        last = name == "targets left"
        if last:
            ints = self.cell_of(fr, st, 0)
            if len(ints) != 1:
                raise Unsupported("number of the next cluster")
            pid = Ptr(*ints[0])

        def items(x):
            seen = lambda t: AND(mem(t), LT(pos(t), x))
            L = [("arr", "cluster numbers of targets", self.pool, self.tcid, I32, 4, self.NTG, lambda t: ITE(seen(t), ADD(K, pos(t)) if last else K, old(t)))]
            if last:
                b = base
                L += [("cell", "number of the next cluster", pid, I32, ADD(K, x)), ("cell", "clusters made", Ptr(self.g, NC), I64, ADD(K, x)),
                      ("cell", "clusters of a target", Ptr(self.g, NT), I64, ADD(self.gl(NT, b), bit(seen(t0)))), ("cell", "cluster of a target", Ptr(self.g, KT), I64, ITE(seen(t0), ADD(K, pos(t0)), self.gl(KT, b)))]
            return L

        def first(s):
            ex.oblige("%s: from the first" % name, EQ(v.off, 0), s)
            self.check("%s, at first" % name, items(0), s)

        def generic(G):
            return {p: Ptr(v.obj, T.scale(8, x))}, items(x), [LE(x, n)]

        def again(B, bph):
            ex.oblige("%s: one after the other" % name, EQ(bph[p].off, T.scale(8, ADD(x, 1))), B)
            ex.oblige("%s: within the list" % name, LE(ADD(x, 1), n), B)
            self.check("%s, again" % name, items(ADD(x, 1)), B)
        out = self.cut(fr, h, body, st, {}, name, first, generic, again)
        for t, s, q in out:
            ex.oblige("%s: all" % name, EQ(x, n), s)
        return out

    def component_loop(self, fr, h, body, st, p, v):
        ex, t0 = self.ex, self.t0
        C = self.comp
        name = "reports of the component"
        x = T.fresh("x", "I", 0)
        base = st.fork()
        old = lambda r: ex.aread(self.reports, r, self.rcid, I32, 4, base)
        if self.set_of(v.obj, st)[0] is not C["mem"]:
            raise Unsupported("another list of reports")
        # the list under construction: a vector that is empty now and is inserted into below
        ex_v = [Ptr(o, 0) for o in st.mem if o.kind != "array" and o.size == 24 and self.is_null(o, st)]

        def items(x):
            L = [("cell", "targets collected", Ptr(self.g, CTM), I64, bit(AND(C["has"](t0), LT(C["mf"](t0), x))))] if self.grown else []
            return L + ([("arr", "cluster numbers of reports", self.reports, self.rcid, I32, 4, self.N, lambda r: ITE(AND(C["mem"](r), LT(C["pos"](r), x)), self.f["K"], old(r)))] if numbered else [])

        def first(s):
            ex.oblige("%s: from the first" % name, EQ(v.off, 0), s)
            self.check("%s, at first" % name, items(0), s)

        def generic(G):
            L = items(x)
            if self.grown:
                L.append(("cell", "", Ptr(self.g, SORTED), I64, T.fresh("srt", "I")))
            for u in ex_v:
                if u.obj in self.grown:
                    L.append(("raw", "", u))
            return {p: Ptr(v.obj, T.scale(8, x))}, L, [LE(x, C["nr"])]

        def again(B, bph):
            ex.oblige("%s: one after the other" % name, EQ(bph[p].off, T.scale(8, ADD(x, 1))), B)
            ex.oblige("%s: within the list" % name, LE(ADD(x, 1), C["nr"]), B)
            self.check("%s, again" % name, items(ADD(x, 1)), B)
        # which vector grows: try once
        self.grown = set()
        X, env0, mark = st.fork(), dict(fr.env), (len(ex.obls), len(ex.facts))
        X.wos(self.g)
        self.stack.append(name)
        outs = ex.run_dag(fr, body, {h: [(X.fork(LT(x, C["nr"])), {p: Ptr(v.obj, T.scale(8, x))})]}, h)
        self.stack.pop()
        numbered = False
        for B, _ in outs["back"]:
            numbered = numbered or B.os(self.reports).log != st.os(self.reports).log
            for u in ex_v:
                if not self.is_null(u.obj, B):
                    self.grown.add(u.obj)
        del ex.obls[mark[0]:]
        del ex.facts[mark[1]:]
        fr.env = env0
        if len(self.grown) > 1:
            raise Unsupported("lists that grow")
        out = self.cut(fr, h, body, st, {}, name, first, generic, again)
        for t, s, q in out:
            ex.oblige("%s: all" % name, EQ(x, C["nr"]), s)
        return out


def cluster(prf):
    fn = "SILMB::cluster"
    S = []
    proto = Clusters.__new__(Clusters)
    models = [(a, (lambda c, i=i: S[0].models()[i][1](c)), b) for i, (a, _, b) in enumerate(proto.models())]
    w = W("tracker", ["d_cluster"], also=[r"SILMB<.*::cluster<"], stub=[m[0] for m in models], models=models)
    ex, st = w.ex(branch_prune=True)
    C = Clusters(w, ex, st)
    S.append(C)
    # rep: the least equivalence relation that contains Share (each report shares nothing with itself when it has no match)
    ex.facts.append(fa(lambda r, s: IMP(C.Share(r, s), EQ(C.rep(r), C.rep(s))), 2))
    r, s_, t = T.sym("r", "I"), T.sym("s", "I"), T.sym("t", "I")
    prf.prove(fn, "lemma: reports that match one target are of one component", IMP(AND(C.M(r, t), C.M(s_, t)), EQ(C.rep(r), C.rep(s_))), ex.facts + [IMP(AND(C.rng(r), C.inl(r, C.wi(r, t)), C.M(s_, C.tau(C.wi(r, t)))), C.Share(r, s_))])
    ex.facts.append(fa(lambda r, s, t: IMP(AND(C.M(r, t), C.M(s, t)), EQ(C.rep(r), C.rep(s))), 3))
    ex.loop_specs = {(r"::cluster<|^d_cluster", None): C.handler}
    _, st = ex.call("d_cluster", [Ptr(C.tr, 0), Ptr(C.scan, 0), Ptr(C.all, 0), Ptr(C.clusters, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::SILMB::cluster")
    f, r0, s0, t0 = C.f, C.r0, C.s0, C.t0
    facts, pc = ex.facts, st.pc
    P = lambda nm, g: prf.prove(fn, nm, g, facts, pc)
    cid = lambda r: ex.aread(C.reports, r, C.rcid, I32, 4, st)
    tcid = lambda t: ex.aread(C.pool, t, C.tcid, I32, 4, st)
    NRv, KRv, NTv, KTv, NCv = (C.gl(o, st) for o in (NR, KR, NT, KT, NC))
    part = OR(C.Aff(t0), C.M(s0, t0))
    P("every report is in one cluster", IMP(C.rng(r0), EQ(NRv, 1)))
    P("its number is that of the report", IMP(C.rng(r0), AND(EQ(KRv, cid(r0)), LE(0, KRv), LT(KRv, NCv))))
    P("every target affected or matched is in one cluster", IMP(part, EQ(NTv, 1)))
    P("its number is that of the target", IMP(part, AND(EQ(KTv, tcid(t0)), LE(0, KTv), LT(KTv, NCv))))
    P("other targets are in none", IMP(AND(NOT(C.Aff(t0)), EQ(NTv, 1)), AND(f["took"](t0), C.M(f["tw"](t0), t0))))
    P("never in two", LE(NTv, 1))
    P("a report and a target that match are in one cluster", IMP(C.M(r0, t0), EQ(KRv, KTv)))
    P("reports have equal numbers exactly if they are connected", IMP(AND(C.rng(r0), C.rng(s0)), AND(IMP(EQ(C.rep(r0), C.rep(s0)), EQ(cid(r0), cid(s0))), IMP(EQ(cid(r0), cid(s0)), EQ(C.rep(r0), C.rep(s0))))))
    P("a target without a match is alone", IMP(AND(C.Aff(t0), NOT(f["took"](t0)), C.rng(r0)), NOT(EQ(cid(r0), tcid(t0)))))
    t1 = T.sym("t1", "I")
    P("two targets share a cluster only if reports connect them", IMP(AND(C.Aff(t0), OR(C.Aff(t1), C.M(s0, t1)), EQ(tcid(t0), tcid(t1)), NOT(EQ(t0, t1))),
                                                                      AND(C.M(f["tw"](t0), t0), C.M(f["tw"](t1), t1), EQ(C.rep(f["tw"](t0)), C.rep(f["tw"](t1))))))
    P("the number of clusters is told", EQ(ex.load(Ptr(C.tr, w.o("tr_nc")), I32, st), NCv))
    P("lemma: the relation is symmetric", IMP(C.Share(r0, s0), C.Share(s0, r0)))
    plain = [g for g in facts if not (isinstance(g, Term) and g.op == "forall")]
    prf.reachable(fn, plain, pc)
    prf.reachable(fn + " (another round)", plain, C.B.pc)
