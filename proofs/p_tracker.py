"""C20, C18, C03, C02, C08: the tracker (SILMB) and its target tree, against the contracts of the target and index functions"""
from .lib import *
from .p_sensor import same_ptr
from .p_target import pool, index_of, counter, frame, target
from vc.exec import asbool, asint

Z, ONE = Fraction(0), Fraction(1)


class Tracker:
    """a SILMB object whose list of live targets holds N distinct targets (pool.r(k), pool.id(k), pool.cid(k)); the index is opaque"""

    def __init__(self, w, ex, st, readonly=True, n=None):
        self.w = w
        self.N = N = T.sym("N", "I", 0) if n is None else n
        ex.fact(T.le(0, N))
        sc = {w.o("t_r"): ("T.r", "R", DBL, 8), w.o("t_id"): ("T.id", "I", I32, 4), w.o("t_cid"): ("T.cid", "I", I32, 4)}

        def elem(i, f, ty):
            if f in sc:
                return T.app(sc[f][0], sc[f][1], i)
            if f == w.o("t_params"):
                return Ptr(self.obj, w.o("tr_params"))
            return None
        self.vec_off = w.o("tr_tree") + w.o("tree_targets")
        par = {w.o("tr_params") + w.o("p_" + k): k for k in ("w_lim", "r_lim", "nhyp_max", "rB_max", "nstd", "cw_lim", "cov_lim", "tscale")}

        def init(off, ty):
            if off in par:
                return T.sym("par." + par[off], "R")
            if off == w.o("tr_tree") + w.o("tree_params"):
                return Ptr(self.obj, w.o("tr_params"))
            if off == w.o("tr_tree") + w.o("tree_idc"):
                return T.sym("id_counter", "I", 0)
            if off == self.vec_off:
                return Ptr(self.ptrs, 0)
            if off in (self.vec_off + 8, self.vec_off + 16):
                return Ptr(self.ptrs, T.scale(8, N))
            return None
        self.obj = ex.new_obj(st, "tracker", w.size("tr"), lazy=True, init=init, readonly=readonly)
        self.pool, self.ptrs, v = pool(ex, st, "T", w.size("t"), N, elem, [(o, b, ty) for o, (_, _, ty, b) in sc.items()])
        self.pool.readonly = self.ptrs.readonly = readonly
        self.p = Ptr(self.obj, 0)
        self.tree = Ptr(self.obj, w.o("tr_tree"))
        self.sub = None

    def query(self, ex, st, dst, name="q"):
        """contract of TargetTree_::query: a vector of pointers to distinct live targets"""
        n = T.sym("nq", "I", 0)
        ex.fact(T.le(0, n))
        a = Obj(name + ".ptrs", None, kind="array", stride=8, length=n)
        a.elem = lambda i, f, ty: Ptr(self.pool, T.scale(self.w.size("t"), T.app(name, "I", i)))
        a.meta["fields"] = [(0, 8, PTR)]
        st.wos(a)
        for k, off in ((0, 0), (8, T.scale(8, n)), (16, T.scale(8, n))):
            ex.store(dst.plus(k), PTR, Ptr(a, off), st)
        j = T.fresh("j", "I", 0)
        qj = T.app(name, "I", j)
        ex.fact(smt.forall((j,), T.implies(T.and_(T.le(0, j), T.lt(j, n)), T.and_(T.le(0, qj), T.lt(qj, self.N)))))
        self.nq = n
        return n


QUERY = r"^lmb::TargetTree_<lmb::GM<4, 10>>::query\(lmb::AABBox const&\) const$"


def box(ex, st, name="box"):
    return ex.new_obj(st, name, 32, lazy=True, readonly=True, init=lambda off, ty: T.sym("%s%d" % (name, off // 8), "R"))


def world(roots, stub=(), models=(), **kw):
    g = {}

    def m_query(c):
        tk = g["tk"]
        if not same_ptr(c, c.args[1], tk.obj, tk.w.o("tr_tree")):
            raise Unsupported("query of another tree")
        if "values" in g:         # the region's coordinates, wherever they are
            c.ex.oblige("the region asked for is the region queried", T.and_(*[T.eq(c.ex.load(c.args[2].plus(8 * k), DBL, c.st), v) for k, v in enumerate(g["values"])]), c.st)
        elif not same_ptr(c, c.args[2], g["box"]):
            c.ex.oblige("the region asked for is the region queried", T.and_(*[T.eq(c.ex.load(c.args[2].plus(8 * k), DBL, c.st), T.sym("box%d" % k, "R")) for k in range(4)]), c.st)
        tk.query(c.ex, c.st, c.args[0])
        return None
    w = W("tracker", roots, stub=[QUERY] + list(stub), models=[(QUERY, m_query, "TargetTree_::query returns the live targets whose box touches the region (C01, C02)")] + list(models), **kw)
    return w, g


def counts(prf):
    q = lambda k: T.app("q", "I", k)
    for f, region, what in (("d_enof", False, "enof"), ("d_enof_box", True, "enof"), ("d_nof", False, "nof"), ("d_nof_box", True, "nof")):
        fn = "SILMB::%s_targets(%s)" % (what, "region" if region else "")
        w, g = world([f])
        ex, st = w.ex()
        tk = g["tk"] = Tracker(w, ex, st)
        g["box"] = box(ex, st)
        args = [tk.p] + ([Ptr(g["box"], 0)] if region else []) + ([T.sym("lim", "R")] if what == "nof" else [])
        r, st = ex.call(f, args, st)
        prf.take(ex, fn)
        prf.function("lmb::" + fn)
        e = T.app("T.r", "R", q(KVAR) if region else KVAR)
        if what == "nof":
            e = T.ite(T.le(T.sym("lim", "R"), e), 1, 0)
        n = tk.nq if region else tk.N
        prf.prove(fn, "sum over the targets" if what == "enof" else "number of targets at or above the limit", T.eq(r, T.sum_(e, n)), ex.facts, st.pc)


def lists(prf):
    """get_targets: one emplace_back per target, in order, with the target's own summary values"""
    EB = r"std::vector<lmb::TargetSummary_<4>, .*>::emplace_back<"
    MEAN, COV = r"^lmb::GM<4, 10>::mean\(\)", r"^lmb::GM<4, 10>::cov\(\)"
    for f, region in (("d_get", False), ("d_get_box", True)):
        fn = "SILMB::get_targets(%s)" % ("region" if region else "")
        rec = {}

        def stat(name, n):
            def m(c):
                ex, st = c.ex, c.st
                p = c.args[1]
                if not (isinstance(p, Ptr) and p.obj is g["tk"].pool):
                    raise Unsupported("statistics of something else than a target")
                i, fo = ex.split(p.obj, p.off)
                if fo != w.o("t_pdf"):
                    ex.oblige("statistics of the target's own mixture", False, st)
                for k in range(n):
                    ex.store(c.args[0].plus(8 * k), DBL, T.app("%s%d" % (name, k), "R", i), st)
                return None
            return m

        def m_eb(c):
            ex, st = c.ex, c.st
            v, x, P, wt, i, ci = c.args
            if not same_ptr(c, v, rec["out"]):
                raise Unsupported("appends to another vector")
            ln = Ptr(rec["len"], 0)
            n = ex.load(ln, I64, st)
            b = T.scale(REC, n)
            for k in range(4):
                ex.store(Ptr(rec["arr"], T.add(b, 8 * k)), DBL, ex.load(x.plus(8 * k), DBL, st), st)
            for k in range(16):
                ex.store(Ptr(rec["arr"], T.add(b, 32 + 8 * k)), DBL, ex.load(P.plus(8 * k), DBL, st), st)
            ex.store(Ptr(rec["arr"], T.add(b, 160)), DBL, ex.load(wt, DBL, st), st)
            ex.store(Ptr(rec["arr"], T.add(b, 168)), I32, ex.load(i, I32, st), st)
            ex.store(Ptr(rec["arr"], T.add(b, 176)), I32, ex.load(ci, I32, st), st)
            ex.store(ln, I64, T.add(n, 1), st)
            return NULL
        w, g = world([f], stub=[EB, MEAN, COV], models=[(EB, m_eb, "std::vector::emplace_back appends one element built from the arguments"), (MEAN, stat("mean", 4), None), (COV, stat("cov", 16), None)])
        ex, st = w.ex()
        tk = g["tk"] = Tracker(w, ex, st)
        g["box"] = box(ex, st)
        REC = 184
        arr = Obj("summaries", None, kind="array", stride=REC, length=None)
        arr.elem = lambda i, f_, ty: None
        arr.meta["fields"] = [(8 * k, 8, DBL) for k in range(21)] + [(168, 4, I32), (176, 4, I32)]
        st.wos(arr)
        rec.update(arr=arr, len=ex.new_obj(st, "len", 8), out=ex.new_obj(st, "out", 24))
        ex.store(Ptr(rec["len"], 0), I64, 0, st)
        _, st = ex.call(f, [tk.p] + ([Ptr(g["box"], 0)] if region else []) + [Ptr(rec["out"], 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::" + fn)
        n = tk.nq if region else tk.N
        prf.prove(fn, "one entry per target", T.eq(ex.load(Ptr(rec["len"], 0), I64, st), n), ex.facts, st.pc)
        i, si = forall_index(ex, st, n)
        j = T.app("q", "I", i) if region else i
        L = lambda o, ty=DBL: ex.load(Ptr(arr, T.add(T.scale(REC, i), o)), ty, si)
        prf.prove(fn, "entry has the target's mean", T.and_(*[T.eq(L(8 * k), T.app("mean%d" % k, "R", j)) for k in range(4)]), ex.facts, si.pc)
        prf.prove(fn, "entry has the target's covariance", T.and_(*[T.eq(L(32 + 8 * k), T.app("cov%d" % k, "R", j)) for k in range(16)]), ex.facts, si.pc)
        prf.prove(fn, "entry has the target's existence probability", T.eq(L(160), T.app("T.r", "R", j)), ex.facts, si.pc)
        prf.prove(fn, "entry has the target's id and cluster number", T.and_(T.eq(L(168, I32), T.app("T.id", "I", j)), T.eq(L(176, I32), T.app("T.cid", "I", j))), ex.facts, si.pc)


def summary(prf):
    """TargetSummary_: the constructor stores its arguments; a copy or moved object refers to its own existence probability"""
    for f in ("d_summary", "d_summary_copy", "d_summary_move"):
        fn = "TargetSummary_ (%s)" % f[2:]
        w = W("tracker", [f])
        ex, st = w.ex()
        out = ex.new_obj(st, "out", w.size("u"))
        if f == "d_summary":
            x = ex.new_obj(st, "x", 32, lazy=True, readonly=True, init=lambda o, ty: T.sym("x%d" % (o // 8), "R"))
            P = ex.new_obj(st, "P", 128, lazy=True, readonly=True, init=lambda o, ty: T.sym("P%d" % (o // 8), "R"))
            _, st = ex.call(f, [Ptr(out, 0), Ptr(x, 0), Ptr(P, 0), T.sym("w", "R"), T.sym("id", "I", 0), T.sym("cid", "I", 0)], st)
        else:
            inp = ex.new_obj(st, "in", w.size("u"), lazy=True, readonly=True, init=lambda o, ty: init(o, ty))

            def init(o, ty):
                if w.o("u_x") <= o < w.o("u_x") + 32:
                    return T.sym("x%d" % ((o - w.o("u_x")) // 8), "R")
                if w.o("u_P") <= o < w.o("u_P") + 128:
                    return T.sym("P%d" % ((o - w.o("u_P")) // 8), "R")
                return {w.o("u_w"): T.sym("w", "R"), w.o("u_w") + 16: None, w.o("u_id"): T.sym("id", "I", 0), w.o("u_cid"): T.sym("cid", "I", 0)}.get(o)
            _, st = ex.call(f, [Ptr(out, 0), Ptr(inp, 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::TargetSummary_ " + ("constructor" if f == "d_summary" else "copy"))
        for k in range(4):
            prf.prove(fn, "mean [%d]" % k, T.eq(ex.load(Ptr(out, w.o("u_x") + 8 * k), DBL, st), T.sym("x%d" % k, "R")), ex.facts, st.pc)
        for k in range(16):
            prf.prove(fn, "covariance [%d]" % k, T.eq(ex.load(Ptr(out, w.o("u_P") + 8 * k), DBL, st), T.sym("P%d" % k, "R")), ex.facts, st.pc)
        prf.prove(fn, "id", T.eq(ex.load(Ptr(out, w.o("u_id")), I32, st), T.sym("id", "I", 0)), ex.facts, st.pc)
        prf.prove(fn, "cluster number", T.eq(ex.load(Ptr(out, w.o("u_cid")), I32, st), T.sym("cid", "I", 0)), ex.facts, st.pc)
        prf.prove(fn, "existence probability", T.eq(ex.load(Ptr(out, w.o("u_w")), DBL, st), T.sym("w", "R")), ex.facts, st.pc)
        rp = ex.load(Ptr(out, w.o("u_r")), PTR, st)
        prf.prove(fn, "r refers to this object's own existence probability", isinstance(rp, Ptr) and rp.obj is out and rp.off == w.o("u_w"))


class Ghost:
    """per target: how far it is (phase), whether it was put back into the index, whether it was dropped"""

    def __init__(self, ex, st, arr, what="T", eqidx=None):
        self.pool = arr
        self.a = {k: counter(ex, st, what + "." + k) for k in ("phase", "kept", "dropped")}

    def cell(self, k, i):
        return Ptr(self.a[k], T.scale(8, i))

    def step(self, c, p, a, b, what):
        """target p must be in phase a, goes on to phase b"""
        ex, st = c.ex, c.st
        i = index_of(ex, p, self.pool)
        q = self.cell("phase", i)
        ex.oblige("%s: in order, once per target" % what, T.eq(ex.load(q, I64, st), a), st)
        if b is not None:
            ex.store(q, I64, b, st)
        return i

    def bump(self, c, k, i):
        q = self.cell(k, i)
        c.ex.store(q, I64, T.add(c.ex.load(q, I64, c.st), 1), c.st)


TGT = r"^(void |bool |double )?lmb::Target_<lmb::GM<4, 10>>::"
TREE = r"^(void |bool |double )?lmb::TargetTree_<lmb::GM<4, 10>>::"


def predict(prf):
    """SILMB::predict: every target is moved once by the model in its own local frame; afterwards exactly the viable ones are indexed again
    and the others erased"""
    for f, model in (("d_predict_cv", "CV"), ("d_predict_nm", "NM")):
        fn = "SILMB::predict(%s)" % model
        g = {}

        def m_removeall(c):
            if not same_ptr(c, c.args[0], g["tk"].obj, w.o("tr_tree")):
                raise Unsupported("remove_all of another tree")
            q = Ptr(g["cleared"], 0)
            c.ex.oblige("index is cleared once", T.eq(c.ex.load(q, I64, c.st), 0), c.st)
            c.ex.store(q, I64, 1, c.st)
            return None

        def m_local(c):
            g["gh"].step(c, c.args[0] if len(c.args) == 1 else c.args[1], 0, 1, "move to the local frame")
            return None

        def m_predict(c):
            g["gh"].step(c, c.args[0], 1, 2, "prediction")
            if not same_ptr(c, c.args[1], g["mo"]):
                c.ex.oblige("the given model", False, c.st)
            c.ex.oblige("from the last time to the time asked for", T.and_(T.eq(c.args[2], T.sym("time", "R")), T.eq(c.args[3], T.sym("last", "R"))), c.st)
            return None

        def m_global(c):
            g["gh"].step(c, c.args[0], 2, 3, "move back to the global frame")
            return None

        def m_viable(c):
            i = g["gh"].step(c, c.args[0], 3, None, "viability is asked after the prediction")
            return T.ne(T.app("viable", "I", i), 0)

        def m_put(k):
            def m(c):
                if not same_ptr(c, c.args[0], g["tk"].obj, w.o("tr_tree")):
                    raise Unsupported("another tree")
                i = g["gh"].step(c, c.args[1], 3, None, "index update after the prediction")
                c.ex.oblige("index update after the index was cleared", T.eq(c.ex.load(Ptr(g["cleared"], 0), I64, c.st), 1), c.st)
                g["gh"].bump(c, k, i)
                return None
            return m
        models = [(TREE + r"remove_all\(\)", m_removeall, None), (TGT + r"transform_to_local\(", m_local, None), (TGT + "predict<", m_predict, None),
                  (TGT + r"transform_to_global\(\)", m_global, None), (TGT + r"viable\(\)", m_viable, None), (TREE + r"replace\(", m_put("kept"), None), (TREE + r"erase\(", m_put("dropped"), None)]
        w = W("tracker", [f], stub=[m[0] for m in models], models=models)
        for case in (0, 1, 2):
            empty = case == 0
            ex, st = w.ex(branch_prune=True)
            tk = g["tk"] = Tracker(w, ex, st, readonly=False, n=case if case < 2 else None)
            st = st.fork(T.lt(1, tk.N))if case == 2 else st
            tk.pool.readonly = True
            g["gh"] = Ghost(ex, st, tk.pool)
            g["cleared"] = ex.new_obj(st, "cleared", 8)
            ex.store(Ptr(g["cleared"], 0), I64, 0, st)
            g["mo"] = ex.new_obj(st, "model", 160, lazy=True, readonly=True)
            _, st = ex.call(f, [tk.p, Ptr(g["mo"], 0), T.sym("time", "R"), T.sym("last", "R")], st)
            prf.take(ex, fn)
            if empty:
                prf.prove(fn, "index is cleared", T.eq(ex.load(Ptr(g["cleared"], 0), I64, st), 1), ex.facts, st.pc)
            prf.reachable(fn, ex.facts, st.pc)
            i, si = forall_index(ex, st, tk.N)
            v = T.ne(T.app("viable", "I", i), 0)
            L = lambda k: ex.load(g["gh"].cell(k, i), I64, si)
            prf.prove(fn, "every target is moved, once", T.eq(L("phase"), 3), ex.facts, si.pc)
            prf.prove(fn, "a viable target is put back into the index once and not erased", T.implies(v, T.and_(T.eq(L("kept"), 1), T.eq(L("dropped"), 0))), ex.facts, si.pc)
            prf.prove(fn, "any other target is erased once and not put back", T.implies(T.not_(v), T.and_(T.eq(L("kept"), 0), T.eq(L("dropped"), 1))), ex.facts, si.pc)

        prf.function("lmb::SILMB::predict<%s>" % model)


# ------------------------------------------------------------------ the target tree (C02)
RT = r"^(void |bool |int )?RTree<lmb::Target_<lmb::GM<4, 10>>\*, double, 2, double, 8, 4>::"
VT = r"std::vector<lmb::Target_<lmb::GM<4, 10>>\*, std::allocator<lmb::Target_<lmb::GM<4, 10>>\*>>::"


class Calls:
    """calls of stubs on a straight path: each must be reached on every path"""

    def __init__(self):
        self.log = []

    def hit(self, c, what):
        self.log.append((what, tuple(c.st.pc)))

    def prove(self, prf, fn, name, want, facts, pc):
        got = [x[0] for x in self.log]
        prf.prove(fn, name, got == list(want), facts, pc)
        for what, p in self.log:
            prf.prove(fn, "%s: on every path (%s)" % (name, what), T.and_(*p) if p else True, facts, pc)


class Tree:
    """a TargetTree_ with a list of N targets, and calls of the index recorded"""

    def __init__(self, w, ex, st, n=None):
        self.w = w
        self.N = n = T.sym("N", "I", 0) if n is None else n
        ex.fact(T.le(0, n))

        def init(off, ty):
            if off == w.o("tree_params"):
                return Ptr(self.par, 0)
            if off == w.o("tree_idc"):
                return T.sym("id_counter", "I", 0)
            if off == w.o("tree_targets"):
                return Ptr(self.ptrs, 0)
            if off in (w.o("tree_targets") + 8, w.o("tree_targets") + 16):
                return Ptr(self.ptrs, T.scale(8, n))
            return None
        self.par = new_params(w, ex, st)
        self.obj = ex.new_obj(st, "tree", w.size("tree"), lazy=True, init=init)
        self.pool, self.ptrs, _ = pool(ex, st, "T", w.size("t"), n)
        self.pool.readonly = self.ptrs.readonly = True
        self.calls = Calls()

    def rtree(self, c):
        """the index of this tree is the one called"""
        if not same_ptr(c, c.args[0], self.obj, self.w.o("tree_tree")):
            raise Unsupported("index of another tree")


def boxed(w, ex, st, name="t"):
    """a target whose stored box is the four numbers box.*"""
    ob = w.o("t_pdf") + w.o("pdf_aabbox")
    return ex.new_obj(st, name, w.size("t"), lazy=True, readonly=True, init=lambda off, ty: T.sym("box%d" % ((off - ob) // 8), "R") if ob <= off < ob + 32 else None)


def same_box(ex, st, lo, hi):
    return T.and_(*[T.eq(ex.load(p.plus(8 * k), DBL, st), T.sym("box%d" % (2 * j + k), "R")) for j, p in enumerate((lo, hi)) for k in range(2)])


def item(ex, st, p, t):
    v = ex.load(p, PTR, st)
    return isinstance(v, Ptr) and v.obj is t and v.off == 0


def tree_index(prf):
    """remove, replace, remove_all: exactly one operation on the index, with the target and the box it has now"""
    for f, op, name in (("d_remove", "Remove", "remove"), ("d_replace", "Insert", "replace")):
        fn = "TargetTree_::" + name
        g = {}

        def m_op(kind):
            def m(c):
                tr = g["tr"]
                tr.rtree(c)
                tr.calls.hit(c, kind)
                c.ex.oblige("the target itself is the item", item(c.ex, c.st, c.args[3], g["t"]), c.st)
                c.ex.oblige("under the target's current box", same_box(c.ex, c.st, c.args[1], c.args[2]), c.st)
                return None
            return m
        models = [(RT + r"Insert\(double", m_op("Insert"), None), (RT + r"Remove\(double", m_op("Remove"), None), (RT + r"RemoveAll\(\)", m_op("RemoveAll"), None)]
        w = W("tracker", [f], stub=[m[0] for m in models], models=models)
        ex, st = w.ex()
        tr = g["tr"] = Tree(w, ex, st)
        t = g["t"] = boxed(w, ex, st)
        tr.obj.readonly = True
        _, st = ex.call(f, [Ptr(tr.obj, 0), Ptr(t, 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::TargetTree_::" + name)
        tr.calls.prove(prf, fn, "exactly one %s of the index, nothing else" % op, [op], ex.facts, [])
    fn = "TargetTree_::remove_all"
    g = {}

    def m_all(c):
        g["tr"].rtree(c)
        g["tr"].calls.hit(c, "RemoveAll")
        return None
    pat = RT + r"RemoveAll\(\)"
    w = W("tracker", ["d_remove_all"], stub=[pat], models=[(pat, m_all, None)])
    ex, st = w.ex()
    tr = g["tr"] = Tree(w, ex, st)
    tr.obj.readonly = True
    _, st = ex.call("d_remove_all", [Ptr(tr.obj, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::TargetTree_::remove_all")
    tr.calls.prove(prf, fn, "the index is emptied, the list of targets is not touched", ["RemoveAll"], ex.facts, [])


def tree_new(prf):
    """new_target: a fresh object, the next id, listed once and indexed once under its own box"""
    fn = "TargetTree_::new_target"
    g = {"pushed": [], "copied": []}

    def m_pdf(c):
        ex, st = c.ex, c.st
        dst, src = c.args
        if not same_ptr(c, src, g["p"]):
            raise Unsupported("copy of another mixture")
        for k in range(4):
            ex.store(dst.plus(w.o("pdf_aabbox") + 8 * k), DBL, ex.load(src.plus(w.o("pdf_aabbox") + 8 * k), DBL, st), st)
        for k in range(8):
            ex.store(dst.plus(w.o("pdf_bbox") + 8 * k), DBL, ex.load(src.plus(w.o("pdf_bbox") + 8 * k), DBL, st), st)
        g["copied"].append(dst)
        g["tr"].calls.hit(c, "mixture")
        return None

    def m_push(c):
        v = c.ex.load(c.args[1], PTR, c.st)
        if not same_ptr(c, c.args[0], g["tr"].obj, w.o("tree_targets")):
            raise Unsupported("another list")
        g["pushed"].append(v)
        g["tr"].calls.hit(c, "list")
        return NULL

    def m_insert(c):
        ex, st = c.ex, c.st
        tr = g["tr"]
        tr.rtree(c)
        v = ex.load(c.args[3], PTR, st)
        tr.calls.hit(c, "Insert")
        g["item"] = v
        ex.oblige("indexed under the target's own box", same_box(ex, st, c.args[1], c.args[2]), st)
        return None
    pats = [(r"^lmb::GM<4, 10>::GM\(lmb::GM<4, 10>( const)?&&?\)", m_pdf, "copying a mixture copies its boxes (and components)"), (VT + r"(push_back|emplace_back)", m_push, "std::vector::push_back appends one element"), (RT + r"Insert\(double", m_insert, None)]
    w = W("tracker", ["d_new_target"], stub=[p[0] for p in pats], models=pats)
    ex, st = w.ex()
    tr = g["tr"] = Tree(w, ex, st)
    ob = w.o("pdf_aabbox")
    p = g["p"] = ex.new_obj(st, "p", w.size("pdf"), lazy=True, readonly=True, init=lambda off, ty: T.sym("box%d" % ((off - ob) // 8), "R") if ob <= off < ob + 32 else T.sym("bb%d" % off, "R") if w.o("pdf_bbox") <= off < w.o("pdf_bbox") + 64 else None)
    r, st = ex.call("d_new_target", [Ptr(tr.obj, 0), T.sym("r", "R"), Ptr(p, 0), T.sym("t0", "R")], st)
    prf.take(ex, fn)
    prf.function("lmb::TargetTree_::new_target")
    prf.function("lmb::Target_::Target_")
    ok = isinstance(r, Ptr) and r.off == 0 and r.obj.name.startswith("heap")
    prf.prove(fn, "returns a new object", ok, ex.facts, st.pc)
    prf.prove(fn, "listed exactly once", len(g["pushed"]) == 1 and ok and isinstance(g["pushed"][0], Ptr) and g["pushed"][0].obj is r.obj and g["pushed"][0].off == 0, ex.facts, st.pc)
    tr.calls.log.sort(key=lambda x: x[0])
    tr.calls.prove(prf, fn, "copied, listed and indexed once", ["Insert", "list", "mixture"], ex.facts, [])
    prf.prove(fn, "indexed as itself", ok and isinstance(g["item"], Ptr) and g["item"].obj is r.obj and g["item"].off == 0, ex.facts, st.pc)
    prf.prove(fn, "its mixture is the one given", len(g["copied"]) == 1 and ok and g["copied"][0].obj is r.obj and g["copied"][0].off == w.o("t_pdf"), ex.facts, st.pc)
    L = lambda k, ty: ex.load(r.plus(w.o(k)), ty, st)
    idc = T.sym("id_counter", "I", 0)
    prf.prove(fn, "id is the counter", T.eq(L("t_id", I32), idc), ex.facts, st.pc)
    now = ex.load(Ptr(tr.obj, w.o("tree_idc")), I32, st)
    prf.prove(fn, "counter goes on by one", T.eq(now, T.add(idc, 1)), ex.facts, st.pc)
    old = T.sym("old", "I", 0)
    prf.prove(fn, "id differs from every earlier one and stays below the counter (earlier ids are below it)", T.and_(T.ne(L("t_id", I32), old), T.lt(L("t_id", I32), now), T.lt(old, now)), ex.facts + [T.le(0, old), T.lt(old, idc)], st.pc)
    prf.prove(fn, "existence probability is the one given", T.eq(L("t_r", DBL), T.sym("r", "R")), ex.facts, st.pc)
    prf.prove(fn, "time of birth is the one given", T.eq(L("t_t0", DBL), T.sym("t0", "R")), ex.facts, st.pc)
    pp = L("t_params", PTR)
    prf.prove(fn, "parameters are the tree's", isinstance(pp, Ptr) and pp.obj is tr.par and pp.off == 0, ex.facts, st.pc)


def tree_erase(prf):
    """erase: taken off the list by value, then destroyed, once"""
    fn = "TargetTree_::erase"
    g = {"log": Calls()}

    def m_rm(c):
        a, b, v = c.args
        tr = g["tr"]
        ok = same_ptr(c, a, tr.ptrs) and isinstance(b, Ptr) and b.obj is tr.ptrs and T.eq(b.off, T.scale(8, tr.N)) is True and item(c.ex, c.st, v, g["t"])
        c.ex.oblige("the whole list is searched for the target", ok, c.st)
        g["log"].hit(c, "remove")
        m = T.sym("m", "I", 0)
        c.ex.fact(T.and_(T.le(0, m), T.le(m, tr.N)))
        return Ptr(tr.ptrs, T.scale(8, m))

    def m_er(c):
        v, a, b = c.args
        tr = g["tr"]
        ok = same_ptr(c, v, tr.obj, w.o("tree_targets")) and isinstance(a, Ptr) and a.obj is tr.ptrs and a.off is T.scale(8, T.sym("m", "I", 0)) and isinstance(b, Ptr) and b.obj is tr.ptrs and T.eq(b.off, T.scale(8, tr.N)) is True
        c.ex.oblige("what std::remove left over is cut off", ok, c.st)
        g["log"].hit(c, "erase")
        return a

    def m_dtor(c):
        c.ex.oblige("the target is destroyed", same_ptr(c, c.args[0], g["t"]), c.st)
        g["log"].hit(c, "destroy")
        return None
    pats = [(r"std::remove<", m_rm, "std::remove moves the other elements to the front"), (VT + r"erase\(", m_er, "std::vector::erase"), (r"^lmb::Target_<lmb::GM<4, 10>>::~Target_", m_dtor, None)]
    w = W("tracker", ["d_erase"], stub=[p[0] for p in pats], models=pats)
    ex, st = w.ex()
    tr = g["tr"] = Tree(w, ex, st)
    t = g["t"] = ex.new_obj(st, "t", w.size("t"), lazy=True)
    _, st = ex.call("d_erase", [Ptr(tr.obj, 0), Ptr(t, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::TargetTree_::erase")
    g["log"].prove(prf, fn, "taken off the list, then destroyed, once", ["remove", "erase", "destroy"], ex.facts, [])
    prf.prove(fn, "its memory is released", st.os(t).freed is True, ex.facts, st.pc)


def tree_query(prf):
    """query: one search of the index with the given box; every entry found is appended to the result"""
    CB = r"rtree_callback<lmb::Target_<lmb::GM<4, 10>>"
    for f, point in (("d_query", False), ("d_query_point", True)):
        fn = "TargetTree_::query(%s)" % ("point" if point else "box")
        g = {"n": Calls()}

        def m_search(c):
            ex, st = c.ex, c.st
            g["tr"].rtree(c)
            g["n"].hit(c, "search")
            lo, hi, cb, res = c.args[1:5]
            if point:
                ok = T.and_(*[T.eq(ex.load(p.plus(8 * k), DBL, st), T.sym("box%d" % k, "R")) for p in (lo, hi) for k in range(2)])
            else:
                ok = same_box(ex, st, lo, hi)
            ex.oblige("the region asked for is searched", ok, st)
            g["cb"] = cb
            g["res"] = res
            # contract of the search: the callback has been called for every entry that touches the region
            a = Obj("found", None, kind="array", stride=8, length=T.sym("nf", "I", 0))
            a.meta["fields"] = [(0, 8, PTR)]
            st.wos(a)
            for k, o in ((0, 0), (8, T.scale(8, T.sym("nf", "I", 0))), (16, T.scale(8, T.sym("nf", "I", 0)))):
                ex.store(res.plus(k), PTR, Ptr(a, o), st)
            g["found"] = a
            return T.sym("nf", "I", 0)
        pats = [(RT + r"Search\(double", m_search, "RTree::Search calls the callback once for every stored entry that touches the region (C01)")]
        w = W("tracker", [f], stub=[pats[0][0], CB], models=pats)
        ex, st = w.ex()
        tr = g["tr"] = Tree(w, ex, st)
        tr.obj.readonly = True
        b = ex.new_obj(st, "box", 32, lazy=True, readonly=True, init=lambda off, ty: T.sym("box%d" % (off // 8), "R"))
        out = ex.new_obj(st, "out", 24)
        _, st = ex.call(f, [Ptr(tr.obj, 0), Ptr(b, 0), Ptr(out, 0)], st)
        prf.take(ex, fn)
        prf.function("lmb::" + fn)
        g["n"].prove(prf, fn, "one search", ["search"], ex.facts, [])
        prf.prove(fn, "the callback is the one that appends", re.search(CB, ex.m.dem.get(g["cb"].name, "") if hasattr(ex.m, "dem") else str(g["cb"])) is not None, ex.facts, st.pc)
        v = ex.load(Ptr(out, 0), PTR, st)
        prf.prove(fn, "the result is what the search appended to", isinstance(v, Ptr) and v.obj is g["found"] and v.off == 0, ex.facts, st.pc)
    fn = "rtree_callback"
    g = {"n": Calls()}

    def m_push(c):
        g["n"].hit(c, "append")
        c.ex.oblige("appends the entry to the result", T.and_(same_ptr(c, c.args[0], g["res"]), item(c.ex, c.st, c.args[1], g["t"])), c.st)
        return NULL
    pat = VT + r"(push_back|emplace_back)"
    w = W("tracker", ["d_callback"], stub=[pat], models=[(pat, m_push, "std::vector::push_back appends one element")])
    ex, st = w.ex()
    t = g["t"] = ex.new_obj(st, "t", w.size("t"), lazy=True, readonly=True)
    res = g["res"] = ex.new_obj(st, "result", 24, lazy=True)
    r, st = ex.call("d_callback", [Ptr(t, 0), Ptr(res, 0)], st)
    prf.take(ex, fn)
    prf.function("lmb::rtree_callback")
    g["n"].prove(prf, fn, "appends once", ["append"], ex.facts, [])
    prf.prove(fn, "goes on searching", asbool(r), ex.facts, st.pc)
