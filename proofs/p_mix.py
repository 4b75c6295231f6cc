"""C13: reduction of mixtures (GM): prune, sums of mixtures, join"""
from .lib import *
from .p_target import index_of, counter
from vc.exec import asbool, asint
from vc.loops import Tmpl
from vc import smt

Z, ONE = Fraction(0), Fraction(1)


def it_ptr(ex, st, a):
    """an iterator argument: the pointer itself, or a structure that holds it"""
    if isinstance(a, Ptr) and a.obj is not None and a.obj.kind == "array":
        return a
    if isinstance(a, Ptr):
        return ex.load(a, PTR, st)
    if isinstance(a, tuple) and len(a) == 1:
        return it_ptr(ex, st, a[0])
    raise Unsupported("iterator %s" % (a,))


def rearrange(ex, st, arr, pi, lo, hi, old):
    """elements lo..hi := elements pi(lo..hi) of before; `old` is the range that becomes unspecified first"""
    s0 = st.fork(T.and_(T.le(lo, pi(KVAR)), T.lt(pi(KVAR), old), T.le(lo, KVAR), T.lt(KVAR, hi)))
    fields = {}
    for f, sz, ty in arr.meta["fields"]:
        fields[f] = (sz, Tmpl(ex.aread(arr, pi(KVAR), f, ty, sz, s0)))
    s = st.wos(arr)
    s.log = s.log + (("havoc", "!m%d" % next(T._fresh)), ("map", lo, hi, fields))


def all_(n, body, vs=1):
    ks = [T.fresh("a", "I", 0) for _ in range(vs)]
    return smt.forall(tuple(ks), T.implies(T.and_(*[T.and_(T.le(0, k), T.lt(k, n)) for k in ks]), body(*ks)))


def vector_models(w):
    """contracts of vector<component>::reserve and range insert at the end"""
    GV_ = r"std::vector<lmb::Gaussian_<4>, Eigen::aligned_allocator<lmb::Gaussian_<4>>>|std::vector<lmb::Gaussian_<4>, std::allocator<lmb::Gaussian_<4>>>"
    V = r"std::vector<lmb::Gaussian_<4>, [^(]*>::"

    def reserve(c):
        return None                     # the contents stay

    def fresh_array(st, n):
        o = Obj("mem%d" % next(T._fresh), None, kind="array", stride=w.size("g"), length=n)
        ox, oP, ow = w.o("g_x"), w.o("g_P"), w.o("g_w")
        o.meta["fields"] = [(ox + 8 * i, 8, DBL) for i in range(4)] + [(oP + 8 * i, 8, DBL) for i in range(16)] + [(ow, 8, DBL)]
        o.elem = lambda i, f, t: UNDEF
        st.wos(o)
        return o

    def place(ex, st, vec, o, n):
        ex.store(vec, PTR, Ptr(o, 0), st)
        for q in (8, 16):
            ex.store(vec.plus(q), PTR, Ptr(o, T.scale(w.size("g"), n)), st)

    def insert(c):
        ex, st = c.ex, c.st
        vec = c.args[0]
        pos, first, last = [it_ptr(ex, st, a) for a in c.args[1:4]]
        b, e = ex.load(vec, PTR, st), ex.load(vec.plus(8), PTR, st)
        ex.oblige("insertion at the end", T.and_(b.obj is e.obj and pos.obj is e.obj, T.eq(pos.off, e.off)), st)
        if first.obj is not last.obj:
            raise Unsupported("range over two objects")
        sg = w.size("g")
        n = ex.exact_div(T.sub(e.off, b.off), sg)
        k = ex.exact_div(T.sub(last.off, first.off), sg)
        o = fresh_array(st, T.add(n, k))
        ex.memcpy(Ptr(o, 0), b, T.scale(sg, n), st)
        ex.memcpy(Ptr(o, T.scale(sg, n)), first, T.scale(sg, k), st)
        place(ex, st, vec, o, T.add(n, k))
        return None

    def copy(c):
        ex, st = c.ex, c.st
        vec, src = c.args[0], c.args[1]
        b, e = ex.load(src, PTR, st), ex.load(src.plus(8), PTR, st)
        sg = w.size("g")
        n = ex.exact_div(T.sub(e.off, b.off), sg)
        o = fresh_array(st, n)
        ex.memcpy(Ptr(o, 0), b, T.scale(sg, n), st)
        place(ex, st, vec, o, n)
        return None
    return [(V + r"reserve\(", reserve, "std::vector::reserve"), (V + r"(_M_range_insert|insert)<", insert, "std::vector::insert"),
            (V + r"vector\(std::vector<[^()]*const&\)", copy, "std::vector copy")]


class Lib:
    """contracts of std::remove_if and std::sort on a vector of components, at the level of the comparisons the code gives them"""

    def __init__(self, w, case):
        self.w, self.case, self.S = w, case, {}

    def models(self):
        return [(r"\bstd::remove_if<", self.remove_if, "std::remove_if"), (r"\bstd::(stable_)?sort<", self.sort, "std::sort")]

    def range_(self, c, a, b):
        p, q = it_ptr(c.ex, c.st, a), it_ptr(c.ex, c.st, b)
        if p.obj is not q.obj or p.obj.kind != "array":
            raise Unsupported("range over %s and %s" % (p.obj, q.obj))
        return p.obj, index_of(c.ex, p, p.obj), index_of(c.ex, q, p.obj)

    def eval(self, ex, st, fn, args):
        s = st.fork()
        v, s2 = ex.call(fn, args, s)
        return asbool(v)

    def remove_if(self, c):
        ex, st, w, S = c.ex, c.st, self.w, self.S
        arr, lo, n = self.range_(c, c.args[0], c.args[1])
        if lo != 0:
            raise Unsupported("remove_if from the middle")
        fn = w().find(r"^(\w+ )?lmb::GM<4, 10>::prune\(\)::'lambda.*operator\(\)")
        if len(fn) != 1:
            raise Unsupported("predicate of remove_if: %s" % fn)
        env = ex.new_obj(st, "closure", 8)
        ex.store(Ptr(env, 0), PTR, c.args[2], st)
        k = T.fresh("k", "I", 0)
        s0 = st.fork(T.lt(k, n))
        drop = self.eval(ex, s0, fn[0], [Ptr(env, 0), Ptr(arr, T.scale(arr.stride, k))])
        drop = drop if isinstance(drop, Term) else T.mk("lit", (drop,), "B")
        D = lambda i: T.subst(drop, {k: i})
        m = T.sym("kept", "I", 0)
        pi = lambda i: T.app("pi", "I", i)
        rp = lambda i: T.app("rpi", "I", i)
        ex.fact(T.and_(T.le(0, m), T.le(m, n)))
        ex.facts.append(all_(m, lambda i: T.and_(T.le(0, pi(i)), T.lt(pi(i), n), T.not_(D(pi(i))), T.eq(rp(pi(i)), i))))
        ex.facts.append(all_(n, lambda i: T.implies(T.not_(D(i)), T.and_(T.le(0, rp(i)), T.lt(rp(i), m), T.eq(pi(rp(i)), i)))))
        for f in self.case(m):
            ex.fact(f)
        rearrange(ex, st, arr, pi, 0, m, n)
        S.update(drop=D, kept=m, pi=pi, rpi=rp)
        return Ptr(arr, T.scale(arr.stride, m))

    def sort(self, c):
        ex, st, w, S = c.ex, c.st, self.w, self.S
        back = "reverse_iterator" in c.name
        a, b = (c.args[1], c.args[0]) if back else (c.args[0], c.args[1])
        arr, lo, n = self.range_(c, a, b)
        if lo != 0:
            raise Unsupported("sort from the middle")
        if len(c.args) > 2:
            fn = w().find(r"^(\w+ )?lmb::.*::'lambda.*operator\(\).*\(.*, .*\)")
        else:
            fn = ["d_less"]
        if len(fn) != 1:
            raise Unsupported("comparison of sort: %s" % fn)
        t = "s%d" % len([x for x in S if x.startswith("sorted")])
        sg = lambda i: T.app(t + "i", "I", i)
        rs = lambda i: T.app(t + "r", "I", i)
        rearrange(ex, st, arr, sg, 0, n, n)
        p, q = T.fresh("p", "I", 0), T.fresh("q", "I", 0)
        s0 = st.fork(T.and_(T.lt(p, n), T.lt(q, n)))
        less = self.eval(ex, s0, fn[0], ([Ptr(ex.new_obj(s0, "cmp", 8), 0)] if len(c.args) > 2 else []) + [Ptr(arr, T.scale(arr.stride, p)), Ptr(arr, T.scale(arr.stride, q))])
        L = lambda i, j: T.subst(less, {p: i, q: j}) if isinstance(less, Term) else less
        ex.facts.append(all_(n, lambda i: T.and_(T.le(0, sg(i)), T.lt(sg(i), n), T.eq(rs(sg(i)), i), T.le(0, rs(i)), T.lt(rs(i), n), T.eq(sg(rs(i)), i))))
        ex.facts.append(all_(n, lambda i, j: T.implies(T.lt(i, j), T.not_(L(i, j) if back else L(j, i))), 2))
        S["sorted"] = (sg, rs, n)
        return None


def prune(prf):
    """GM::prune"""
    for case in ("more than the maximum is left", "at most the maximum is left"):
        _prune(prf, case)


def _prune(prf, case):
    fn = "GM::prune (%s)" % case
    box = {}
    lib = Lib(lambda: box["w"], lambda m: [T.lt(10, m) if case[0] == "m" else T.and_(T.le(m, 10))])
    w = box["w"] = W("mix", ["d_prune", "d_less"], stub=[m[0] for m in lib.models()], models=lib.models(), also=[r"^(\w+ )?lmb::GM<4, 10>::prune\(\)::'lambda.*operator\(\)"])
    ex, st = w.ex(branch_prune=True)
    par = new_params(w, ex, st)
    m = Mixture(w, ex, st, "m", params=par)
    ex.fact(T.le(1, m.n))
    _, st = ex.call("d_prune", [m.p], st)
    S = lib.S
    if "kept" not in S or "sorted" not in S:
        raise Unsupported("no use of remove_if and sort")
    sg, rs, _ = S["sorted"]
    pi, rpi, kept = S["pi"], S["rpi"], S["kept"]
    src = lambda i: pi(sg(i))
    b, e = m.count(ex, st)
    if b.obj is not m.arr:
        raise Unsupported("components moved elsewhere")
    want = 10 if case[0] == "m" else kept
    tot = T.sum_(T.app("m.w", "R", src(KVAR)), want) if isinstance(want, Term) else T.sumt([T.app("m.w", "R", src(q)) for q in range(want)])
    nonempty = T.lt(Fraction(1e-8), tot)
    s1, s0 = st.fork(nonempty), st.fork(T.not_(nonempty))
    if isinstance(want, Term):
        s1 = s1.fork(T.le(1, want))
    ex.oblige("everything in excess of the maximum goes", T.eq(T.sub(e.off, b.off), T.scale(w.size("g"), want)), s1)
    ex.oblige("empty when the total weight vanishes", T.eq(e.off, b.off), s0 if not isinstance(want, Term) else s0.fork(T.le(1, want)))
    i, si = forall_index(ex, s1, want, "i")
    x, P, wt = m.now(ex, si, i)
    gx, gP, gw = m.g(src(i))
    ex.oblige("a kept component comes from the input", T.and_(T.le(0, src(i)), T.lt(src(i), m.n)), si)
    ex.oblige("mean unchanged", T.and_(*[T.eq(a, c) for a, c in zip(x, gx)]), si)
    ex.oblige("covariance unchanged", T.and_(*meq(P, gP)), si)
    ex.oblige("weight is the input weight over the total kept", T.eq(wt, T.div(gw, tot)), si)
    W_ = lambda k: T.app("m.w", "R", k)
    ex.oblige("not below the weight limit", T.le(T.sym("par.cw_lim", "R"), W_(src(i))), si)
    j, sj = forall_index(ex, si, want, "j")
    ex.oblige("kept once", T.implies(T.eq(src(i), src(j)), T.eq(i, j)), sj)
    ex.oblige("heaviest first", T.implies(T.lt(i, j), T.le(W_(src(j)), W_(src(i)))), sj)
    k, sk = forall_index(ex, si, m.n, "k")
    sk = sk.fork(T.le(T.sym("par.cw_lim", "R"), W_(k)))
    place = rs(rpi(k))
    ex.oblige("a component at or above the limit has a place in the order", T.and_(T.le(0, place), T.lt(place, kept), T.eq(src(place), k)), sk)
    l, sl = forall_index(ex, si, kept, "l")
    ex.oblige("a later place in the order is no heavier", T.implies(T.lt(i, l), T.le(W_(src(l)), W_(src(i)))), sl)
    if isinstance(want, Term):
        ex.oblige("nothing is dropped without need", T.lt(place, want), sk)
    ex.oblige("weights sum to one", T.eq(T.sum_(T.div(W_(src(KVAR)), tot), want) if isinstance(want, Term) else T.sumt([T.div(W_(src(q)), tot) for q in range(want)]), ONE), s1)
    prf.take(ex, fn)
    prf.function("lmb::GM::prune")
    prf.reachable(fn, [f for f in ex.facts if not (isinstance(f, Term) and f.op == "forall")], st.pc)


def sums(prf):
    """operator+=, operator+: the components of both, reduced"""
    for drv, what in (("d_addto", "+="), ("d_add", "+")):
        _sums(prf, drv, what)


def _sums(prf, drv, what):
    fn = "GM::operator%s" % what
    seen = []

    def cut(c):
        seen.append((c.args[0], c.st.fork()))
        return None
    pat = r"lmb::GM<4, 10>::prune\(\)$"
    models = [(pat, cut, "GM::prune")] + vector_models(W("mix", []))
    w = W("mix", [drv], stub=[m[0] for m in models], models=models)
    ex, st = w.ex()
    par = new_params(w, ex, st)
    a = Mixture(w, ex, st, "a", params=par)
    b = Mixture(w, ex, st, "b", params=par)
    args = [a.p, b.p]
    if what == "+":
        out = ex.new_obj(st, "out", w.size("pdf"))
        args.append(Ptr(out, 0))
    _, st = ex.call(drv, args, st)
    if len(seen) != 1:
        raise Unsupported("%d calls of prune" % len(seen))
    p, sp = seen[0]
    c = w.o("pdf_c")
    bb, ee = ex.load(p.plus(c), PTR, sp), ex.load(p.plus(c + 8), PTR, sp)
    tot = T.add(a.n, b.n)
    ex.oblige("all components are there when reducing", T.eq(T.sub(ee.off, bb.off), T.scale(w.size("g"), tot)), sp)
    for name, m, off in (("left", a, 0), ("right", b, a.n)):
        i, si = forall_index(ex, sp, m.n, "i")
        q = Ptr(bb.obj, T.add(bb.off, T.scale(w.size("g"), T.add(off, i))))
        x = [ex.load(q.plus(w.o("g_x") + 8 * k), DBL, si) for k in range(4)]
        P = [[ex.load(q.plus(w.o("g_P") + 8 * (r + 4 * cc)), DBL, si) for cc in range(4)] for r in range(4)]
        gx, gP, gw = m.g(i)
        ex.oblige("%s components: means, covariances, weights" % name, T.and_(T.eq(ex.load(q.plus(w.o("g_w")), DBL, si), gw), *[T.eq(u, v) for u, v in zip(x, gx)], *meq(P, gP)), si)
    prf.take(ex, fn)
    prf.function("lmb::GM::operator" + what)


def join(prf):
    """GM::join: always the heaviest remaining component, until the limit, the maximum or the end"""
    fn = "GM::join"
    S = {"sorted": None, "phase": 1, "top": None, "n": 0}
    Q = r"std::priority_queue<std::pair<double, unsigned int>, [^()]*>::"
    cw, sz = lambda j, i: T.app("c.w", "R", j, i), lambda j: T.app("c.n", "I", j)
    hw = lambda j: T.app("w", "R", j)

    def q_top(c):
        ex, st = c.ex, c.st
        ex.oblige("top of a queue that is not empty", T.not_(S["E"]), st)
        if S["top"] is None:
            js, kv = T.fresh("top", "I", 0), T.fresh("key", "R")
            get = lambda a, k, s=st: ex.load(Ptr(S[a], T.scale(8, k)), I64 if a == "inq" else DBL, s)
            sj = st.fork(T.lt(js, M))
            ex.fact(T.and_(T.lt(js, M), T.eq(get("inq", js, sj), 1), T.eq(get("key", js, sj), kv)))
            k = T.fresh("k", "I", 0)
            sk = st.fork(T.lt(k, M))
            ex.facts.append(smt.forall((k,), T.implies(T.and_(T.lt(k, M), T.eq(get("inq", k, sk), 1)), T.le(get("key", k, sk), kv))))
            cell = ex.new_obj(st, "top", 16)
            ex.store(Ptr(cell, 0), DBL, kv, st)
            ex.store(Ptr(cell, 8), I32, js, st)
            S["top"] = (cell, js, kv)
            S["tops"] = S.get("tops", 0) + 1
        return Ptr(S["top"][0], 0)

    def q_pop(c):
        ex, st = c.ex, c.st
        if S["top"] is None:
            raise Unsupported("pop without top")
        cell, js, _ = S["top"]
        ex.store(Ptr(S["inq"], T.scale(8, js)), I64, 0, st)
        for o, t in ((0, DBL), (8, I32)):
            ex.store(Ptr(cell, o), t, UNDEF, st)
        ex.store(Ptr(S["g"], 16), I64, T.add(ex.load(Ptr(S["g"], 16), I64, st), 1), st)
        return None

    def q_emplace(c):
        ex, st = c.ex, c.st
        v, j = ex.load(c.args[1], DBL, st), ex.load(c.args[2], I32, st)
        ex.oblige("queued once", T.and_(T.lt(j, M), T.eq(ex.load(Ptr(S["inq"], T.scale(8, j)), I64, st), 0)), st)
        ex.store(Ptr(S["inq"], T.scale(8, j)), I64, 1, st)
        ex.store(Ptr(S["key"], T.scale(8, j)), DBL, v, st)
        return None

    def q_empty(c):
        ex, st = c.ex, c.st
        E, k, some = T.fresh("empty", "B"), T.fresh("k", "I", 0), T.fresh("some", "I", 0)
        inq = lambda i: T.eq(ex.load(Ptr(S["inq"], T.scale(8, i)), I64, st.fork(T.lt(i, M))), 1)
        ex.facts.append(smt.forall((k,), T.implies(T.and_(E, T.lt(k, M)), T.not_(inq(k)))))
        ex.fact(T.implies(T.not_(E), T.and_(T.lt(some, M), inq(some))))
        S["E"] = E
        return E

    def q_new(c):
        return None

    def v_new(c):
        ex, st = c.ex, c.st
        ex.oblige("one position per hypothesis", T.eq(asint(c.args[1]), M), st)
        a = Obj("wi", None, kind="array", stride=4, length=M)
        a.elem = lambda i, f, ty: 0
        a.meta["fields"] = [(0, 4, I32)]
        st.wos(a)
        S["wi"] = a
        ex.store(c.args[0], PTR, Ptr(a, 0), st)
        for o in (8, 16):
            ex.store(c.args[0].plus(o), PTR, Ptr(a, T.scale(4, M)), st)
        return None

    def m_sort(c):
        ex, st = c.ex, c.st
        back = "reverse_iterator" in c.name
        a, b = (c.args[1], c.args[0]) if back else (c.args[0], c.args[1])
        p, q = it_ptr(ex, st, a), it_ptr(ex, st, b)
        if p.obj is not q.obj or "of" not in p.obj.meta or len(c.args) > 2 or S["phase"] != 1:
            raise Unsupported("sort of something else")
        j = p.obj.meta["of"]
        ex.oblige("all of the mixture's components are sorted", T.and_(T.eq(p.off, 0), T.eq(q.off, T.scale(w.size("g"), sz(j)))), st)
        S["sorted"] = j
        ex.store(Ptr(S["srt"], T.scale(8, j)), I64, 1, st)
        i, l = T.fresh("i", "I", 0), T.fresh("l", "I", 0)
        s0 = st.fork(T.and_(T.lt(i, sz(j)), T.lt(l, sz(j))))
        less, _ = ex.call("d_less", [Ptr(p.obj, T.scale(p.obj.stride, x)) for x in (i, l)], s0)
        S["less"] = asbool(less), j, i, l, back
        return None

    def comp(j):
        o = S.setdefault("objs", {}).get(j.id if isinstance(j, Term) else j)
        if o is None:
            o = Obj("c(%s)" % T.show(j), None, kind="array", stride=w.size("g"), length=sz(j), readonly=True)

            def elem(i, f, ty):
                nm = "c" if S["phase"] == 2 or S["sorted"] is j else "u"
                ox, oP, ow = w.o("g_x"), w.o("g_P"), w.o("g_w")
                if f == ow:
                    return T.app(nm + ".w", "R", j, i)
                for b, k, t in ((ox, 4, "x"), (oP, 16, "P")):
                    if b <= f < b + 8 * k:
                        q = (f - b) // 8
                        if t == "P":
                            r, cc = q % 4, q // 4
                            q = min(r, cc) * 4 + max(r, cc)
                        return T.app("%s.%s%d" % (nm, t, q), "R", j, i)
                return None
            o.elem = elem
            o.meta["of"] = j
            o.meta["fields"] = []
            S["objs"][j.id if isinstance(j, Term) else j] = o
        return o

    def m_emplace_back(c):
        ex, st = c.ex, c.st
        ex.oblige("appended to the result", c.args[0].obj is out.obj and T.eq(c.args[0].off, w.o("pdf_c")), st)
        if S["top"] is None:
            raise Unsupported("appended before looking at the queue")
        x = [ex.load(c.args[1].plus(8 * k), DBL, st) for k in range(4)]
        P = [ex.load(c.args[2].plus(8 * k), DBL, st) for k in range(16)]
        v = ex.load(c.args[3], DBL, st)
        js, kv = S["top"][1:]
        i = S["pos"](js)
        ex.oblige("next component of that mixture: mean", T.and_(*[T.eq(a, T.app("c.x%d" % q, "R", js, i)) for q, a in enumerate(x)]), st)
        ex.oblige("next component of that mixture: covariance", T.and_(*[T.eq(P[r + 4 * cc], T.app("c.P%d" % (min(r, cc) * 4 + max(r, cc)), "R", js, i)) for r in range(4) for cc in range(4)]), st)
        ex.oblige("its weight: hypothesis weight times component weight", T.eq(v, T.mul(hw(js), cw(js, i))), st)
        g = Ptr(S["g"], 0)
        ex.store(g, I64, T.add(ex.load(g, I64, st), 1), st)
        ex.store(g.plus(8), DBL, T.add(ex.load(g.plus(8), DBL, st), v), st)
        return None

    def m_normalize(c):
        c.ex.oblige("the result is normalised", c.args[0].obj is out.obj and T.eq(c.args[0].off, 0), c.st)
        g = Ptr(S["g"], 24)
        c.ex.store(g, I64, T.add(c.ex.load(g, I64, c.st), 1), c.st)
        return None

    def m_clear(c):
        g = Ptr(S["g"], 32)
        c.ex.store(g, I64, T.add(c.ex.load(g, I64, c.st), 1), c.st)
        return None

    def main_loop(ex, fr, h, body, st, phis):
        if S["phase"] != 1:
            raise Unsupported("another loop")
        env0 = dict(fr.env)
        g = Ptr(S["g"], 0)
        k, sk = forall_index(ex, st, M, "k")
        ld = lambda a, j, s: ex.load(Ptr(S[a], T.scale(4 if a == "wi" else 8, j)), {"wi": I32, "key": DBL}.get(a, I64), s)
        ex.oblige("every mixture is sorted", T.eq(ld("srt", k, sk), 1), sk)
        ex.oblige("the old components are gone, nothing is there yet", T.and_(T.eq(ex.load(g.plus(32), I64, st), 1), T.eq(ex.load(g, I64, st), 0)), st)
        if "less" not in S:
            raise Unsupported("no sorting")
        less, j_, i_, l_, back = S["less"]
        bj, bi, bl = (T.fresh(x, "I", 0) for x in "jil")
        L = lambda a, b: T.subst(less, {j_: bj, i_: a, l_: b})
        ex.facts.append(smt.forall((bj, bi, bl), T.implies(T.and_(T.lt(bj, M), T.lt(bi, bl), T.lt(bl, sz(bj))), T.not_(L(bi, bl) if back else L(bl, bi)))))

        def inv(wi, inq, key, j):
            return T.and_(T.le(0, wi), T.le(wi, sz(j)), T.eq(inq, T.ite(T.lt(wi, sz(j)), 1, 0)), T.implies(T.lt(wi, sz(j)), T.eq(key, T.mul(hw(j), cw(j, wi)))))
        ex.oblige("the next component of every mixture is queued (at first)", inv(ld("wi", k, sk), ld("inq", k, sk), ld("key", k, sk), k), sk)
        S["phase"] = 2
        S["objs"] = {}
        G = st.fork()
        ph, ints, reals = {}, [], []
        kept, tot = T.fresh("kept", "I", 0), T.fresh("sum", "R")
        for p, v in phis.items():
            if isinstance(v, Fraction) or isinstance(v, Term) and v.sort == "R":
                ex.oblige("sum of the weights kept (at first)", T.eq(v, Z), st)
                ph[p] = tot
            else:
                ex.oblige("number of components kept (at first)", T.eq(asint(v), 0), st)
                ph[p] = kept
        tag = next(T._fresh)
        wi = lambda i: T.app("wi%d" % tag, "I", i)
        S["pos"] = wi
        for a, f in (("wi", wi), ("inq", lambda i: T.ite(T.lt(wi(i), sz(i)), 1, 0)), ("key", lambda i: T.mul(hw(i), cw(i, wi(i))))):
            s = G.wos(S[a])
            s.log = s.log + (("map", 0, M, {0: (4 if a == "wi" else 8, Tmpl(f(KVAR)))}),)
        bk = T.fresh("k", "I", 0)
        ex.facts.append(smt.forall((bk,), T.implies(T.lt(bk, M), T.and_(T.le(0, wi(bk)), T.le(wi(bk), sz(bk))))))
        ex.store(g, I64, kept, G)
        ex.store(g.plus(8), DBL, tot, G)
        S["top"] = None
        trash = set()
        mark = len(ex.obls), len(ex.facts)
        for rnd in range(4):
            fr.env = dict(env0)
            X = G.fork()
            for o in trash:
                s = X.wos(o)
                s.cells, s.ranges = {}, (("undef", 0, None),)
            X0 = X.fork()
            S["top"], S["tops"] = None, 0
            outs = ex.run_dag(fr, body, {h: [(X, dict(ph))]}, h)
            if not outs["back"]:
                raise Unsupported("the loop does not come back")
            B, bph = ex._merge(outs["back"])
            from vc.loops import changed_cells
            cells, arrays, tr = changed_cells(ex, X0, B, list(G.mem))
            new = ({o for o, _, _ in cells if o is not S["g"]} | tr) - trash
            bad = [o for o in arrays if o not in (S["wi"], S["inq"], S["key"])]
            if bad:
                raise Unsupported("changed in the loop: %s" % [o.name for o in bad])
            if S["g"] in tr:
                raise Unsupported("ghost")
            if not new:
                break
            if any(o is out.obj for o in new):
                ex.oblige("nothing else of the result changes in the loop", False, B)
            trash |= new
            del ex.obls[mark[0]:]
            del ex.facts[mark[1]:]
        else:
            raise Unsupported("loop does not settle")
        if S["top"] is None or S["tops"] != 1:
            raise Unsupported("the queue is looked at %s times" % S["tops"])
        _, js, kv = S["top"]
        # another round
        ex.oblige("one component is appended per round", T.eq(ex.load(g, I64, B), T.add(kept, 1)), B)
        ex.oblige("it is not below the limit: its share of the sum, itself included", T.le(T.sym("par.cw_lim", "R"), T.div(kv, T.add(tot, kv))), B)
        for p in ph:
            ex.oblige("count and sum go on", T.eq(bph[p], T.add(kept, 1) if ph[p] is kept else T.add(tot, kv)), B)
        ex.oblige("nothing that is left is heavier", T.implies(T.lt(wi(k), sz(k)), T.le(T.mul(hw(k), cw(k, wi(k))), kv)), B.fork(T.lt(k, M)))
        k2, sB = forall_index(ex, B, M, "k")
        ex.oblige("that mixture moves on by one", T.eq(ld("wi", k2, sB), T.add(wi(k2), T.ite(T.eq(k2, js), 1, 0))), sB)
        ex.oblige("the next component of every mixture is queued", inv(ld("wi", k2, sB), ld("inq", k2, sB), ld("key", k2, sB), k2), sB)
        ex.oblige("what comes up next in that mixture is no heavier", T.implies(T.and_(T.lt(T.add(wi(js), 1), sz(js)), T.le(0, hw(js))),
                                                                             T.le(T.mul(hw(js), cw(js, T.add(wi(js), 1))), kv)), B)
        # the end
        res = []
        none_left = smt.forall((bk,), T.implies(T.lt(bk, M), T.not_(T.lt(wi(bk), sz(bk)))))
        for tgt, l in outs["exits"].items():
            for s, p in l:
                ex.oblige("the end appends nothing", T.eq(ex.load(g, I64, s), kept), s)
                kk, sk2 = forall_index(ex, s, M, "k")
                below = T.lt(T.div(kv, T.add(tot, kv)), T.sym("par.cw_lim", "R"))
                ex.oblige("ends at the maximum, when nothing is left, or below the limit", T.or_(T.le(10, kept), T.not_(T.lt(wi(kk), sz(kk))), below), sk2)
                res.append((tgt, s, p))
        ex.oblige("the maximum is never exceeded", T.lt(kept, 10), B)
        S["back"] = B
        return res

    GVEC = r"std::vector<lmb::Gaussian_<4>, [^()]*>::"
    UVEC = r"^std::vector<unsigned int, std::allocator<unsigned int>>::"
    models = [(Q + "top\\(", q_top, "std::priority_queue"), (Q + "pop\\(", q_pop, None), (Q + "emplace<", q_emplace, None), (Q + "empty\\(", q_empty, None),
              (Q + "priority_queue<", q_new, None), (Q + "~priority_queue", lambda c: None, None),
              (UVEC + "vector\\(unsigned long", v_new, "std::vector"), (UVEC + "~vector", lambda c: None, None),
              (r"\bstd::sort<", m_sort, "std::sort"), (GVEC + "(emplace_back|_M_realloc_insert)<", m_emplace_back, "std::vector::emplace_back"), (GVEC + "clear\\(", m_clear, None),
              (r"lmb::GM<4, 10>::normalize\(", m_normalize, "GM::normalize: its own part")]
    w = W("mix", ["d_join", "d_less"], stub=[m[0] for m in models], models=models)
    ex, st = w.ex(branch_prune=True)
    M = T.sym("M", "I", 0)
    ex.fact(T.lt(M, 2 ** 32))
    par = new_params(w, ex, st)
    out_m = Mixture(w, ex, st, "out", params=par)
    out = out_m.p
    arr = Obj("pdfs", None, kind="array", stride=w.size("pdf"), length=M, readonly=True)

    def pe(i, f, ty):
        c = w.o("pdf_c")
        if f == c:
            return Ptr(comp(i), 0)
        if f in (c + 8, c + 16):
            return Ptr(comp(i), T.scale(w.size("g"), sz(i)))
        return None
    arr.elem = pe
    arr.meta["fields"] = []
    st.wos(arr)
    vec = ex.new_obj(st, "pdfs.vec", 24)
    for o, v in ((0, 0), (8, M), (16, M)):
        ex.store(Ptr(vec, o), PTR, Ptr(arr, T.scale(w.size("pdf"), v)), st)
    warr = Obj("w", None, kind="array", stride=8, length=M, readonly=True)
    warr.elem = lambda i, f, ty: hw(i)
    warr.meta["fields"] = [(0, 8, DBL)]
    st.wos(warr)
    row = ex.new_obj(st, "row", 24)
    ex.store(Ptr(row, 0), PTR, Ptr(warr, 0), st)
    ex.store(Ptr(row, 8), I64, M, st)
    S["g"] = ex.new_obj(st, "ghost", 64)
    for o in range(0, 64, 8):
        ex.store(Ptr(S["g"], o), DBL if o == 8 else I64, Z if o == 8 else 0, st)
    for nm in ("inq", "srt"):
        S[nm] = counter(ex, st, nm)
    S["key"] = Obj("key", None, kind="array", stride=8, length=M)
    S["key"].elem = lambda i, f, ty: T.app("key0", "R", i)
    S["key"].meta["fields"] = [(0, 8, DBL)]
    st.wos(S["key"])
    k0 = T.fresh("k", "I", 0)
    ex.facts.append(smt.forall((k0,), T.le(0, sz(k0))))
    ex.loop_specs = {(r"GM<4, 10>::join", 1): main_loop, (r"^d_join", 1): main_loop}
    _, st = ex.call("d_join", [out, Ptr(row, 0), Ptr(vec, 0)], st)
    ex.oblige("normalised once, at the end", T.eq(ex.load(Ptr(S["g"], 24), I64, st), 1), st)
    if S["phase"] != 2:
        raise Unsupported("no merging loop")
    prf.take(ex, fn)
    prf.function("lmb::GM::join")
    plain = [f for f in ex.facts if not (isinstance(f, Term) and f.op == "forall")]
    prf.reachable(fn, plain, st.pc)
    prf.reachable(fn + " (another round)", plain, S["back"].pc)
