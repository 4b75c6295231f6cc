"""C04: connected components (connectedcomponents.hpp)"""
from .lib import *
from .p_target import counter
from vc.loops import Tmpl, changed_cells, solve_count
from vc.exec import asbool
from vc import smt

NODE = 16
SET = r"^(void |unsigned long )?std::set<Node\*, std::less<Node\*>, std::allocator<Node\*>>::"
MAP = r"std::map<Node\*, std::set<Node\*, std::less<Node\*>, std::allocator<Node\*>>, [^()]*>::"
VEC = r"std::vector<Node\*, std::allocator<Node\*>>::"


def fa(*body, n=1):
    """for all node numbers (any integers)"""
    vs = [T.fresh("s", "I") for _ in range(n)]
    return smt.forall(tuple(vs), T.and_(*[b(*vs) for b in body]))


def iff(a, b):
    return T.and_(T.implies(a, b), T.implies(b, a))


class World:
    """a ConnectedComponents object: nodes 0..V-1, P(k): node k has an entry, A(k, s): s is in the set of node k"""

    def __init__(self):
        self.S = {"cur": None, "vecs": [], "erased": None}

    def start(self, w, ex, st):
        S = self.S
        self.V = V = T.sym("V", "I", 0)
        self.pool = Obj("nodes.pool", None, kind="array", stride=NODE, length=V, readonly=True)
        self.pool.elem = lambda i, f, ty: None
        self.pool.meta["fields"] = []
        st.wos(self.pool)
        self.sets = Obj("sets", None, kind="array", stride=48, length=V, readonly=True)
        self.sets.elem = lambda i, f, ty: None
        self.sets.meta["fields"] = []
        st.wos(self.sets)
        self.cc = ex.new_obj(st, "cc", 48)
        self.P = lambda k: T.app("P", "B", k)
        self.A = lambda k, s: T.app("A", "B", k, s)
        self.root, self.E = T.sym("root", "I", 0), T.sym("empty", "B")
        for nm in ("gone", "cut"):                 # keys erased from the map; members erased from the set of the current key
            a = Obj(nm, None, kind="array", stride=8, length=V)
            a.elem = lambda i, f, ty: 0
            a.meta["fields"] = [(0, 8, I64)]
            st.wos(a)
            S[nm] = a
        return self

    def flag(self, ex, nm, i, st):
        return T.eq(ex.aread(self.S[nm], i, 0, I64, 8, st), 1)

    def node(self, k):
        return Ptr(self.pool, T.scale(NODE, k))

    def index(self, ex, p, st):
        """number of the node a pointer points to"""
        if not (isinstance(p, Ptr) and p.obj is self.pool):
            raise Unsupported("not a node: %s" % (p,))
        i, f = ex.split(p.obj, p.off)
        if f != 0:
            raise Unsupported("inside a node")
        return i

    def key(self, c, a):
        return self.index(c.ex, c.ex.load(a, PTR, c.st), c.st)

    def set_of(self, c, p):
        if not (isinstance(p, Ptr) and p.obj is self.sets):
            raise Unsupported("another set")
        i, f = c.ex.split(p.obj, p.off)
        return i, f

    def mine(self, c):
        if not (isinstance(c.args[0], Ptr) and c.args[0].obj is self.cc):
            raise Unsupported("another map")

    def present(self, ex, k, st):
        return T.and_(self.P(k), T.not_(self.flag(ex, "gone", k, st)))

    # contracts of the containers
    def m_empty(self, c):
        self.mine(c)
        return self.E

    def m_begin(self, c):
        self.mine(c)
        ex, st = c.ex, c.st
        ex.oblige("first entry of a map that has one", T.not_(self.E), st)
        n = ex.new_obj(st, "first", 96)
        ex.store(Ptr(n, 32), PTR, self.node(self.root), st)
        return Ptr(n, 0)

    def m_index(self, c):
        self.mine(c)
        ex, st = c.ex, c.st
        k = self.key(c, c.args[1])
        ex.oblige("an entry that is there", self.present(ex, k, st), st)
        if self.S["cur"] is None:
            self.S["cur"] = k
        ex.oblige("the entry of the node being visited", T.eq(self.S["cur"], k), st)
        return Ptr(self.sets, T.scale(48, k))

    def m_erase(self, c):
        self.mine(c)
        ex, st = c.ex, c.st
        k = self.key(c, c.args[1])
        ex.oblige("erases an entry that is there", self.present(ex, k, st), st)
        ex.store(Ptr(self.S["gone"], T.scale(8, k)), I64, 1, st)
        return 1

    def s_erase(self, c):
        ex, st = c.ex, c.st
        i, f = self.set_of(c, c.args[0])
        s = self.key(c, c.args[1])
        if self.S["erased"] is None:
            ex.store(Ptr(self.S["cut"], T.scale(8, s)), I64, 1, st)
        else:
            self.S["erased"].append(s)
        return 0

    def s_begin(self, c):
        return c.args[0].plus(8)

    def s_end(self, c):
        return c.args[0].plus(16)

    def v_push(self, c):
        ex, st = c.ex, c.st
        v = c.args[0]
        k = ex.load(c.args[1], PTR, st)
        self.index(ex, k, st)
        b, e = ex.load(v, PTR, st), ex.load(v.plus(8), PTR, st)
        if b.obj is None:
            b = e = Ptr(self.array(st, "stack"), 0)
            ex.store(v, PTR, b, st)
        ex.store(e, PTR, k, st)
        ex.store(v.plus(8), PTR, e.plus(8), st)
        ex.store(v.plus(16), PTR, e.plus(8), st)
        if not any(x.obj is v.obj and T.eq(x.off, v.off) is True for x in self.S["vecs"]):
            self.S["vecs"].append(v)
        return None

    def array(self, st, nm):
        a = Obj(nm, None, kind="array", stride=8, length=None)
        a.elem = lambda i, f, ty: UNDEF
        a.meta["fields"] = [(0, 8, PTR)]
        st.wos(a)
        return a

    def v_insert(self, c):
        """nodes.insert(end, set.begin(), set.end()): the members of the set, each once"""
        ex, st = c.ex, c.st
        a = c.args[1:] if c.args[0].obj is not None and len(c.args) == 5 else c.args
        v, pos, first, last = a[:4]
        (i, f), (j, g) = self.set_of(c, first), self.set_of(c, last)
        b, e = ex.load(v, PTR, st), ex.load(v.plus(8), PTR, st)
        ex.oblige("all members of one set, the current one", T.and_(T.eq(i, j), T.eq(i, self.S["cur"])) if (f, g) == (8, 16) else False, st)
        ex.oblige("inserted at the end", pos.obj is e.obj and T.eq(pos.off, e.off), st)
        t = next(T._fresh)
        m = T.fresh("m", "I", 0)
        el, ix = (lambda q: T.app("el%d" % t, "I", q)), (lambda s: T.app("ix%d" % t, "I", s))
        mem = lambda s: T.and_(self.A(i, s), T.not_(self.flag(ex, "cut", s, st)))
        ex.facts.append(fa(lambda q: T.implies(T.and_(T.le(0, q), T.lt(q, m)), T.and_(mem(el(q)), T.eq(ix(el(q)), q)))))
        ex.facts.append(fa(lambda s: T.implies(mem(s), T.and_(T.le(0, ix(s)), T.lt(ix(s), m), T.eq(el(ix(s)), s)))))
        n = ex.exact_div(T.sub(e.off, b.off), 8)
        s = st.wos(e.obj)
        s.log = s.log + (("map", n, T.add(n, m), {0: (8, Tmpl(self.node(el(T.sub(KVAR, n)))))}),)
        end = Ptr(e.obj, T.scale(8, T.add(n, m)))
        for o in (8, 16):
            ex.store(v.plus(o), PTR, end, st)
        if self.S.get("ins") is not None:
            raise Unsupported("members inserted twice")
        self.S["ins"] = (mem, ix, m, el)
        return pos if len(c.args) == 4 else None

    def models(self):
        return [(MAP + "empty\\(", self.m_empty, "std::map"), (MAP + "begin\\(", self.m_begin, None), (MAP + r"operator\[\]\(", self.m_index, None), (MAP + r"erase\(Node", self.m_erase, None),
                (SET + r"erase\(Node", self.s_erase, "std::set"), (SET + "begin\\(", self.s_begin, None), (SET + "end\\(", self.s_end, None),
                (VEC + r"(push_back\(|emplace_back<)", self.v_push, "std::vector"), (VEC + r"insert<std::_Rb_tree_const_iterator<Node\*>", self.v_insert, None)]

    # the two loops over vectors that erase their elements from the set
    def erase_loop(self, ex, fr, h, body, st, phis):
        S = self.S
        its = [(p, v) for p, v in phis.items() if isinstance(v, Ptr) and v.obj is not None]
        if len(its) != 1 or len(phis) != 1:
            raise Unsupported("loop with other counters")
        (p, v), = its
        ex.oblige("from the first element", T.eq(v.off, 0), st)
        i = T.fresh("i", "I", 0)
        env0, trash, n = dict(fr.env), set(), None
        for rnd in range(6):
            fr.env = dict(env0)
            X = st.fork(*([T.le(i, n)] if n is not None else []))
            for o in trash:
                s = X.wos(o)
                s.cells, s.ranges = {}, (("undef", 0, None),)
            X0 = X.fork()
            S["erased"] = []
            mark = len(ex.obls)
            outs = ex.run_dag(fr, body, {h: [(X, {p: Ptr(v.obj, T.scale(8, i))})]}, h)
            if not outs["back"]:
                raise Unsupported("the loop does not come back")
            B, bph = ex._merge(outs["back"])
            cells, arrays, tr = changed_cells(ex, X0, B, list(st.mem))
            new = ({o for o, _, _ in cells} | tr) - trash
            if arrays:
                raise Unsupported("an array changes in the loop: %s" % arrays)
            ends = [(t, s, q) for t, l in outs["exits"].items() for s, q in l]
            if n is None:
                for c in [c for c in ends[0][1].pc if not any(c is x for x in st.pc)]:
                    n = n if n is not None else solve_count(ex, c, i, ends[0][1])
                if n is None:
                    raise Unsupported("number of iterations")
            elif not new:
                break
            trash |= new
            del ex.obls[mark:]
        else:
            raise Unsupported("loop does not settle")
        if len(S["erased"]) != 1 or len(ends) != 1:
            raise Unsupported("%d erasures in an iteration" % len(S["erased"]))
        e, = S["erased"]
        S["erased"] = None
        q = bph[p]
        ex.oblige("next element", isinstance(q, Ptr) and q.obj is v.obj and T.eq(q.off, T.scale(8, T.add(i, 1))), B)
        ex.oblige("never past the end", T.and_(T.le(0, n), T.implies(T.lt(i, T.add(n, 1)), T.le(T.add(i, 1), n))), B)
        tgt, s, q = ends[0]
        ex.oblige("the end is reached", T.eq(i, n), s)
        t = next(T._fresh)
        mem, wi = (lambda x: T.app("mem%d" % t, "B", x)), (lambda x: T.app("wi%d" % t, "I", x))
        E = lambda k: T.subst(e, {i: k})
        ex.facts.append(fa(lambda k: T.implies(T.and_(T.le(0, k), T.lt(k, n)), mem(E(k)))))
        ex.facts.append(fa(lambda x: T.implies(mem(x), T.and_(T.le(0, wi(x)), T.lt(wi(x), n), T.eq(E(wi(x)), x)))))
        s = s.fork()
        s.pc = st.pc
        old = ex.aread(S["cut"], KVAR, 0, I64, 8, s)
        w = s.wos(S["cut"])
        w.log = w.log + (("map", 0, self.V, {0: (8, Tmpl(T.ite(mem(KVAR), 1, old)))}),)
        return [(tgt, s, q)]


def component(prf):
    """get_component: empties out one connected component of the graph"""
    fn = "ConnectedComponents::get_component"
    C = World()
    S = C.S
    S["phase"] = 0

    def inv(f, nr, nn, res, nod):
        """f: the ghost functions in, pr, on, pn, par; res, nod: elements; nr, nn: lengths -> named parts (quantified over bound x, y)"""
        R, N, root = f["in"], f["on"], C.root
        return [
            ("every node listed is known to be, at its place", lambda x: T.implies(T.and_(T.le(0, x), T.lt(x, nr)), T.and_(R(res(x)), T.eq(f["pr"](res(x)), x))), 1),
            ("listed nodes are in the list", lambda x: T.implies(R(x), T.and_(T.le(0, f["pr"](x)), T.lt(f["pr"](x), nr), T.eq(res(f["pr"](x)), x))), 1),
            ("every node waiting is known to be, at its place", lambda x: T.implies(T.and_(T.le(0, x), T.lt(x, nn)), T.and_(N(nod(x)), T.eq(f["pn"](nod(x)), x))), 1),
            ("waiting nodes are waiting", lambda x: T.implies(N(x), T.and_(T.le(0, f["pn"](x)), T.lt(f["pn"](x), nn), T.eq(nod(f["pn"](x)), x))), 1),
            ("no node is both listed and waiting", lambda x: T.not_(T.and_(R(x), N(x))), 1),
            ("listed and waiting nodes had an entry", lambda x: T.implies(T.or_(R(x), N(x)), T.and_(C.P(x), T.le(0, x), T.lt(x, C.V))), 1),
            ("neighbours of listed nodes are listed or waiting", lambda x, y: T.implies(T.and_(R(x), C.A(x, y)), T.or_(R(y), N(y))), 2),
            ("the first node is there", lambda x: T.or_(R(root), N(root)), 1),
            ("every node but the first is the neighbour of one listed before", lambda x: T.implies(T.or_(R(x), N(x)), T.or_(T.eq(x, root), T.and_(
                R(f["par"](x)), C.A(f["par"](x), x), T.or_(N(x), T.lt(f["pr"](f["par"](x)), f["pr"](x)))))), 1),
        ]

    def gone_inv(ex, s, R):
        return lambda x: iff(C.flag(ex, "gone", x, s), R(x))

    def oblige(ex, parts, s, when):
        for nm, b, n in parts:
            vs = [T.fresh("x", "I") for _ in range(n)]
            ex.oblige("%s (%s)" % (nm, when), b(*vs), s)

    def elems(ex, v, s):
        b = ex.load(v, PTR, s)
        return lambda x: C.index(ex, ex.load(Ptr(b.obj, T.add(b.off, T.scale(8, x))), PTR, s), s)

    def length(ex, v, s):
        b, e = ex.load(v, PTR, s), ex.load(v.plus(8), PTR, s)
        if not isinstance(b, Ptr) or not isinstance(e, Ptr) or b.obj is not e.obj or T.eq(b.off, 0) is not True:
            raise Unsupported("vector")
        return ex.exact_div(e.off, 8)

    def main_loop(ex, fr, h, body, st, phis):
        if S["phase"] != 0:
            return C.erase_loop(ex, fr, h, body, st, phis)
        S["phase"] = 1
        if phis or len(S["vecs"]) != 1:
            raise Unsupported("loop state")
        nodes, res = S["vecs"][0], S["res"]
        S["nodes"] = nodes
        k0 = T.app("nodes0", "I", 0)
        n0, r0 = length(ex, nodes, st), length(ex, res, st)
        # at first: one node waiting, none listed
        ex.oblige("the list starts empty, one node waits: the first", T.and_(T.eq(r0, 0), T.eq(n0, 1), T.eq(elems(ex, nodes, st)(0), C.root)), st)
        f0 = {"in": lambda x: False, "on": lambda x: T.eq(x, C.root), "pr": lambda x: 0, "pn": lambda x: 0, "par": lambda x: x}
        oblige(ex, inv(f0, 0, 1, lambda x: x, lambda x: C.root), st, "at first")
        oblige(ex, [("listed nodes have lost their entry", gone_inv(ex, st, f0["in"]), 1)], st, "at first")
        # any round
        G = st.fork()
        t = next(T._fresh)
        nr, nn = T.fresh("nr", "I", 0), T.fresh("nn", "I", 0)
        f = {k: (lambda x, k=k: T.app("%s%d" % (k, t), "B" if k in ("in", "on") else "I", x)) for k in ("in", "on", "pr", "pn", "par")}
        rf, nf = (lambda x: T.app("res%d" % t, "I", x)), (lambda x: T.app("nod%d" % t, "I", x))
        for v, n, g in ((res, nr, rf), (nodes, nn, nf)):
            b = ex.load(v, PTR, G)
            s = G.wos(b.obj)
            s.log = (("map", 0, n, {0: (8, Tmpl(C.node(g(KVAR))))}),)
            for o in (8, 16):
                ex.store(v.plus(o), PTR, Ptr(b.obj, T.scale(8, n)), G)
        s = G.wos(S["gone"])
        s.log = (("map", 0, C.V, {0: (8, Tmpl(T.ite(f["in"](KVAR), 1, 0)))}),)
        for nm, b, n in inv(f, nr, nn, rf, nf):
            ex.facts.append(fa(b, n=n))
        env0, trash = dict(fr.env), set()
        mark = len(ex.obls), len(ex.facts)
        nobj, robj = ex.load(nodes, PTR, G).obj, ex.load(res, PTR, G).obj
        known = {robj, nobj, S["gone"], S["cut"]}
        for rnd in range(4):
            fr.env = dict(env0)
            X = G.fork()
            for o in trash:
                s = X.wos(o)
                s.cells, s.ranges = {}, (("undef", 0, None),)
            X0 = X.fork()
            S["cur"], S["ins"] = None, None
            outs = ex.run_dag(fr, body, {h: [(X, {})]}, h)
            if not outs["back"]:
                raise Unsupported("the loop does not come back")
            B, _ = ex._merge(outs["back"])
            cells, arrays, tr = changed_cells(ex, X0, B, list(G.mem))
            if [o for o in arrays if o not in known]:
                raise Unsupported("changed in the loop: %s" % arrays)
            new = ({o for o, _, _ in cells if o not in (nodes.obj, res.obj)} | tr) - trash
            if nodes.obj in tr or res.obj in tr:
                raise Unsupported("vectors")
            if not new:
                break
            trash |= new
            del ex.obls[mark[0]:]
            del ex.facts[mark[1]:]
        else:
            raise Unsupported("loop does not settle")
        k = S["cur"]
        if k is None or S["ins"] is None:
            raise Unsupported("no node visited")
        mem, ix, m, el = S["ins"]
        ex.oblige("a waiting node is visited", f["on"](k), B)
        f2 = {"in": lambda x: T.or_(T.eq(x, k), f["in"](x)), "pr": lambda x: T.ite(T.eq(x, k), nr, f["pr"](x)),
              "on": lambda x: T.or_(T.and_(f["on"](x), T.not_(T.eq(x, k))), mem(x)),
              "pn": lambda x: T.ite(mem(x), T.add(T.sub(nn, 1), ix(x)), f["pn"](x)), "par": lambda x: T.ite(mem(x), k, f["par"](x))}
        # `mem` speaks of the state at the insertion
        n2, r2 = length(ex, nodes, B), length(ex, res, B)
        oblige(ex, inv(f2, r2, n2, elems(ex, res, B), elems(ex, nodes, B)), B, "next round")
        oblige(ex, [("listed nodes have lost their entry, others have not", gone_inv(ex, B, f2["in"]), 1)], B, "next round")
        ex.oblige("one more node is listed per round", T.eq(r2, T.add(nr, 1)), B)
        S["f"], S["B"], S["nr"], S["rf"], S["nn"] = f, B, nr, rf, nn
        out = [(t_, s_, p_) for t_, l in outs["exits"].items() for s_, p_ in l]
        for t_, s_, p_ in out:
            ex.oblige("ends when no node waits", T.eq(nn, 0), s_)
            ex.oblige("the end changes nothing", T.and_(T.eq(length(ex, res, s_), nr), *[T.eq(a, b) for a, b in ((C.flag(ex, "gone", C.root, s_), f["in"](C.root)),)]), s_)
        return out

    w = W("components", ["d_component"], stub=[m[0] for m in C.models()], models=C.models())
    ex, st = w.ex(branch_prune=True)
    C.start(w, ex, st)
    # the graph: symmetric, its edges between nodes that have entries
    ex.facts.append(fa(lambda k, s: T.implies(T.and_(C.P(k), C.A(k, s)), T.and_(C.P(s), C.A(s, k))), n=2))
    ex.facts.append(fa(lambda k: T.implies(C.P(k), T.and_(T.le(0, k), T.lt(k, C.V), T.not_(C.E)))))
    ex.fact(T.implies(T.not_(C.E), C.P(C.root)))
    res = S["res"] = Ptr(ex.new_obj(st, "res", 24), 0)
    ra = C.array(st, "res.elements")
    old = T.sym("old size", "I", 0)
    for o, n in ((0, 0), (8, old), (16, old)):
        ex.store(res.plus(o), PTR, Ptr(ra, T.scale(8, n)), st)
    ex.loop_specs = {(r"get_component|^d_component", None): main_loop}
    r, st = ex.call("d_component", [Ptr(C.cc, 0), res], st)
    r = asbool(r)
    prf.take(ex, fn)
    prf.function("lmb::ConnectedComponents::get_component")
    if "f" not in S:
        raise Unsupported("no loop")
    f, nr, rf = S["f"], S["nr"], S["rf"]
    ok = st.pc
    prf.prove(fn, "says whether there was a component left", iff(r, T.not_(C.E)), ex.facts, ok)
    prf.prove(fn, "nothing is listed when there is none", T.implies(C.E, T.eq(length(ex, res, st), 0)), ex.facts, ok)
    some = list(ok) + [T.not_(C.E), T.eq(S["nn"], 0)]
    x, y = T.sym("x", "I"), T.sym("y", "I")
    prf.prove(fn, "the component contains the first node of the map", f["in"](C.root), ex.facts, some)
    prf.prove(fn, "it is closed: neighbours of its nodes are in it", T.implies(T.and_(f["in"](x), C.A(x, y)), f["in"](y)), ex.facts, some)
    prf.prove(fn, "it is connected: every other node of it is the neighbour of one listed before it",
              T.implies(T.and_(f["in"](x), T.not_(T.eq(x, C.root))), T.and_(f["in"](f["par"](x)), C.A(f["par"](x), x), T.lt(f["pr"](f["par"](x)), f["pr"](x)))), ex.facts, some)
    prf.prove(fn, "each node is listed once", T.implies(T.and_(T.le(0, x), T.lt(x, nr), T.le(0, y), T.lt(y, nr), T.eq(rf(x), rf(y))), T.eq(x, y)), ex.facts, some)
    prf.prove(fn, "what remains is a graph of the same kind: no edge leads from a remaining node to a listed one",
              T.implies(T.and_(C.P(x), T.not_(f["in"](x)), C.A(x, y)), T.not_(f["in"](y))), ex.facts, some)
    plain = [g for g in ex.facts if not (isinstance(g, Term) and g.op == "forall")]
    prf.reachable(fn, plain, some)
    prf.reachable(fn + " (another round)", plain, S["B"].pc)


def graph(prf):
    """init: an entry without neighbours unless there is one; connect: adds all of a list to the neighbours of a node"""
    fn = "ConnectedComponents::"
    C = World()
    log = []

    def m_emplace(c):
        C.mine(c)
        a = c.args[1:] if c.args[0].obj is C.cc else c.args[2:]
        log.append(("emplace", C.key(c, a[0]), c.ex.load(a[1], I64, c.st), c.st.pc))
        return UNDEF

    def s_new(c):
        c.ex.store(c.args[0], I64, 0, c.st)            # the number of members of a set under construction
        return None

    def m_index(c):
        C.mine(c)
        return Ptr(C.sets, T.scale(48, C.key(c, c.args[1])))

    def s_insert(c):
        i, f = C.set_of(c, c.args[0])
        log.append(("insert", i, c.args[1], c.args[2], c.st.pc))
        return None
    models = [(MAP + r"(emplace|try_emplace)<", m_emplace, "std::map"), (MAP + r"operator\[\]\(", m_index, None), (SET + r"set\(\)", s_new, "std::set"), (SET + r"~set\(\)", lambda c: None, None),
              (SET + r"insert<__gnu_cxx::__normal_iterator<Node\* const\*", s_insert, None)]
    for f in ("d_init", "d_connect"):
        del log[:]
        w = W("components", [f], stub=[m[0] for m in models], models=models)
        ex, st = w.ex()
        C.start(w, ex, st)
        k, n = T.sym("k", "I", 0), T.sym("n", "I", 0)
        ex.fact(T.lt(k, C.V))
        args = [Ptr(C.cc, 0), C.node(k)]
        if f == "d_connect":
            l = C.array(st, "list")
            l.readonly = True
            v = ex.new_obj(st, "list.vec", 24)
            for o, q in ((0, 0), (8, n), (16, n)):
                ex.store(Ptr(v, o), PTR, Ptr(l, T.scale(8, q)), st)
            args.append(Ptr(v, 0))
        _, st = ex.call(f, args, st)
        prf.take(ex, fn + f[2:])
        prf.function("lmb::" + fn + f[2:])
        if len(log) != 1:
            raise Unsupported("%d operations" % len(log))
        e, = log
        prf.prove(fn + f[2:], "on the node given", T.eq(e[1], k), ex.facts, st.pc)
        if f == "d_init":
            prf.prove(fn + "init", "an entry without neighbours", e[0] == "emplace" and T.eq(e[2], 0), ex.facts, st.pc)
        else:
            a, b = e[2:4]
            good = e[0] == "insert" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is l and b.obj is l
            prf.prove(fn + "connect", "all of the list is added", good and T.and_(T.eq(a.off, 0), T.eq(b.off, T.scale(8, n))), ex.facts, st.pc)
        prf.reachable(fn + f[2:], ex.facts, st.pc)
