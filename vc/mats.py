"""Matrices of unbounded size: the content of the object is one term over the generic position (FV, SV) - fast and slow
index - and, during a flat traversal, PV, the flat position FV + F * SV."""
from . import terms as T
from .terms import Term, FV, SV, PV
from .exec import Unsupported, Obj, Ptr, State, PINF

_n = [0]
INFINITE = T.sym("+infinity", "R")        # an infinite entry (the proof says which entries are: option "infinite")


def new(ex, st, name, a, b, fast=None, size=8, sort="R"):
    """a matrix of a*b doubles (or bytes); which of the dimensions is contiguous shows when it is first indexed"""
    _n[0] += 1
    o = Obj(name, None, kind="mat", stride=size, length=T.mul(a, b))
    o.meta["sort"] = sort
    o.meta["dims"] = (a, b)
    o.meta["fast"] = fast
    o.meta["fields"] = [(0, 8, ('f', 64))] if sort == "R" else [(0, size, ('i', 8 * size))]
    st.wos(o).cells[0] = (8, T.app("matundef%d" % _n[0], sort, FV, SV))
    return o


def content(o, st):
    return st.os(o).cells[0][1]


def setcontent(o, st, t):
    st.wos(o).cells[0] = (8, t)


def flat_index(off, n=8):
    c, d = T._lin(off) if isinstance(off, Term) else (off, {})
    if c % n or any(k % n for k in d.values()):
        raise Unsupported("offset into a matrix")
    return T._mklin(c // n, {t: k // n for t, k in d.items()}, "I") if d else c // n


def factor(flat, F):
    if not isinstance(flat, Term):
        return (flat, 0) if flat == 0 else None
    c, d = T._lin(flat)
    slow, rest, got = 0, {}, False
    for t, k in d.items():
        if t is F:
            slow, got = T.add(slow, k), True
        elif t.op == "*" and any(x is F for x in t.args):
            l = list(t.args)
            l.remove(next(x for x in l if x is F))
            q = l[0] if len(l) == 1 else None
            if q is None:
                q = 1
                for x in l:
                    q = T.mul(q, x)
            slow, got = T.add(slow, T.scale(k, q)), True
        else:
            rest[t] = k
    if not got and F.op == "+":
        # a multiple of a sum by a constant has been added term by term
        fc, fd = T._lin(F)
        k0 = {d.get(t, 0) // v for t, v in fd.items()}
        if len(k0) == 1:
            k = k0.pop()
            if k and all(d.get(t, 0) == k * v for t, v in fd.items()):
                return T.sub(flat, T.scale(k, F)), k
    return (T._mklin(c, rest, "I") if rest else c, slow) if got else None


def place(ex, o, off, st, what=None):
    """-> (fast, slow, flat); fast is None for a flat position"""
    flat = flat_index(off, o.stride)
    f = o.meta["fast"]
    for F in ((f,) if f is not None else o.meta["dims"]):
        r = factor(flat, F)
        if r is not None and flat != 0:
            if f is None:
                if not ex.implied(T.and_(T.le(0, r[0]), T.lt(r[0], F)), st, 500):
                    continue
                o.meta["fast"] = F
            break
    else:
        if f is not None and (ex.implied(T.and_(T.le(0, flat), T.lt(flat, f)), st, 300)):
            r, F = (flat, 0), f
        else:
            r = None
    if what and ex.opts["check_mem"]:
        if r is None:
            c = T.and_(T.le(0, flat), T.lt(flat, o.length))
        else:
            S = other(o)
            c = T.and_(T.le(0, r[0]), T.lt(r[0], F), T.le(0, r[1]), T.lt(r[1], S))
        if c is not True:
            ex.oblige("%s in bounds of %s" % (what, o.name), c, st)
    return (None, None, flat) if r is None else (r[0], r[1], flat)


def other(o):
    a, b = o.meta["dims"]
    return b if o.meta["fast"] is a else a


def _fs(flat):
    return T.app("fastof", "I", flat), T.app("slowof", "I", flat)


def load(ex, o, off, st):
    fast, slow, flat = place(ex, o, off, st, "load")
    if fast is None:
        fast, slow = _fs(flat)
    c = content(o, st)
    v = T.subst(c, {FV: fast, SV: slow, PV: flat})
    if isinstance(v, Term) and isinstance(c, Term):
        _loaded[v] = (fast, slow, c)
        if v.op == "+":
            _sums[(fast, slow)] = (v, c)
    return v


_loaded = {}
_sums = {}


def at(ex, o, fast, slow, st):
    F = o.meta["fast"]
    return T.subst(content(o, st), {FV: fast, SV: slow, PV: T.add(fast, T.mul(F, slow)) if F is not None else PV})


def store(ex, o, off, v, st):
    fast, slow, flat = place(ex, o, off, st, "store")
    if (ex.opts.get("infinite") or ex.opts.get("extended")) and v is PINF:
        v = INFINITE
    if not isinstance(v, (Term, int)) and not T.is_num(v):
        raise Unsupported("matrix element of an unexpected kind")
    if o.meta["sort"] == "I" and (isinstance(v, bool) or isinstance(v, Term) and v.sort == "B"):
        v = T.ite(v, 1, 0)
    if fast is None:
        f, s = _fs(flat)
        c = T.eq(PV, flat)
    else:
        f, s = fast, slow
        c = T.and_(T.eq(FV, fast), T.eq(SV, slow))
    setcontent(o, st, T.ite(c, generic(v, f, s), content(o, st)))


def generic(v, f, s):
    """reads of the very element that is written become reads of the generic element"""
    if not isinstance(v, Term):
        return v
    same = lambda x, y: x is y or T.is_num(x) and T.is_num(y) and x == y
    m = {t: _loaded[t][2] for t in T.subterms([v]) if t in _loaded and same(_loaded[t][0], f) and same(_loaded[t][1], s)}
    old = _sums.get((f, s))
    if old is not None:
        v = relative(v, *old)
    if m:
        return T.subst(v, m)
    m = {t: T.mk(t.op, (FV, SV), t.sort) for t in T.subterms([v]) if t.op.startswith("app:mat") and len(t.args) == 2 and
         (t.args[0] is f or t.args[0] == f) and (t.args[1] is s or t.args[1] == s)}
    return T.subst(v, m)


def position(o):
    """what holds of a generic position of the matrix"""
    F = o.meta["fast"]
    if F is None:
        return T.and_(T.le(0, PV), T.lt(PV, o.length))
    return T.and_(T.le(0, FV), T.lt(FV, F), T.le(0, SV), T.lt(SV, other(o)), T.eq(PV, T.add(FV, T.mul(F, SV))),
                  T.implies(T.le(1, SV), T.le(F, PV)), T.implies(T.le(SV, 0), T.eq(PV, FV)))


def write_row(ex, o, off, n, val, st, what="row write"):
    """elements (fast, slow .. slow + n) := val(slow index): a row of a column-major matrix"""
    fast, slow, flat = place(ex, o, off, st)
    F = o.meta["fast"]
    if fast is None:
        if F is None or any(x is F for x in T.subterms([flat])):
            raise Unsupported("row of a matrix at a flat position")
        fast, slow = flat, 0          # the obligation below says so
    ex.oblige("%s in bounds of %s" % (what, o.name), T.and_(T.le(0, fast), T.lt(fast, F), T.le(0, slow), T.le(T.add(slow, n), other(o))), st)
    c = T.and_(T.eq(FV, fast), T.le(slow, SV), T.lt(SV, T.add(slow, n)))
    setcontent(o, st, T.ite(c, val(T.sub(SV, slow)), content(o, st)))
    return fast, slow


def simplify(o, t):
    """within the matrix"""
    if not isinstance(t, Term):
        return t
    m = {}
    for c in [T.lt(PV, o.length)] + ([T.lt(FV, o.meta["fast"]), T.lt(SV, other(o))] if o.meta["fast"] is not None else []):
        if isinstance(c, Term):
            m[c] = True
    return T.subst(t, m)


def close(v, n, un, K, init, mentions, delta):
    """closed form of the content after K iterations, from the content n after one more"""
    o = v.sym
    op = o.op
    for x in T.subterms([n]):
        if x.op != "eq0":
            continue
        c, d = T._lin(x.args[0])
        for X in (FV, SV, PV):
            a, b = d.get(X), d.get(K)
            if a not in (1, -1) or b != -a or mentions(x, un):
                continue
            if T.subst(n, {x: False}) is not o:
                continue
            # a X + b K + rest = 0  ->  K = X + rest / b ...
            rest = T._mklin(c, {t: k for t, k in d.items() if t is not X and t is not K}, "I")
            Kx = T.add(X, T.scale(a, rest)) if not (T.is_num(rest) and rest == 0) else X
            g = T.subst(n, {x: True})
            if any(t.op == op and not (t.args[0] is FV and t.args[1] is SV) for t in T.subterms([g])):
                continue
            if mentions(g, un - {op}):
                continue
            g = T.subst(T.subst(g, {K: Kx}) if isinstance(g, Term) else g, {o: init})
            return T.ite(T.and_(T.le(0, Kx), T.lt(Kx, K)), g, init)
    e = delta(n, o)
    if e is None or e is True or e is False or mentions(e, un):
        return None
    if not mentions(e, {K}):
        return T.add(init, T.mul(e, T.toreal(K)))
    return T.add(init, T.sum_(T.subst(T.lift(e, {K}), {K: T.KVAR}), K))


def relative(v, old, c):
    """v written as a change of the old value: old + e becomes c + e (c is the old value at a generic position)"""
    if not isinstance(v, Term):
        return v
    if v.op == "ite":
        return T.ite(v.args[0], relative(v.args[1], old, c), relative(v.args[2], old, c))
    if v is old:
        return c
    if v.op == "+":
        have = dict(v.args[1])
        if all(have.get(x) == k for x, k in old.args[1]):
            return T.add(c, T.sub(v, old))
    return v
