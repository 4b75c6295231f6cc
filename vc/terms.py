"""Hash-consed first-order terms (Int, Real, Bool) with simplifying constructors.

Concrete numbers are Python ints / Fractions / bools; everything else is a Term.
"""
from fractions import Fraction
import itertools

_tab = {}
_uid = itertools.count()


class Term:
    __slots__ = ("op", "args", "sort", "id", "_h", "lo")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("symbolic truth value: " + show(self)[:200])


def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_uid)
        t.lo = None
        _tab[key] = t
    return t


_fresh = itertools.count()


def sym(name, sort, lo=None):
    t = mk("sym", (name,), sort)
    if lo is not None:
        t.lo = lo
    return t


def fresh(name, sort, lo=None):
    return sym("%s!%d" % (name, next(_fresh)), sort, lo)


def app(fn, sort, *args):
    return mk("app:" + fn, tuple(args), sort)


def is_num(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def is_con(x):
    return isinstance(x, (int, Fraction, bool))


def sort_of(x):
    if isinstance(x, Term):
        return x.sort
    if isinstance(x, bool):
        return "B"
    if isinstance(x, Fraction):
        return "R"
    return "I"


# ---------------------------------------------------------------- arithmetic
# sums are kept as ("+", ((coef, monomial-term), ...)) with constant part, linear normal form
def _lin(x):
    """-> (const, {term: coef})"""
    if is_num(x):
        return x, {}
    if x.op == "+":
        return x.args[0], dict(x.args[1])
    if x.op == "*c":
        return 0, {x.args[1]: x.args[0]}
    return 0, {x: 1}


def _mklin(c, d, sort):
    if sort == "R" and not isinstance(c, Fraction):
        c = Fraction(c)
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return c
    if c == 0 and len(items) == 1:
        t, k = items[0]
        if k == 1:
            return t
        return mk("*c", (k, t), sort)
    return mk("+", (c, items), sort)


def _asort(a, b):
    sa, sb = sort_of(a), sort_of(b)
    return "R" if "R" in (sa, sb) else "I"


def add(a, b):
    if is_num(a) and is_num(b):
        return a + b
    if is_num(a) and a == 0:
        return b
    if is_num(b) and b == 0:
        return a
    s = _asort(a, b)
    ca, da = _lin(a)
    cb, db = _lin(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mklin(ca + cb, d, s)


def scale(k, a):
    if is_num(a):
        return k * a
    if k == 0:
        return Fraction(0) if a.sort == "R" else 0
    if k == 1:
        return a
    c, d = _lin(a)
    return _mklin(c * k, {t: v * k for t, v in d.items()}, a.sort)


def neg(a):
    return scale(-1, a)


def sub(a, b):
    return add(a, neg(b))


def sumt(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def mul(a, b):
    if is_num(a):
        return scale(a, b)
    if is_num(b):
        return scale(b, a)
    s = _asort(a, b)
    # pull out scalar factors
    k = 1
    fs = []
    for x in (a, b):
        if x.op == "*c":
            k *= x.args[0]
            x = x.args[1]
        if x.op == "*":
            fs.extend(x.args)
        else:
            fs.append(x)
    fs.sort(key=lambda t: t.id)
    return scale(k, mk("*", tuple(fs), s))


def div(a, b):
    """real division"""
    if is_num(b) and b != 0:
        return scale(Fraction(1) / Fraction(b), a) if not is_num(a) else Fraction(a) / Fraction(b)
    if is_num(a) and a == 0:
        return Fraction(0)
    k = Fraction(1)
    if isinstance(a, Term) and a.op == "*c":
        k, a = a.args
    elif is_num(a):
        k, a = Fraction(a), Fraction(1)
    if isinstance(b, Term) and b.op == "*c":
        k, b = k / b.args[0], b.args[1]
    if a is b:
        return Fraction(k)
    return scale(k, mk("/", (a, b), "R"))


def idiv(a, b):
    """integer division truncating toward zero (C semantics); symbolic only when exact/nonneg handled by caller"""
    if is_num(a) and is_num(b):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if is_num(b):
        c, d = _lin(a)
        if c % b == 0 and all(v % b == 0 for v in d.values()):
            return _mklin(c // b, {t: v // b for t, v in d.items()}, "I")
        if a.op == "ite":
            p, q = idiv(a.args[1], b), idiv(a.args[2], b)
            if all(not isinstance(x, Term) or x.op != "idiv" for x in (p, q)):
                return ite(a.args[0], p, q)
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if is_num(a) and is_num(b):
        return a - b * idiv(a, b)
    if is_num(b):
        c, d = _lin(a)
        if all(v % b == 0 for v in d.values()) and c == 0:
            return 0
    return mk("imod", (a, b), "I")


def toreal(a):
    if is_num(a):
        return Fraction(a)
    if a.sort == "R":
        return a
    if a.op in ("+", "*c"):
        c, d = _lin(a)
        return _mklin(Fraction(c), {toreal(t): Fraction(k) for t, k in d.items()}, "R")
    if a.op == "*":
        r = Fraction(1)
        for x in a.args:
            r = mul(r, toreal(x))
        return r
    if a.op == "sum":
        return sum_(toreal(a.args[0]), a.args[1])
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return mk("toreal", (a,), "R")


# ---------------------------------------------------------------- boolean
def not_(a):
    if isinstance(a, bool):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, Term) and x.op == op:
            ys = x.args
        else:
            ys = (x,)
        for y in ys:
            if isinstance(y, bool):
                if op == "and" and not y or op == "or" and y:
                    return None
                continue
            if y.id in seen:
                continue
            n = not_(y)
            if isinstance(n, Term) and n.id in seen:
                return None
            seen.add(y.id)
            out.append(y)
    return out


def and_(*xs):
    out = _flat("and", xs)
    if out is None:
        return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    out = _flat("or", xs)
    if out is None:
        return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk("or", tuple(out), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (is_con(a) and is_con(b) and type(a) == type(b) and a == b):
        return a
    s = sort_of(a)
    if s != sort_of(b):
        sb = sort_of(b)
        if "R" in (s, sb) and "B" not in (s, sb):
            a, b, s = toreal(a), toreal(b), "R"
            if a is b or (is_num(a) and is_num(b) and a == b):
                return a
        elif s == "B":
            b = bool(b) if is_num(b) else ne(b, 0)
        elif sb == "B":
            a = bool(a) if is_num(a) else ne(a, 0)
            s = "B"
    if s == "B":
        if a is True and b is False:
            return c
        if a is False and b is True:
            return not_(c)
        if a is True:
            return or_(c, b)
        if a is False:
            return and_(not_(c), b)
        if b is True:
            return or_(not_(c), a)
        if b is False:
            return and_(c, a)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    if isinstance(a, Term) and a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if s in ("I", "R") and c.op == "eq0":
        # ite(x = y, a, b) with a - b a multiple of x - y: both branches are b
        d, e = _prop(c.args[0]), _prop(sub(a, b))
        if e is not None and e == d:
            return b
    return mk("ite", (c, a, b), s)


def _prop(x):
    """a linear term up to a factor"""
    if not isinstance(x, Term):
        return None
    c, d = _lin(x)
    if not d:
        return None
    lead = min(d, key=lambda t: t.id)
    f = Fraction(d[lead])
    return (Fraction(c) / f, frozenset((t, Fraction(v) / f) for t, v in d.items()))


def eq(a, b):
    if a is b:
        return True
    sa, sb = sort_of(a), sort_of(b)
    if sa == "B" or sb == "B":
        if sa != "B":
            a = ne(a, 0)
        if sb != "B":
            b = ne(b, 0)
        if isinstance(a, bool):
            return b if a else not_(b)
        if isinstance(b, bool):
            return a if b else not_(a)
        if a is b:
            return True
        if a.id > b.id:
            a, b = b, a
        return mk("iff", (a, b), "B")
    d = sub(a, b)
    if is_num(d):
        return d == 0
    if not is_num(b) and not is_num(a) and a.op == "ite" and b.op != "ite":
        pass
    # distribute over ite with constant arms
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Term) and x.op == "ite" and is_num(y) and (is_num(x.args[1]) or is_num(x.args[2])):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if _asort(a, b) == "R":
        a, b = toreal(a), toreal(b)
    # normalise on difference
    c, dd = _lin(d)
    items = sorted(dd.items(), key=lambda p: p[0].id)
    k = items[0][1]
    if d.sort == "R":
        d = scale(Fraction(1) / Fraction(k), d)
    elif k < 0:
        d = neg(d)
    z = Fraction(0) if d.sort == "R" else 0
    return mk("eq0", (d,), "B")


def ne(a, b):
    return not_(eq(a, b))


def lob(t):
    """known lower bound of an integer term, or None"""
    if is_num(t):
        return t
    if isinstance(t, bool) or t.sort != "I":
        return None
    if t.lo is not None:
        return t.lo
    if t.op in ("+", "*c"):
        c, d = _lin(t)
        for x, k in d.items():
            if k < 0:
                return None
            b = lob(x)
            if b is None:
                return None
            c += k * b
        return c
    if t.op == "*":
        bs = [lob(x) for x in t.args]
        if all(b is not None and b >= 0 for b in bs):
            r = 1
            for b in bs:
                r *= b
            return r
        return None
    if t.op == "ite":
        a, b = lob(t.args[1]), lob(t.args[2])
        if a is not None and b is not None:
            return min(a, b)
    return None


def values(t, limit=16, loose=False):
    """the values a term can have as far as its structure tells (None: too many, or not known; loose: those that are known)"""
    memo = {}

    def go(x):
        if is_num(x):
            return frozenset((x,))
        if isinstance(x, bool):
            return None
        r = memo.get(x.id, 0)
        if r != 0:
            return r
        r = None
        if x.op == "ite":
            a, b = go(x.args[1]), go(x.args[2])
            r = a | b if a is not None and b is not None else (a if b is None else b) if loose else None
        elif x.op in ("+", "*c"):
            c, d = _lin(x)
            if not (len(d) == 1 and x in d):
                r = frozenset((c,))
                for y, k in d.items():
                    q = go(y)
                    r = None if q is None or r is None else frozenset(u + k * v for u in r for v in q)
                    if r is None or len(r) > limit:
                        break
        if r is not None and len(r) > limit:
            r = None
        memo[x.id] = r
        return r
    return go(t) if isinstance(t, Term) else None


def _cmp(op, a, b):
    d = sub(a, b)
    if is_num(d):
        return d <= 0 if op == "le" else d < 0
    if d.sort == "I" and op == "le":
        m = lob(neg(d))
        if m is not None and m >= 0:
            return True
        m = lob(d)
        if m is not None and m > 0:
            return False
    for x, y, left in ((a, b, True), (b, a, False)):
        if isinstance(x, Term) and x.op == "ite" and is_num(y) and (is_num(x.args[1]) or is_num(x.args[2])):
            if left:
                return ite(x.args[0], _cmp(op, x.args[1], y), _cmp(op, x.args[2], y))
            return ite(x.args[0], _cmp(op, y, x.args[1]), _cmp(op, y, x.args[2]))
    if d.sort == "R":
        c, dd = _lin(d)
        items = sorted(dd.items(), key=lambda p: p[0].id)
        k = abs(items[0][1])
        d = scale(Fraction(1) / Fraction(k), d)
        # canonical: store  lhs op rhs with leading positive on one side
    return mk(op, _split(d), "B")


def _split(d):
    """d <op> 0  ->  (pos, neg) with pos <op> neg"""
    c, dd = _lin(d)
    p = {t: k for t, k in dd.items() if k > 0}
    n = {t: -k for t, k in dd.items() if k < 0}
    s = d.sort
    cp, cn = (c, 0) if c > 0 else (0, -c)
    return (_mklin(cp, p, s), _mklin(cn, n, s))


def le(a, b):
    r = _cmp("le", a, b)
    return r


def lt(a, b):
    if _asort(a, b) == "I":
        return _cmp("le", add(a, 1), b)
    return _cmp("lt", a, b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- functions over reals
def fn(name, *args):
    args = tuple(toreal(a) if sort_of(a) == "I" and not is_num(a) else (Fraction(a) if is_num(a) else a) for a in args)
    if name == "sin" and is_num(args[0]) and args[0] == 0:
        return Fraction(0)
    if name == "cos" and is_num(args[0]) and args[0] == 0:
        return Fraction(1)
    if name == "exp" and is_num(args[0]) and args[0] == 0:
        return Fraction(1)
    if name == "log" and is_num(args[0]) and args[0] == 1:
        return Fraction(0)
    if name == "sqrt" and is_num(args[0]) and args[0] in (0, 1):
        return args[0]
    if name == "pow" and is_num(args[1]) and args[1].denominator == 1 and 0 <= args[1] <= 8:
        r = Fraction(1)
        for _ in range(int(args[1])):
            r = mul(r, args[0])
        return r
    if name == "pow" and is_num(args[0]) and args[0] == 1:
        return Fraction(1)
    if name in ("sin", "cos") and isinstance(args[0], Term):
        # odd/even normalisation
        c, d = _lin(args[0])
        lead = min(d, key=lambda t: t.id)
        if d[lead] < 0:
            r = fn(name, neg(args[0]))
            return neg(r) if name == "sin" else r
    if name in ("floor", "trunc"):
        if is_num(args[0]):
            import math
            return math.floor(args[0]) if name == "floor" else math.trunc(args[0])
        return mk("fn:" + name, args, "I")
    return mk("fn:" + name, args, "R")


def abs_(a):
    if is_num(a):
        return abs(a)
    return ite(le(0, a), a, neg(a))


# ---------------------------------------------------------------- traversal
def children(t):
    if t.op == "sym":
        return ()
    if t.op == "+":
        return tuple(x for x, _ in t.args[1])
    if t.op == "*c":
        return (t.args[1],)
    return tuple(x for x in t.args if isinstance(x, Term))


def subterms(roots):
    seen = set()
    stack = [r for r in roots if isinstance(r, Term)]
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        stack.extend(children(t))


def symbols(*roots):
    return {t for t in subterms(roots) if t.op == "sym"}


def rebuild(t, f):
    """rebuild t with children mapped by f through the simplifying constructors"""
    op = t.op
    if op == "sym":
        return t
    if op == "+":
        r = t.args[0]
        for x, k in t.args[1]:
            r = add(r, scale(k, f(x)))
        return r
    if op == "*c":
        return scale(t.args[0], f(t.args[1]))
    a = tuple(f(x) if isinstance(x, Term) else x for x in t.args)
    if op == "*":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if op == "/":
        return div(a[0], a[1])
    if op == "idiv":
        return idiv(*a)
    if op == "imod":
        return imod(*a)
    if op == "toreal":
        return toreal(a[0])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "ite":
        return ite(*a)
    if op == "iff":
        return eq(a[0], a[1])
    if op == "eq0":
        return eq(a[0], Fraction(0) if sort_of(a[0]) == "R" else 0)
    if op == "le":
        return le(*a)
    if op == "lt":
        return lt(*a)
    if op.startswith("fn:"):
        return fn(op[3:], *a)
    if op == "sum":
        return sum_(a[0], a[1], a[2])
    if op in ("minf", "maxf"):
        return fold_(op, *a)
    return mk(op, a, t.sort)


def subst(t, m):
    """m: dict Term->value, simultaneous"""
    if not isinstance(t, Term):
        return t
    if not m:
        return t
    memo = {k.id: v for k, v in m.items() if isinstance(k, Term)}
    fns = {k: v for k, v in m.items() if not isinstance(k, Term)}     # function -> (template over FV, SV; factor)

    def go(x):
        r = memo.get(x.id)
        if r is not None or x.id in memo:
            return r
        if fns and x.op in fns:
            t, F = fns[x.op]
            a, b = [go(y) if isinstance(y, Term) else y for y in x.args]
            r = subst(t, {FV: a, SV: b, PV: add(a, mul(F, b)) if F is not None else PV})
            memo[x.id] = r
            return r
        if x.op in ("minf", "maxf"):
            m2 = {k: v for k, v in m.items() if k is not KVAR}
            r = fold_(x.op, subst(x.args[0], m), subst(x.args[1], m2), subst(x.args[2], m))
        elif x.op == "sum":
            m2 = {k: v for k, v in m.items() if k is not KVAR}
            r = sum_(subst(x.args[0], m2), go(x.args[1]) if isinstance(x.args[1], Term) else x.args[1])
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


# ---------------------------------------------------------------- finite sums
# SUM(body, n): sum of body[k := j] for 0 <= j < n, where k is the canonical bound variable KVAR
KVAR = sym("$k", "I", 0)
# generic position in a matrix (vc/mats.py)
FV, SV, PV = sym("!fast", "I", 0), sym("!slow", "I", 0), sym("!flat", "I", 0)


def _kdecide(c, n):
    """decide a condition on the bound variable from 0 <= k < n"""
    if not isinstance(c, Term):
        return c
    if c.op == "and":
        return and_(*[_kdecide(x, n) for x in c.args])
    if c.op == "or":
        return or_(*[_kdecide(x, n) for x in c.args])
    if c.op == "not":
        return not_(_kdecide(c.args[0], n))
    if c.op == "le" and sort_of(c.args[0]) == "I" and sort_of(c.args[1]) == "I":
        d = sub(c.args[1], c.args[0])
        if is_num(d):
            return d >= 0
        co, dd = _lin(d)
        k = dd.get(KVAR, 0)
        if k and not any(has_k(t) for t in dd if t is not KVAR):
            last = sub(n, 1)
            lo_ = subst(d, {KVAR: 0 if k > 0 else last})
            hi_ = subst(d, {KVAR: last if k > 0 else 0})
            b = lob(lo_)
            if b is not None and b >= 0:
                return True
            b = lob(neg(hi_)) if not is_num(hi_) else -hi_
            if b is not None and b > 0:
                return False
    return c


def _kvalue(c):
    """the value of the bound variable for which c (an equation) holds"""
    if not isinstance(c, Term) or c.op != "eq0":
        return None
    if c.args[0] is KVAR:
        return 0
    if sort_of(c.args[0]) != "I":
        return None
    c0, d = _lin(c.args[0])
    a = d.pop(KVAR, None)
    if a not in (1, -1) or any(has_k(t) for t in d):
        return None
    return scale(-a, _mklin(c0, d, "I")) if d else -a * c0


def same_num(a, b):
    return a is b or is_num(a) and is_num(b) and a == b


def simp_k(t, n):
    """simplify conditions in t knowing 0 <= k < n"""
    memo = {}

    def go(x):
        if not isinstance(x, Term) or not has_k(x) or x is KVAR:
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "ite":
            c = x.args[0]
            if any(y.op == "ite" for y in subterms([c])):
                c = go(c)
            c = _kdecide(c, n)
            if c is True or c is False:
                r = go(x.args[1] if c else x.args[2])
            else:
                a, b = go(x.args[1]), go(x.args[2])
                v = _kvalue(c)
                if v is not None and same_num(subst(a, {KVAR: v}), subst(b, {KVAR: v})):
                    r = b       # the first alternative is the second one at the only k it is chosen for
                else:
                    r = ite(c, a, b)
        elif x.op in ("sum", "minf", "maxf", "forall"):
            r = x
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    return go(t)


def has_cond(t):
    return isinstance(t, Term) and any(x.op == "ite" and has_k(x.args[0]) for x in subterms([t]))


def sum_(body, n, tag=None):
    """sum over the canonical bound variable; linear in body: constants and k-free factors are pulled out"""
    if has_cond(body):
        body = simp_k(body, n)
    if is_num(body) and body == 0:
        return type(body)(0)
    if is_num(n) and n == 0:
        return 0 if sort_of(body) == "I" else Fraction(0)
    if isinstance(n, Term) and n.op == "+" and is_num(n.args[0]) and 0 < n.args[0] <= 4:
        c = n.args[0]
        m = sub(n, c)
        r = sum_(body, m)
        for i in range(int(c)):
            r = add(r, subst(body, {KVAR: add(m, i)}))
        return r
    if sort_of(body) == "I":
        return isum_(body, n)
    if is_num(body):
        return scale(Fraction(body), toreal(n))
    if not isinstance(body, Term):
        return body
    if body.op == "+":
        r = scale(Fraction(body.args[0]), toreal(n)) if body.args[0] != 0 else Fraction(0)
        for x, k in body.args[1]:
            r = add(r, scale(k, sum_(x, n)))
        return r
    if body.op == "*c":
        return scale(body.args[0], sum_(body.args[1], n))
    if not has_k(body):
        return mul(toreal(n), body)
    if body.op == "*":
        out, inn = [], []
        for x in body.args:
            if isinstance(x, Term) and x.op == "+" and has_k(x):
                # distribute
                rest = list(body.args)
                rest.remove(x)
                p = Fraction(1)
                for y in rest:
                    p = mul(p, y)
                r = sum_(scale(x.args[0], p), n) if x.args[0] != 0 else Fraction(0)
                for y, k in x.args[1]:
                    r = add(r, sum_(scale(k, mul(y, p)), n))
                return r
            (inn if has_k(x) else out).append(x)
        if out:
            p = inn[0]
            for x in inn[1:]:
                p = mul(p, x)
            r = sum_(p, n)
            for x in out:
                r = mul(r, x)
            return r
    if body.op == "/" and not has_k(body.args[1]):
        return div(sum_(body.args[0], n), body.args[1])
    return mk("sum", (body, n, 0), "R")


def fold_(op, init, body, n):
    """minimum (maximum) of init and body[k := 0..n-1]"""
    if is_num(n) and n == 0:
        return init
    if isinstance(n, Term) and n.op == "+" and is_num(n.args[0]) and 0 < n.args[0] <= 4:
        c = n.args[0]
        m = sub(n, c)
        r = fold_(op, init, body, m)
        for i in range(int(c)):
            e = subst(body, {KVAR: add(m, i)})
            r = min_(e, r) if op == "minf" else max_(e, r)
        return r
    return mk(op, (init, body, n), sort_of(init))


def isum_(body, n):
    if is_num(body):
        return scale(body, n)
    if body.op == "+":
        r = scale(body.args[0], n)
        for x, k in body.args[1]:
            r = add(r, scale(k, isum_(x, n)))
        return r
    if body.op == "*c":
        return scale(body.args[0], isum_(body.args[1], n))
    if not has_k(body):
        return mul(n, body)
    return mk("sum", (body, n, 0), "I")


_hask = {}


def has_k(t):
    """does the bound variable KVAR occur free in t?"""
    if not isinstance(t, Term):
        return False
    r = _hask.get(t.id)
    if r is None:
        if t is KVAR:
            r = True
        elif t.op == "sum":
            r = has_k(t.args[1])
        elif t.op in ("minf", "maxf"):
            r = has_k(t.args[0]) or has_k(t.args[2])
        else:
            r = any(has_k(c) for c in children(t))
        _hask[t.id] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if not isinstance(t, Term):
        return str(t)
    if depth == 0:
        return "..."
    d = depth - 1
    if t.op == "sym":
        return t.args[0]
    if t.op == "+":
        return "(" + " + ".join(([str(t.args[0])] if t.args[0] != 0 else []) +
                                ["%s%s" % ("" if k == 1 else "%s*" % k, show(x, d)) for x, k in t.args[1]]) + ")"
    if t.op == "*c":
        return "%s*%s" % (t.args[0], show(t.args[1], d))
    if t.op == "*":
        return "*".join(show(x, d) for x in t.args)
    if t.op == "eq0":
        return "(%s = 0)" % show(t.args[0], d)
    if t.op in ("le", "lt"):
        return "(%s %s %s)" % (show(t.args[0], d), "<=" if t.op == "le" else "<", show(t.args[1], d))
    return "%s(%s)" % (t.op, ", ".join(show(x, d) for x in t.args))


# ---------------------------------------------------------------- lambda lifting
LIFTED = {}     # app:$S<id> -> (op, parameters, first arguments over the parameters)


def lift(t, syms):
    """sums (and folds) whose body mentions one of the symbols, as applications of a function - one for each body up to the
    names of its free symbols - to the number of terms and the free symbols of the body"""
    if not isinstance(t, Term):
        return t
    m = {}
    for x in subterms([t]):
        if x.op not in ("sum", "minf", "maxf"):
            continue
        head = [y for y in (x.args[:1] if x.op == "sum" else x.args[:2]) if isinstance(y, Term)]
        if not any(y in syms for y in symbols(*head)):
            continue
        free = [y for y in subterms(head) if y.op == "sym" and y is not KVAR]
        par = [sym("@%d%s" % (i, z.sort), z.sort) for i, z in enumerate(free)]
        q = dict(zip(free, par))
        h2 = tuple(subst(y, q) for y in (x.args[:1] if x.op == "sum" else x.args[:2]))
        name = "app:$S%s" % ".".join(str(y.id) if isinstance(y, Term) else str(y) for y in (x.op,) + h2)
        LIFTED[name] = (x.op, par, h2)
        m[x] = mk(name, (x.args[1] if x.op == "sum" else x.args[2],) + tuple(free), x.sort)
    return subst(t, m) if m else t


def unlift(t):
    """expand lifted sums (those that are not under another sum)"""
    for _ in range(6):
        m = {}
        if not isinstance(t, Term):
            return t
        for x in subterms([t]):
            r = LIFTED.get(x.op)
            if r is not None and not any(has_k(y) for y in x.args if isinstance(y, Term)):
                op, par, head = r
                h = [subst(y, dict(zip(par, x.args[1:]))) for y in head]
                m[x] = sum_(h[0], x.args[0]) if op == "sum" else fold_(op, h[0], h[1], x.args[0])
        if not m:
            return t
        t = subst(t, m)
    return t
