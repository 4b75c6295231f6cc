"""Trusted models of external functions (each use is counted and reported as an assumption)."""
from fractions import Fraction
from . import terms as T
from .terms import Term
from .exec import *
from .exec import NOTHANDLED
from .irparse import PINF, NINF


def _f(c, name):
    def g(*a):
        for x in a:
            if x is UNDEF:
                return UNDEF
        for x in a:
            if isinstance(x, Inf):
                if name == "exp":
                    return Fraction(0) if x.neg else PINF
                if name == "sqrt":
                    return PINF
                raise Unsupported("%s of infinity" % name)
        return T.fn(name, *a)
    args = c.args
    if any(isinstance(a, tuple) for a in args):
        return tuple(g(*x) for x in zip(*args))
    return c.ex.lift(g, *args)


def m_math(c):
    d = c.name
    d = d[5:].split(".")[0] if d.startswith("llvm.") else d
    ex, st = c.ex, c.st
    if d in ("sin", "cos", "exp", "log", "tan", "atan", "cbrt"):
        return _f(c, d)
    if d == "acos" or d == "asin" or d == "atan2" or d == "pow":
        return _f(c, d)
    if d == "sqrt":
        a = c.args[0]
        if is_scalar(a) and ex.opts["check_div"] and not (T.is_num(a) and a >= 0):
            ex.oblige("argument of sqrt not negative", T.le(0, a), st)
        return _f(c, d)
    if d == "hypot":
        a, b = c.args
        return T.fn("sqrt", T.add(T.mul(a, a), T.mul(b, b)))
    if d == "fabs":
        def fa(x):
            if isinstance(x, Inf):
                return PINF
            return UNDEF if x is UNDEF else T.abs_(x)
        a = c.args[0]
        return tuple(fa(x) for x in a) if isinstance(a, tuple) else ex.lift(fa, a)
    if d in ("floor", "ceil"):
        def fl_(x):
            import math
            if T.is_num(x):
                return Fraction(math.floor(x) if d == "floor" else math.ceil(x))
            y = T.mk("fn:floor", (x if d == "floor" else T.neg(x),), "I")
            y = T.toreal(y)
            return y if d == "floor" else T.neg(y)
        return ex.lift(fl_, c.args[0])
    if d in ("minnum", "fmin", "minimum"):
        return ex.lift(T.min_, *c.args)
    if d in ("maxnum", "fmax", "maximum"):
        return ex.lift(T.max_, *c.args)
    if d in ("smin", "umin"):
        return T.min_(*c.args)
    if d in ("smax", "umax"):
        return T.max_(*c.args)
    if d == "abs":
        return T.abs_(c.args[0])
    if d == "fmuladd" or d == "fma":
        a, b, x = c.args
        if isinstance(a, tuple):
            return tuple(ex.fbin("fadd", ex.fbin("fmul", p, q, st), r, st) for p, q, r in zip(a, b, x))
        return ex.fbin("fadd", ex.fbin("fmul", a, b, st), x, st)
    if d == "copysign":
        a, b = c.args
        return T.ite(T.le(0, b), T.abs_(a), T.neg(T.abs_(a)))
    return NOTHANDLED


def m_intrin(c):
    ex, st = c.ex, c.st
    p = c.name.split(".")
    k = p[1]
    if k in ("memcpy", "memmove"):
        ex.memcpy(c.args[0], c.args[1], asint(c.args[2]), st)
        return None
    if k == "memset":
        ex.memset(c.args[0], c.args[1], asint(c.args[2]), st)
        return None
    if k in ("umul", "uadd", "usub", "smul", "sadd", "ssub") and p[2] == "with":
        op = {"mul": "mul", "add": "add", "sub": "sub"}[k[1:]]
        bits = int(p[4][1:])
        v = ex.ibin(op, c.args[0], c.args[1], ('i', bits), st)
        if T.is_num(v) and T.is_num(c.args[0]) and T.is_num(c.args[1]):
            return (v, False)
        return (v, False)
    if k == "expect":
        return c.args[0]
    if k == "is":
        return False
    if k == "objectsize":
        return -1
    if k == "threadlocal":
        return c.args[0]
    if k == "trap":
        ex.oblige("trap", False, st)
        raise Dead()
    if k == "eh":
        return 0
    if k in ("assume",):
        return None
    return m_math(c)


_n = [0]


def m_new(c):
    ex, st = c.ex, c.st
    n = asint(c.args[-1] if c.dem.startswith("aligned_alloc") else c.args[0])
    if c.dem.startswith("calloc"):
        n = T.mul(asint(c.args[0]), asint(c.args[1]))
    h = ex.opts.get("alloc")
    if h:
        r = h(c, n)
        if r is not None:
            return r
    _n[0] += 1
    if isinstance(n, int):
        o = Obj("heap%d" % _n[0], n)
        s = st.wos(o)
        if c.dem.startswith("calloc"):
            s.ranges = (("zero", 0, n),)
        return Ptr(o, 0)
    # symbolic size: an array; stride from the context or 8
    stride = ex.opts.get("heap_stride", 8)
    o = Obj("heap%d" % _n[0], None, kind="array", stride=stride, length=None)
    o.meta["fields"] = [(i, 8, DBL) for i in range(0, stride, 8)]
    o.length = ex.exact_div(n, stride)
    o.meta["fresh"] = True
    o.elem = lambda i, f, t: UNDEF
    st.wos(o)
    return Ptr(o, 0)


def m_free(c):
    ex, st = c.ex, c.st
    p = c.args[0]
    for g, q in (p.alts if isinstance(p, GV) else [(True, p)]):
        if isinstance(q, Ptr) and q.obj is not None and g is True:
            if st.os(q.obj).freed:
                ex.oblige("double free", False, st)
            st.wos(q.obj).freed = True
    return None


def m_throw(c):
    if c.dem == "__cxa_throw" and isinstance(c.args[1], (Ptr, FnPtr)) and "bad_alloc" in str(getattr(c.args[1], "obj", c.args[1])):
        raise Dead()       # sizes stay below allocation limits (assumed)
    h = c.ex.opts.get("on_throw")
    if h:
        h(c)
    else:
        c.ex.oblige("no exception (%s)" % c.dem[:60], False, c.st)
    raise Dead()


def m_assert(c):
    c.ex.oblige("assertion", False, c.st)
    raise Dead()


def m_guard_acquire(c):
    # static local initialised on first use: run the initialiser (its effect is the same whichever call runs it)
    return 1


def m_nop(c):
    return None


def m_zero(c):
    return 0


def m_badalloc(c):
    """allocation limits are not reached"""
    raise Dead()


def m_memcmp(c):
    return NOTHANDLED


def m_nextafter(c):
    raise Unsupported(c.dem)


BASE = [
    (r"^llvm\.", m_intrin, None),
    (r"^(sin|cos|tan|exp|log|pow|sqrt|atan2|atan|asin|acos|fabs|floor|ceil|hypot|fmin|fmax|cbrt)$", m_math,
     "libm: exact real functions"),
    (r"^operator new(\[\])?\(|^malloc$|^aligned_alloc$|^calloc$", m_new, "allocation succeeds and returns fresh memory"),
    (r"^operator delete(\[\])?\(|^free$", m_free, "deallocation"),
    (r"^(memcpy|memmove)$", lambda c: c.ex.memcpy(c.args[0], c.args[1], asint(c.args[2]), c.st), None),
    (r"^memset$", lambda c: c.ex.memset(c.args[0], c.args[1], asint(c.args[2]), c.st), None),
    (r"^Eigen::internal::throw_std_bad_alloc|^std::__throw_(bad_alloc|length_error|bad_array_new_length)", m_badalloc,
     "sizes stay below allocation limits"),
    (r"^std::__throw|^__cxa_throw$|^std::terminate|^__cxa_rethrow|^abort$", m_throw, None),
    (r"^__cxa_allocate_exception$", lambda c: Ptr(Obj("exc", 64), 0), None),
    (r"^__assert_fail$", m_assert, None),
    (r"^__cxa_guard_acquire$", m_guard_acquire, "static locals are initialised once"),
    (r"^__cxa_guard_(release|abort)$|^__cxa_atexit$|^__cxa_begin_catch$|^__cxa_end_catch$|^omp_|^printf$|^puts$", m_nop,
     None),
]
