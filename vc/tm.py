"""Taylor models: bounds of an expression of two variables over a box, rigorous including rounding.

value(u, v) = sum c[i,j] u^i v^j + r,  u, v in [-1, 1], |r| <= e"""
import math
from fractions import Fraction
import numpy as np
from . import terms as T
from .terms import Term

NI, NJ = 9, 5
U = 2.0 ** -52
UP = 1 + 1e-12


class Fail(Exception):
    pass


class TM:
    __slots__ = ("c", "e")

    def __init__(s, c, e=0.0):
        s.c, s.e = c, e

    @staticmethod
    def const(x):
        c = np.zeros((NI, NJ))
        c[0, 0] = float(x)
        return TM(c, abs(float(x)) * U)

    def norm(s):
        return (float(np.abs(s.c).sum()) + s.e) * UP

    def spread(s):
        """bound of |value - c00|"""
        return (float(np.abs(s.c).sum()) - abs(float(s.c[0, 0])) * (1 - 1e-12) + s.e) * UP

    def range(s):
        m, d = float(s.c[0, 0]), s.spread()
        return m - d, m + d

    def __add__(s, o):
        if not isinstance(o, TM):
            o = TM.const(o)
        c = s.c + o.c
        return TM(c, (s.e + o.e + U * float(np.abs(c).sum())) * UP)

    def scale(s, k):
        k = float(k)
        c = s.c * k
        return TM(c, (s.e * abs(k) + 2 * U * float(np.abs(c).sum())) * UP)      # 2: k itself may be rounded

    def __neg__(s):
        return TM(-s.c, s.e)

    def __sub__(s, o):
        return s + (-o if isinstance(o, TM) else -o)

    def __mul__(s, o):
        c = np.zeros((2 * NI - 1, 2 * NJ - 1))
        for i in range(NI):
            for j in range(NJ):
                x = s.c[i, j]
                if x:
                    c[i:i + NI, j:j + NJ] += x * o.c
        cut = float(np.abs(c).sum()) - float(np.abs(c[:NI, :NJ]).sum())
        na, nb = s.norm(), o.norm()
        e = na * o.e + nb * s.e + max(cut, 0.0) + (NI * NJ + 8) * U * na * nb
        return TM(c[:NI, :NJ].copy(), e * UP)

    def series(s, c0, coef, rem):
        """sum coef[k] d^k, d = s - c0 ; rem(D): bound of the truncated tail"""
        d = s - TM.const(c0)
        D = d.norm()
        r = TM.const(coef[-1])
        for a in reversed(coef[:-1]):
            r = r * d + TM.const(a)
        return TM(r.c, (r.e + rem(D)) * UP)

    def inv(s):
        a = float(s.c[0, 0])
        if a == 0:
            raise Fail("division by a range around zero")
        n = 14
        def rem(D):
            q = D / abs(a) * UP
            if q >= 0.9:
                raise Fail("division by a range too close to zero")
            return q ** (n + 1) / (1 - q) / abs(a) + 4 * U * sum(q ** k for k in range(n + 1)) / abs(a) * n
        return s.series(a, [(-1) ** k / a ** (k + 1) for k in range(n + 1)], rem)

    def sqrt(s):
        a = float(s.c[0, 0])
        if a <= 0:
            raise Fail("root of a range reaching zero")
        n = 14
        co, b = [], 1.0
        for k in range(n + 1):
            co.append(b * math.sqrt(a) / a ** k)
            b *= (0.5 - k) / (k + 1)
        def rem(D):
            q = D / a * UP
            if q >= 0.9:
                raise Fail("root of a range too close to zero")
            return math.sqrt(a) * (q ** (n + 1) / (1 - q) + 8 * n * U * sum(q ** k for k in range(n + 1)))
        return s.series(a, co, rem)

    def trig(s, which):
        a = float(s.c[0, 0])
        n = 14
        f = [math.sin(a), math.cos(a), -math.sin(a), -math.cos(a)]
        k0 = 0 if which == "sin" else 1
        co = [f[(k + k0) % 4] / math.factorial(k) for k in range(n + 1)]
        return s.series(a, co, lambda D: D ** (n + 1) / math.factorial(n + 1) * UP + 8 * U * math.exp(D))


class Eval:
    """terms -> Taylor models; given: {Term: TM}; phi: the angle every asin/acos result is close to"""

    def __init__(s, given, phi=None, force=None):
        s.memo = {k.id: v for k, v in given.items()}
        s.phi = phi
        s.force = force or {}

    def cond(s, t):
        """-> True / False / raises"""
        if isinstance(t, bool):
            return t
        if t in s.force:
            return s.force[t]
        if t.op == "not":
            return not s.cond(t.args[0])
        if t.op in ("le", "lt"):
            d = s(t.args[1]) - s(t.args[0])
            lo, hi = d.range()
            if lo > 0:
                return True
            if hi < 0:
                return False
            raise Fail("undecided")
        raise Fail("condition " + t.op)

    def __call__(s, t):
        if not isinstance(t, Term):
            return TM.const(t)
        r = s.memo.get(t.id)
        if r is None:
            r = s.ev(t)
            s.memo[t.id] = r
        return r

    def ev(s, t):
        op = t.op
        if op == "+":
            r = TM.const(t.args[0])
            for x, k in t.args[1]:
                r = r + s(x).scale(k)
            return r
        if op == "*c":
            return s(t.args[1]).scale(t.args[0])
        if op == "*":
            r = s(t.args[0])
            for x in t.args[1:]:
                r = r * s(x)
            return r
        if op == "/":
            return s(t.args[0]) * s(t.args[1]).inv()
        if op == "fn:sqrt":
            return s(t.args[0]).sqrt()
        if op in ("fn:sin", "fn:cos"):
            return s(t.args[0]).trig(op[3:])
        if op in ("fn:asin", "fn:acos"):
            # asin(x) = phi + arcsin(delta), delta = sin(asin(x) - phi); x >= 0 and 0 <= phi <= pi/2 keep the difference in range
            x = s(t.args[0])
            if x.range()[0] < -1e-3 or x.range()[1] > 0.999:
                raise Fail("inverse function outside its safe range")
            y = (TM.const(1) - x * x).sqrt()
            sp, cp = s.phi.trig("sin"), s.phi.trig("cos")
            d = x * cp - y * sp if op == "fn:asin" else y * cp - x * sp
            D = d.norm()
            if D > 0.3:
                raise Fail("first estimate too far off")
            a = d + (d * d * d).scale(1 / 6.0)
            # |arcsin(d) - d - d^3/6| <= (3/40) d^5 / (1 - d^2)
            return s.phi + TM(a.c, (a.e + 0.1 * D ** 5) * UP)
        if op == "ite":
            try:
                return s(t.args[1] if s.cond(t.args[0]) else t.args[2])
            except Fail as e:
                if str(e) != "undecided":
                    raise
                raise Split(t.args[0])
        if op == "sym":
            raise Fail("free variable %s" % t.args[0])
        raise Fail("operation " + op)


class Split(Exception):
    """a branch condition undecided on this box"""

    def __init__(s, c):
        s.c = c
