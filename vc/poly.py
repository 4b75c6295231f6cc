"""Exact normal forms in the ring of polynomials / rational functions over Q.

Atoms are terms that are not ring operations.  Known relations between atoms
(sin^2+cos^2=1, sqrt(t)^2=t, user supplied) are applied as rewrite rules.
"""
from fractions import Fraction
from . import terms as T
from .terms import Term


class TooBig(Exception):
    pass


LIMIT = 400000


class Ring:
    """Polynomials are dicts {monomial: coef}; a monomial is a sorted tuple of (atom-index, exponent)."""

    def __init__(self, rules=None):
        self.idx = {}
        self.atoms = []
        self.inv = {}        # canonical key of denominator -> (inverse atom index, poly)
        self.invpoly = {}    # inverse atom index -> poly
        self.sqr = {}        # atom index -> poly replacing atom^2
        self.memo = {}
        self.byfn = {}
        self.rules = rules or {}   # Term -> Term replacing it (definitions)
        self.square_rules = []     # (matcher)

    def atom(self, t):
        i = self.idx.get(t.id)
        if i is None and t.op.startswith(("fn:", "app:")) and t.args:
            # congruence: the same function of equal arguments is the same atom
            for x in t.args:
                if T.sort_of(x) != "B":
                    self.norm(x)
            if t.id in self.idx:
                return self.idx[t.id]
            for u in self.byfn.setdefault((t.op, len(t.args)), []):
                if all(x is y or (T.sort_of(x) != "B" and T.sort_of(y) != "B" and
                                  self.is_zero(self.add(self.norm(x), self.norm(y), Fraction(-1))))
                       for x, y in zip(t.args, u.args)):
                    self.idx[t.id] = self.idx[u.id]
                    return self.idx[u.id]
            self.byfn[(t.op, len(t.args))].append(t)
        if i is None:
            i = len(self.atoms)
            self.idx[t.id] = i
            self.atoms.append(t)
            if t.op == "fn:cos":
                s = T.fn("sin", *t.args)
                si = self.atom(s) if s.op == "fn:sin" else None
                if si is not None:
                    self.sqr[i] = {(): Fraction(1), ((si, 2),): Fraction(-1)}
                else:  # sin normalised to  -sin(...)
                    a = s.args[1]
                    si = self.atom(a)
                    self.sqr[i] = {(): Fraction(1), ((si, 2),): Fraction(-1)}
            elif t.op == "fn:sqrt":
                self.sqr[i] = None  # filled lazily
                self.sqr[i] = self.norm(t.args[0])
        return i

    # -- polynomial arithmetic
    def const(self, c):
        return {(): Fraction(c)} if c != 0 else {}

    def add(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mmul(self, m, n):
        if not m:
            return n
        if not n:
            return m
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items()))

    def reduce_mono(self, m, c):
        """apply square rules -> poly"""
        for a, e in m:
            if e >= 2 and self.sqr.get(a) is not None:
                rest = tuple((x, y) for x, y in m if x != a)
                p = self.sqr[a]
                q = e // 2
                base = rest if e % 2 == 0 else tuple(sorted(rest + ((a, 1),)))
                r = {base: c}
                for _ in range(q):
                    r = self.mul(r, p)
                return r
        return {m: c}

    def mul(self, a, b):
        if not a or not b:
            return {}
        if len(a) * len(b) > 4 * LIMIT:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mmul(m, n)
                v = c * d
                if any(e >= 2 and self.sqr.get(x) is not None for x, e in k):
                    for kk, vv in self.reduce_mono(k, v).items():
                        w = r.get(kk, 0) + vv
                        if w:
                            r[kk] = w
                        else:
                            r.pop(kk, None)
                else:
                    w = r.get(k, 0) + v
                    if w:
                        r[k] = w
                    else:
                        r.pop(k, None)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def scale(self, k, a):
        return {m: k * c for m, c in a.items()} if k else {}

    # -- terms
    def norm(self, t):
        if not isinstance(t, Term):
            return self.const(Fraction(t))
        r = self.memo.get(t.id)
        if r is None:
            r = self._norm(t)
            self.memo[t.id] = r
        return r

    def _norm(self, t):
        if t in self.rules:
            return self.norm(self.rules[t])
        op = t.op
        if op == "+":
            r = self.const(t.args[0])
            for x, k in t.args[1]:
                r = self.add(r, self.norm(x), Fraction(k))
            return r
        if op == "*c":
            return self.scale(Fraction(t.args[0]), self.norm(t.args[1]))
        if op == "*":
            r = self.norm(t.args[0])
            for x in t.args[1:]:
                r = self.mul(r, self.norm(x))
            return r
        if op == "toreal":
            return self.norm(t.args[0])
        if op == "/":
            n = self.norm(t.args[0])
            return self.mul(n, self.inverse(self.norm(t.args[1])))
        i = self.atom(t)
        return {((i, 1),): Fraction(1)}

    def inverse(self, p):
        if not p:
            raise ZeroDivisionError
        if len(p) == 1 and () in p:
            return {(): 1 / p[()]}
        if len(p) == 1:
            (m, c), = p.items()
            # product of atoms: invert each atom
            r = {(): 1 / c}
            for a, e in m:
                r = self.mul(r, {((self.inv_of({((a, 1),): Fraction(1)}), e),): Fraction(1)})
            return r
        lead = min(p)
        c = p[lead]
        q = {m: v / c for m, v in p.items()}
        return {((self.inv_of(q), 1),): 1 / c}

    def inv_of(self, q):
        key = tuple(sorted(q.items()))
        i = self.inv.get(key)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(("inv", q))
            self.inv[key] = i
            self.invpoly[i] = q
        return i

    def is_zero(self, p):
        """zero as a rational function (all denominators nonzero)"""
        while p:
            invs = [a for m in p for a, e in m if a in self.invpoly]
            if not invs:
                return False
            a = max(invs)           # later inverses may contain earlier ones in their polys
            q = self.invpoly[a]
            dmax = max(e for m in p for x, e in m if x == a)
            r = {}
            pw = [self.const(1)]
            for _ in range(dmax):
                pw.append(self.mul(pw[-1], q))
            groups = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                rest = tuple((x, y) for x, y in m if x != a)
                groups.setdefault(e, {})[rest] = c
            for e, g in groups.items():
                r = self.add(r, self.mul(g, pw[dmax - e]))
            p = r
        return True

    def equal(self, a, b):
        return self.is_zero(self.add(self.norm(a), self.norm(b), Fraction(-1)))


def equal(a, b, rules=None):
    try:
        return Ring(rules).equal(a, b)
    except (TooBig, ZeroDivisionError):
        return False
