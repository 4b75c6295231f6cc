"""Formulas over reals with every nonlinear monomial (in polynomial normal form) replaced by a fresh variable.
Unsatisfiable after the replacement => unsatisfiable."""
from fractions import Fraction
from . import terms as T
from . import poly
from .terms import Term


def linearise(fs):
    """-> list of formulas, or None when the polynomials get too big"""
    ring = poly.Ring()
    mono, itev, out, memo, side = {}, {}, [], {}, []

    def atom_term(i):
        a = ring.atoms[i]
        if not isinstance(a, Term):
            return T.sym("!inv%d" % i, "R")
        if a.op == "ite":
            v = itev.get(i)
            if v is None:
                v = itev[i] = T.sym("!ite%d" % i, "R")
                side.append((a, v))
            return v
        if a.op == "sym":
            return a
        return T.sym("!at%d" % i, "R")

    def lin(t):
        """real term -> linear term over monomial variables"""
        p = ring.norm(t)
        r = Fraction(0)
        for m, c in p.items():
            if not m:
                r = T.add(r, c)
            elif len(m) == 1 and m[0][1] == 1:
                r = T.add(r, T.scale(c, atom_term(m[0][0])))
            else:
                v = mono.get(m)
                if v is None:
                    v = mono[m] = T.sym("!m%d" % len(mono), "R")
                r = T.add(r, T.scale(c, v))
        return r

    def form(f):
        if not isinstance(f, Term):
            return f
        r = memo.get(f.id)
        if r is not None or f.id in memo:
            return r
        op = f.op
        if op == "and":
            r = T.and_(*[form(x) for x in f.args])
        elif op == "or":
            r = T.or_(*[form(x) for x in f.args])
        elif op == "not":
            r = T.not_(form(f.args[0]))
        elif op == "ite":
            r = T.ite(form(f.args[0]), form(f.args[1]), form(f.args[2]))
        elif op == "iff":
            r = T.eq(form(f.args[0]), form(f.args[1]))
        elif op in ("le", "lt") and "R" in (T.sort_of(f.args[0]), T.sort_of(f.args[1])):
            d = lin(T.sub(T.toreal(f.args[0]), T.toreal(f.args[1])))
            r = T.le(d, Fraction(0)) if op == "le" else T.lt(d, Fraction(0))
        elif op == "eq0" and f.args[0].sort == "R":
            r = T.eq(lin(f.args[0]), Fraction(0))
        else:
            r = f
        memo[f.id] = r
        return r

    try:
        out = [form(f) for f in fs]
        done = 0
        while done < len(side):
            a, v = side[done]
            done += 1
            c, x, y = a.args
            c = form(c)
            out.append(T.or_(T.not_(c), T.eq(v, lin(x))))
            out.append(T.or_(c, T.eq(v, lin(y))))
    except (poly.TooBig, ZeroDivisionError):
        return None
    return [f for f in out if f is not True]
