"""Obligations: collection, discharge, reporting."""
import time
import traceback
from fractions import Fraction
from . import terms as T
from . import smt, poly, lra
from .terms import Term
from .exec import Ex, State, Unsupported, Dead
from .build import BuildError

EXT_TIMEOUT = 20


def split_goal(c):
    if isinstance(c, Term) and c.op == "and":
        return [y for x in c.args for y in split_goal(x)]
    return [c]


def has_forall(f):
    return isinstance(f, Term) and any(x.op == "forall" for x in T.subterms([f]))


def discharge(facts, pc, cond, timeout=EXT_TIMEOUT, rules=None):
    """-> (status, backend, seconds, detail); status: proved | refuted | unknown"""
    t0 = time.time()
    if cond is True or any(c is False for c in pc):
        smt.stat("syntactic", 0)
        return "proved", "syntactic", 0.0, ""
    if isinstance(cond, Term) and any(x is cond for x in pc):
        smt.stat("syntactic", 0)
        return "proved", "syntactic", 0.0, ""
    if isinstance(cond, Term) and cond.op == "eq0":
        r = poly.equal(cond.args[0], Fraction(0), rules)
        if r:
            dt = time.time() - t0
            smt.stat("ring", dt)
            return "proved", "ring", dt, ""
    goals = list(pc) + ([T.not_(cond)] if isinstance(cond, Term) else [])
    fs = smt.relevant(facts, goals) + goals
    plain = [f for f in fs if not has_forall(f)]
    if len(plain) < len(fs) and smt.check_sat(plain, 1500) == "unsat":
        return "proved", "z3", time.time() - t0, ""
    a = smt.check_sat(fs, 1500)
    if a == "unsat":
        return "proved", "z3", time.time() - t0, ""
    lf = lra.linearise(fs + [x for x in smt.axioms(fs) if x is not True])
    if lf is not None:
        if any(f is False for f in lf) or smt.check_sat(lf, 6000, ax=False) == "unsat":
            smt.stat("z3", time.time() - t0)
            return "proved", "z3-lin", time.time() - t0, ""
    full = fs + [x for x in smt.axioms(fs) if x is not True]
    a2, who, dt = smt.external(smt.smt2(full), timeout, which=("z3", "cvc5", "z3nl"))
    if a2 == "unsat":
        return "proved", who, time.time() - t0, ""
    detail = ""
    if a == "sat" or a2 == "sat":
        m = smt.model(fs, 3000)
        if m is not None:
            detail = "counter-model: " + ", ".join(
                "%s=%s" % (d.name(), str(m[d])[:60]) for d in list(m.decls())[:40] if d.arity() == 0)
        return "refuted", who or "z3", time.time() - t0, detail
    return "unknown", "timeout", time.time() - t0, detail


class Result:
    def __init__(s, name, status, backend, secs, detail, fn):
        s.name, s.status, s.backend, s.secs, s.detail, s.fn = name, status, backend, secs, detail, fn


class Proof:
    """the obligations of one property"""

    def __init__(self, prop):
        self.prop = prop
        self.results = []
        self.trusted = {}
        self.functions = {}
        self.bounded = []
        self.notes = []
        self.loops = []
        self.errors = []

    def function(self, name, how="contract"):
        self.functions[name] = how

    def run(self, fn, func):
        """run a proof part; anything it cannot translate becomes an undischarged obligation"""
        t0 = time.time()
        try:
            func(self)
        except (Unsupported, Dead, BuildError, SyntaxError, KeyError, IndexError, TypeError, ValueError, AttributeError,
                RecursionError, AssertionError, ZeroDivisionError) as e:
            tb = traceback.format_exc()
            kind = "translation of the code" if isinstance(e, (Unsupported, BuildError, SyntaxError)) else "proof script"
            self.results.append(Result(fn + ": " + kind, "untranslatable", "-", time.time() - t0,
                                       "%s: %s\n%s" % (type(e).__name__, e, tb[-1500:]), fn))

    def take(self, ex, fn):
        """discharge the obligations the execution of fn generated"""
        for k, v in ex.trusted.items():
            self.trusted[k] = self.trusted.get(k, 0) + v
        self.loops += ex.loopinfo
        seen = set()
        for name, pc, cond, nf in ex.obls:
            for g in split_goal(cond):
                key = (g.id if isinstance(g, Term) else g, tuple(x.id if isinstance(x, Term) else x for x in pc))
                if key in seen:
                    continue
                seen.add(key)
                st, be, dt, de = discharge(ex.facts[:nf], pc, g)
                self.results.append(Result("%s: %s" % (fn, name), st, be, dt, de, fn))
        ex.obls = []

    def prove(self, fn, name, cond, facts=(), pc=(), timeout=EXT_TIMEOUT, rules=None):
        ok = True
        gs = split_goal(cond)
        for i, g in enumerate(gs):
            st, be, dt, de = discharge(list(facts), list(pc), g, timeout, rules)
            self.results.append(Result("%s: %s%s" % (fn, name, "" if len(gs) == 1 else " [%d]" % i), st, be, dt, de, fn))
            ok = ok and st == "proved"
        return ok

    def prove_any(self, fn, name, conds, facts=(), pc=(), timeout=EXT_TIMEOUT, rules=None):
        """one of several formulations (the same statement up to rounding of a constant)"""
        last = None
        for c in conds:
            last = discharge(list(facts), list(pc), c, timeout, rules)
            if last[0] == "proved":
                break
        self.results.append(Result("%s: %s" % (fn, name), *last, fn))
        return last[0] == "proved"

    def reachable(self, fn, facts, pc):
        """the assumptions are not contradictory (a proof under false assumptions would be worthless)"""
        fs = list(facts) + list(pc)
        a = smt.check_sat(fs, 3000)
        ok = a != "unsat"
        self.results.append(Result(fn + ": assumptions are satisfiable", "proved" if ok else "vacuous", "z3", 0,
                                   "" if ok else "contradictory assumptions", fn))

    def failed(self):
        return [r for r in self.results if r.status != "proved"]
