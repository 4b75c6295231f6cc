"""Discharging formulas: z3 in process for quick questions, z3 and cvc5 as processes for obligations."""
import os, subprocess, time, tempfile, shutil
from fractions import Fraction
import z3
from . import terms as T
from .terms import Term

SORT = {"I": "Int", "R": "Real", "B": "Bool"}
STATS = {"taylor": [0, 0.0], "z3": [0, 0.0], "cvc5": [0, 0.0], "z3-quick": [0, 0.0], "ring": [0, 0.0], "syntactic": [0, 0.0]}


def stat(b, dt):
    STATS[b][0] += 1
    STATS[b][1] += dt


# ------------------------------------------------------------------ axioms for function symbols
def axioms(roots, extra=()):
    """sound facts about the function applications that occur in the roots (fixpoint)"""
    out = []
    done = set()
    work = list(roots) + list(extra)
    while work:
        new = []
        for t in T.subterms(work):
            if t.id in done:
                continue
            done.add(t.id)
            if t.lo is not None and (t.op == "sym" or t.op.startswith("app:")):
                out.append(T.mk("le", (t.lo, t), "B"))
            if t.op in ("fn:sin", "fn:cos"):
                s, c = T.mk("fn:sin", t.args, "R"), T.mk("fn:cos", t.args, "R")
                f = T.eq(T.add(T.mul(s, s), T.mul(c, c)), Fraction(1))
                new += [f, T.le(t, Fraction(1)), T.le(Fraction(-1), t)]
            elif t.op == "fn:sqrt":
                a = t.args[0]
                new.append(T.implies(T.le(Fraction(0), a),
                                     T.and_(T.le(Fraction(0), t), T.eq(T.mul(t, t), a))))
            elif t.op == "fn:exp":
                new.append(T.lt(Fraction(0), t))
            elif t.op == "fn:pow":
                new.append(T.implies(T.lt(Fraction(0), t.args[0]), T.lt(Fraction(0), t)))
            elif t.op == "fn:floor":
                x = T.toreal(t)
                new.append(T.and_(T.le(x, t.args[0]), T.lt(t.args[0], T.add(x, Fraction(1)))))
            elif t.op == "fn:trunc":
                x, a, z = T.toreal(t), t.args[0], Fraction(0)
                new.append(T.implies(T.le(z, a), T.and_(T.le(0, t), T.le(x, a), T.lt(a, T.add(x, Fraction(1))))))
                new.append(T.implies(T.lt(a, z), T.and_(T.le(t, 0), T.le(a, x), T.lt(T.sub(x, Fraction(1)), a))))
            elif t.op == "idiv" and T.is_num(t.args[1]) and t.args[1] > 0:
                a, b = t.args
                # truncation toward zero
                new.append(T.implies(T.le(0, a), T.and_(T.le(T.scale(b, t), a), T.lt(a, T.add(T.scale(b, t), b)))))
                new.append(T.implies(T.lt(a, 0), T.and_(T.le(a, T.scale(b, t)), T.lt(T.sub(T.scale(b, t), b), a))))
        out += new
        work = new
    return out


# ------------------------------------------------------------------ in-process z3
_zm = {}
_ZS = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}


def znum(x, sort=None):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, Fraction) or sort == "R":
        x = Fraction(x)
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    return z3.IntVal(x)


def zt(t, sort=None):
    if not isinstance(t, Term):
        return znum(t, sort)
    r = _zm.get(t.id)
    if r is not None:
        return r
    r = _zt(t)
    _zm[t.id] = r
    return r


def _zt(t):
    op, a = t.op, t.args
    if op == "sym":
        return z3.Const(a[0], _ZS[t.sort])
    if op == "+":
        xs = [zt(x, t.sort) if k == 1 else znum(k, t.sort) * zt(x, t.sort) for x, k in a[1]]
        if a[0] != 0:
            xs.append(znum(a[0], t.sort))
        return z3.Sum(xs)
    if op == "*c":
        return znum(a[0], t.sort) * zt(a[1], t.sort)
    if op == "*":
        r = zt(a[0], t.sort)
        for x in a[1:]:
            r = r * zt(x, t.sort)
        return r
    if op == "/":
        return zt(a[0], "R") / zt(a[1], "R")
    if op in ("idiv", "imod"):
        if op == "idiv":
            f = z3.Function("$idiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
        else:
            f = z3.Function("$imod", z3.IntSort(), z3.IntSort(), z3.IntSort())
        return f(zt(a[0]), zt(a[1]))
    if op == "toreal":
        return z3.ToReal(zt(a[0]))
    if op == "not":
        return z3.Not(zt(a[0]))
    if op == "and":
        return z3.And([zt(x) for x in a])
    if op == "or":
        return z3.Or([zt(x) for x in a])
    if op == "ite":
        return z3.If(zt(a[0]), zt(a[1], t.sort), zt(a[2], t.sort))
    if op == "iff":
        return zt(a[0]) == zt(a[1])
    if op == "eq0":
        s = T.sort_of(a[0])
        return zt(a[0]) == znum(0, s)
    if op == "le":
        s = T._asort(a[0], a[1])
        return zt(a[0], s) <= zt(a[1], s)
    if op == "lt":
        s = T._asort(a[0], a[1])
        return zt(a[0], s) < zt(a[1], s)
    if op == "sum":
        return z3.Const("$sum%d" % t.id, _ZS[t.sort])
    if op.startswith("fn:") or op.startswith("app:"):
        ss = [T.sort_of(x) for x in a]
        f = z3.Function(op, *([_ZS[s] for s in ss] + [_ZS[t.sort]]))
        return f(*[zt(x, s) for x, s in zip(a, ss)])
    if op == "forall":
        # args: (vars tuple, body)
        vs = [zt(v) for v in a[0]]
        return z3.ForAll(vs, zt(a[1]))
    if op in ("minf", "maxf"):
        return z3.Const("$%s%d" % (op, t.id), _ZS[t.sort])
    if op in ("ishr",):
        f = z3.Function(op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        return f(zt(a[0]), zt(a[1]))
    raise ValueError(op)


def forall(vs, body):
    if isinstance(body, bool):
        return body
    # a symbol that is nonnegative by declaration keeps that as an explicit condition under the quantifier
    out = []
    for v in vs:
        if v.lo is not None:
            u = T.fresh("b", v.sort)
            body = T.implies(T.le(v.lo, u), T.subst(body, {v: u}))
            out.append(u)
        else:
            out.append(v)
    return T.mk("forall", (tuple(out), body), "B")


QUICK_TIMEOUT = 400

_flat = {}


def flat(f):
    """sums and folds as applications of a function (one per body) to the length and the free symbols of the body:
    sound also where a quantified variable occurs in them"""
    if not isinstance(f, Term):
        return f
    r = _flat.get(f.id)
    if r is None:
        m = {}
        for t in T.subterms([f]):
            if t.op in ("sum", "minf", "maxf"):
                n = t.args[1] if t.op == "sum" else t.args[2]
                key = "%s.%s" % (t.op, ".".join(str(x.id) if isinstance(x, Term) else str(x) for x in (t.args[:1] if t.op == "sum" else t.args[:2])))
                free = [y for y in T.symbols(*[x for x in (t.args[:1] if t.op == "sum" else t.args[:2]) if isinstance(x, Term)]) if y is not T.KVAR]
                m[t] = T.mk("app:$" + key, tuple([n] + sorted(free, key=lambda y: y.id)), t.sort)
        r = f
        if m:
            for _ in range(4):
                r = T.subst(r, m)
                if not any(t.op in ("sum", "minf", "maxf") for t in T.subterms([r])):
                    break
        _flat[f.id] = r
    return r


def check_sat(fs, timeout=None, ax=True):
    """-> 'sat' | 'unsat' | 'unknown' """
    t0 = time.time()
    fs = [flat(f) for f in fs if f is not True]
    if any(f is False for f in fs):
        return "unsat"
    s = z3.Solver()
    s.set("timeout", timeout or QUICK_TIMEOUT)
    if ax:
        fs = fs + [x for x in axioms(fs) if x is not True]
    for f in fs:
        s.add(zt(f))
    r = s.check()
    stat("z3-quick", time.time() - t0)
    return str(r)


_symc = {}


def tsyms(t):
    """symbols and uninterpreted heads of a formula (for relevance)"""
    r = _symc.get(t.id)
    if r is None:
        r = set()
        for x in T.subterms([t]):
            if x.op == "sym":
                r.add(x.args[0])
            elif x.op.startswith("app:"):
                r.add(x.op)
            elif x.op in ("sum", "minf", "maxf"):
                r.add("$%d" % x.id)
            elif x.op == "forall":
                r |= tsyms(x.args[1]) - {v.args[0] for v in x.args[0]} if isinstance(x.args[1], Term) else set()
        r = frozenset(r)
        _symc[t.id] = r
    return r


def relevant(facts, goals):
    want = set()
    for g in goals:
        if isinstance(g, Term):
            want |= tsyms(g)
    left = [f for f in facts if isinstance(f, Term)]
    out = [f for f in facts if f is False]
    ch = True
    while ch:
        ch = False
        rest = []
        for f in left:
            s = tsyms(f)
            if s & want or not s:
                out.append(f)
                if not s <= want:
                    want |= s
                    ch = True
            else:
                rest.append(f)
        left = rest
    return out


def quick(facts, pc, c, timeout=400):
    """facts and pc imply c?  (False: not shown)"""
    goals = list(pc) + ([T.not_(c)] if not isinstance(c, bool) else ([] if c is False else [False]))
    fs = relevant(facts, goals) + goals
    plain = [f for f in fs if not (isinstance(f, Term) and _quant(f))]
    if len(plain) < len(fs) and check_sat(plain, timeout) == "unsat":
        return True
    return check_sat(fs, timeout) == "unsat"


_qc = {}


def _quant(f):
    r = _qc.get(f.id)
    if r is None:
        r = _qc[f.id] = any(x.op == "forall" for x in T.subterms([f]))
    return r


def model(fs, timeout=5000):
    s = z3.Solver()
    s.set("timeout", timeout)
    fs = [flat(f) for f in fs if f is not True]
    fs = fs + [x for x in axioms(fs) if x is not True]
    for f in fs:
        if f is False:
            return None
        s.add(zt(f))
    if s.check() == z3.sat:
        return s.model()
    return None


# ------------------------------------------------------------------ SMT-LIB printing for external solvers
def _q(x, sort):
    if isinstance(x, bool):
        return "true" if x else "false"
    if sort == "R" or isinstance(x, Fraction):
        x = Fraction(x)
        s = "%d.0" % abs(x.numerator) if x.denominator == 1 else "(/ %d.0 %d.0)" % (abs(x.numerator), x.denominator)
        return "(- %s)" % s if x < 0 else s
    return str(x) if x >= 0 else "(- %d)" % -x


def smt2(fs, logic="ALL", produce_models=False):
    fs = [flat(f) for f in fs if f is not True]
    decl, lines, name = {}, [], {}
    nl = [False]

    def ident(s):
        return "|%s|" % s.replace("|", "!").replace("\\", "!")

    order = []
    seen = set()

    def visit(root):
        stack = [(root, False)]
        while stack:
            t, post = stack.pop()
            if post:
                order.append(t)
                continue
            if t.id in seen:
                continue
            seen.add(t.id)
            stack.append((t, True))
            if t.op == "forall":
                continue
            if t.op in ("sum", "minf", "maxf"):
                continue
            for c in T.children(t):
                if c.id not in seen:
                    stack.append((c, False))

    refs = {}
    for f in fs:
        if isinstance(f, Term):
            visit(f)

    def ref(x, sort=None):
        if not isinstance(x, Term):
            return _q(x, sort)
        return name[x.id]

    def expr(t, ref):
        op, a = t.op, t.args
        if op == "+":
            xs = []
            if a[0] != 0:
                xs.append(_q(a[0], t.sort))
            for x, k in a[1]:
                xs.append(ref(x, t.sort) if k == 1 else "(* %s %s)" % (_q(k, t.sort), ref(x, t.sort)))
            return "(+ %s)" % " ".join(xs) if len(xs) > 1 else xs[0]
        if op == "*c":
            return "(* %s %s)" % (_q(a[0], t.sort), ref(a[1], t.sort))
        if op == "*":
            return "(* %s)" % " ".join(ref(x, t.sort) for x in a)
        if op == "/":
            return "(/ %s %s)" % (ref(a[0], "R"), ref(a[1], "R"))
        if op in ("idiv", "imod", "ishr"):
            decl["$" + op] = "(declare-fun |$%s| (Int Int) Int)" % op
            return "(|$%s| %s %s)" % (op, ref(a[0]), ref(a[1]))
        if op == "toreal":
            return "(to_real %s)" % ref(a[0])
        if op == "not":
            return "(not %s)" % ref(a[0])
        if op in ("and", "or"):
            return "(%s %s)" % (op, " ".join(ref(x) for x in a))
        if op == "ite":
            return "(ite %s %s %s)" % (ref(a[0]), ref(a[1], t.sort), ref(a[2], t.sort))
        if op == "iff":
            return "(= %s %s)" % (ref(a[0]), ref(a[1]))
        if op == "eq0":
            return "(= %s %s)" % (ref(a[0]), _q(0, T.sort_of(a[0])))
        if op in ("le", "lt"):
            s = T._asort(a[0], a[1])
            return "(%s %s %s)" % ("<=" if op == "le" else "<", ref(a[0], s), ref(a[1], s))
        if op.startswith("fn:") or op.startswith("app:"):
            ss = [T.sort_of(x) for x in a]
            key = op + "/" + "".join(ss)
            decl[key] = "(declare-fun %s (%s) %s)" % (ident(key), " ".join(SORT[s] for s in ss), SORT[t.sort])
            if not a:
                return ident(key)
            return "(%s %s)" % (ident(key), " ".join(ref(x, s) for x, s in zip(a, ss)))
        raise ValueError(op)

    def inline(t, bound):
        if not isinstance(t, Term):
            return _q(t, None)
        if t.id in bound:
            return bound[t.id]
        if t.op == "sym":
            n = ident(t.args[0])
            decl[t.args[0]] = "(declare-const %s %s)" % (n, SORT[t.sort])
            return n
        if t.op == "forall":
            return quant(t, bound)
        if t.op in ("sum", "minf", "maxf"):
            n = "|$%s%d|" % (t.op, t.id)
            decl[n] = "(declare-const %s %s)" % (n, SORT[t.sort])
            return n

        def r(x, sort=None):
            if not isinstance(x, Term):
                return _q(x, sort)
            return inline(x, bound)
        return expr(t, r)

    def quant(t, bound):
        vs, body = t.args
        b = dict(bound)
        ds = []
        for v in vs:
            n = ident("q_" + v.args[0])
            b[v.id] = n
            ds.append("(%s %s)" % (n, SORT[v.sort]))
        return "(forall (%s) %s)" % (" ".join(ds), inline(body, b))

    for t in order:
        if t.op == "sym":
            n = ident(t.args[0])
            decl[t.args[0]] = "(declare-const %s %s)" % (n, SORT[t.sort])
            name[t.id] = n
        elif t.op in ("sum", "minf", "maxf"):
            n = "|$%s%d|" % (t.op, t.id)
            decl[n] = "(declare-const %s %s)" % (n, SORT[t.sort])
            name[t.id] = n
        elif t.op == "forall":
            name[t.id] = quant(t, {})
        else:
            e = expr(t, ref)
            if len(e) < 40 or t.sort == "B" and len(e) < 60:
                name[t.id] = e
            else:
                n = "t%d" % t.id
                lines.append("(define-fun %s () %s %s)" % (n, SORT[t.sort], e))
                name[t.id] = n
    out = ["(set-logic %s)" % logic]
    out += list(decl.values())
    out += lines
    for f in fs:
        out.append("(assert %s)" % (ref(f) if isinstance(f, Term) else _q(f, None)))
    out.append("(check-sat)")
    return "\n".join(out) + "\n"


Z3BIN = shutil.which("z3-new") or shutil.which("z3")
CVC5BIN = shutil.which("cvc5")


def external(text, timeout, which=("z3", "cvc5"), keep=None):
    """run the solvers in parallel; -> (answer, backend, seconds)"""
    d = tempfile.mkdtemp(prefix="vc_")
    try:
        p = os.path.join(d, "q.smt2")
        with open(p, "w") as f:
            f.write(text)
        procs = []
        t0 = time.time()
        for w in which:
            if w == "z3":
                cmd = [Z3BIN, "-T:%d" % max(1, int(timeout)), p]
            elif w == "z3nl":
                cmd = [Z3BIN, "-T:%d" % max(1, int(timeout)), "smt.arith.solver=2", p]
            elif w == "cvc5":
                cmd = [CVC5BIN, "--tlimit=%d" % int(timeout * 1000), p]
            elif w == "cvc5nl":
                cmd = [CVC5BIN, "--tlimit=%d" % int(timeout * 1000), "--nl-ext-tplanes", p]
            procs.append((w, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        ans, who = "unknown", None
        live = list(procs)
        while live and time.time() - t0 < timeout + 2:
            for w, pr in list(live):
                if pr.poll() is not None:
                    live.remove((w, pr))
                    o = (pr.stdout.read() or "").strip().splitlines()
                    o = [x for x in o if x in ("sat", "unsat", "unknown")]
                    if o and o[0] in ("sat", "unsat"):
                        ans, who = o[0], w
                        live = []
                        break
            else:
                time.sleep(0.005)
        for w, pr in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
            pr.stdout.close()
        dt = time.time() - t0
        if who:
            stat("z3" if who.startswith("z3") else "cvc5", dt)
        return ans, who, dt
    finally:
        shutil.rmtree(d, ignore_errors=True)
