"""Summary of a counted loop: the state after k iterations as a closed expression of k, found from one symbolic
execution of the body and then checked by a second one (induction step)."""
from fractions import Fraction
from . import terms as T
from . import smt
from . import mats
from .terms import Term, KVAR
from .exec import (Ptr, GV, UNDEF, Undef, OS, State, Unsupported, Dead, is_scalar, same, merge_val, FnPtr, Inf, NaN_)


def subst_val(v, m):
    if isinstance(v, Term):
        return T.subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.obj, T.subst(v.off, m)) if isinstance(v.off, Term) else v
    if isinstance(v, tuple):
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, GV):
        from .exec import mkgv
        return mkgv([(T.subst(g, m) if isinstance(g, Term) else g, subst_val(x, m)) for g, x in v.alts])
    return v


def val_terms(v):
    if isinstance(v, Term):
        return [v]
    if isinstance(v, Ptr):
        return [v.off] if isinstance(v.off, Term) else []
    if isinstance(v, tuple):
        return [t for x in v for t in val_terms(x)]
    if isinstance(v, GV):
        return [t for g, x in v.alts for t in ([g] if isinstance(g, Term) else []) + val_terms(x)]
    return []


def mentions(v, syms):
    ts = val_terms(v)
    if not ts or not syms:
        return False
    for t in T.subterms(ts):
        if t in syms or t.op in syms:
            return True
        if t.op in ("sum", "minf", "maxf"):
            for x in T.subterms([y for y in t.args if isinstance(y, Term)]):
                if x in syms or x.op in syms:
                    return True
    return False


def inside_binder(v, K):
    for t in T.subterms(val_terms(v)):
        if t.op in ("sum", "minf", "maxf", "forall"):
            b = t.args[0] if t.op == "sum" else t.args[1]
            if isinstance(b, Term) and any(x is K for x in T.subterms([b])):
                return True
    return False


def delta(n, o):
    """n - o when n is o plus something (through conditionals); None if not of that shape"""
    if n is o:
        return 0
    if isinstance(n, Term) and n.op == "ite":
        a, b = delta(n.args[1], o), delta(n.args[2], o)
        if a is None or b is None:
            return None
        return T.ite(n.args[0], a, b) if not (T.is_num(a) and T.is_num(b) and a == b) else a
    if isinstance(n, Term) and n.op == "+":
        rest = n.args[0]
        got = False
        r = rest
        for x, k in n.args[1]:
            if x is o and k == 1:
                got = True
            elif x.op == "ite" and k == 1 and not got and delta(x, o) is not None:
                got = True
                r = T.add(r, delta(x, o))
            else:
                r = T.add(r, T.scale(k, x))
        if got:
            return r
    return None


def minmax(n, o):
    """n = min(o, e) or max(o, e): -> ('minf'|'maxf', e)"""
    if not (isinstance(n, Term) and n.op == "ite"):
        return None
    c, a, b = n.args
    if a is o or b is o:
        e = b if a is o else a
        # condition under which o is kept
        keep = c if a is o else T.not_(c)
        if keep in (T.le(o, e), T.lt(o, e)) if not isinstance(keep, bool) else False:
            return "minf", e
        if keep in (T.le(e, o), T.lt(e, o)):
            return "maxf", e
    return None


DEBUG = False


class Var:
    def __init__(s, kind, key, init, ty):
        s.kind, s.key, s.init, s.ty = kind, key, init, ty
        s.sym = None      # havoc value
        s.syms = ()
        s.clo = None      # closure: value with K
        s.stride = 1

    def havoc(s):
        v = s.init
        if s.kind == "cell" and s.key[0].kind == "mat":
            s.sym = T.app("mat%d" % next(T._fresh), s.key[0].meta["sort"], T.FV, T.SV)
            s.syms = (s.sym.op,)
            return s.sym
        if isinstance(v, Ptr):
            x = T.fresh("lp", "I")
            s.stride = v.obj.stride if v.obj is not None and v.obj.kind in ("array", "mat") else 1
            s.sym, s.syms = Ptr(v.obj, T.add(v.off, T.scale(s.stride, x)) if s.stride > 1 else x), (x,)
        elif isinstance(v, bool) or isinstance(v, Term) and v.sort == "B":
            x = T.fresh("lb", "B")
            s.sym, s.syms = x, (x,)
        elif isinstance(v, Fraction) or isinstance(v, Term) and v.sort == "R":
            x = T.fresh("lr", "R")
            s.sym, s.syms = x, (x,)
        elif isinstance(v, int) or isinstance(v, Term):
            x = T.fresh("li", "I", getattr(v, "lo", None) if False else None)
            s.sym, s.syms = x, (x,)
        elif isinstance(v, Undef):
            s.sym, s.syms = UNDEF, ()
        elif isinstance(v, (GV, Inf)):
            s.sym, s.syms = UNDEF, ()
        elif isinstance(v, tuple):
            s.sym, s.syms = UNDEF, ()
        else:
            s.sym, s.syms = UNDEF, ()
        return s.sym


def changed_cells(ex, S, B, entry_objs):
    """cells of objects alive at loop entry whose value differs; -> cells set, arrays, trashed objs"""
    cells, arrays, trash = set(), {}, set()
    for o in entry_objs:
        a, b = S.mem.get(o), B.mem.get(o)
        if a is b or b is None:
            continue
        if a is None:
            a = OS()
        if o.kind == "array":
            if a.log != b.log:
                arrays[o] = (a.log, b.log)
            continue
        if a.ranges != b.ranges:
            trash.add(o)
            continue
        for k, (sz, v) in b.cells.items():
            c = a.cells.get(k)
            if c is not None and c[0] == sz:
                if not same(c[1], v):
                    cells.add((o, k, sz))
            elif c is None:
                try:
                    w = ex.cload(o, k, ex.guess_ty(v, sz), sz, State((), {o: a}), raw=True)
                except Unsupported:
                    w = UNDEF
                if not same(w, v):
                    cells.add((o, k, sz))
            else:
                trash.add(o)
        for k in a.cells:
            if k not in b.cells:
                trash.add(o)
    return cells, arrays, trash


def summarise(ex, fr, h, body, st, phis):
    K = T.fresh("k", "I", 0)
    K.lo = 0
    entry_objs = list(st.mem)
    # temporaries of the loop body itself are dead at the loop head: treat as cells like any other
    vars_ = {}
    for nm, v in phis.items():
        vars_[("phi", nm)] = Var("phi", nm, v, None)
    trash = set()
    lost_arrays = set()
    env0 = dict(fr.env)

    def build(assign):
        S = st.fork()
        ph = {}
        for o in trash:
            s = S.wos(o)
            s.cells = {}
            s.ranges = (("undef", 0, None),)
        for key, v in vars_.items():
            val = assign(v)
            if v.kind == "phi":
                ph[v.key] = val
            else:
                o, off, sz = v.key
                if o in trash:
                    continue
                S.wos(o).cells[off] = (sz, val)
        for o in lost_arrays:
            s = S.wos(o)
            s.log = s.log + (("havoc", "!h%d" % next(T._fresh)),)
        return S, ph

    def run(assign, extra=None, amaps=None):
        fr.env = dict(env0)
        S, ph = build(assign)
        if amaps:
            for o, ent in amaps.items():
                s = S.wos(o)
                s.log = s.log + ent
        if extra is not None:
            for c in extra:
                S.assume(c)
        S0 = S.fork()
        for o in list(S0.mem):
            S0.mem[o] = S.mem[o].copy(None)
            S.mem[o] = S0.mem[o].copy(S.tok)
            # keep identity of untouched parts comparable
            if S0.mem[o].cells == {} and False:
                pass
        out = ex.run_dag(fr, body, {h: [(S, ph)]}, h)
        return S0, out, ph

    nobl, nfacts = len(ex.obls), len(ex.facts)
    for rnd in range(8):
        S0, out, ph = run(lambda v: v.havoc())
        del ex.obls[nobl:]
        del ex.facts[nfacts:]
        if not out["back"]:
            # the loop body never comes back: no iteration to summarise
            S0, out, ph = run(lambda v: v.init)
            if out["back"]:
                raise Unsupported("loop comes back only from its first iteration")
            return [(t, s, p) for t, l in out["exits"].items() for s, p in l]
        B, bph = ex._merge(out["back"])
        cells, arrays, tr = changed_cells(ex, S0, B, entry_objs)
        new = [c for c in cells if ("cell",) + c not in vars_ and c[0] not in trash]
        newtr = tr - trash
        if not new and not newtr:
            break
        trash |= newtr
        for o, off, sz in new:
            ty = ex.guess_ty(B.mem[o].cells[off][1], sz)
            try:
                init = ex.cload(o, off, ty, sz, st.fork(), raw=True)
            except Unsupported:
                init = UNDEF
            vars_[("cell", o, off, sz)] = Var("cell", (o, off, sz), init, ty)
    else:
        raise Unsupported("loop: modified cells do not settle")

    allsyms = {x for v in vars_.values() for x in v.syms}

    def newval(v):
        if v.kind == "phi":
            return bph[v.key]
        o, off, sz = v.key
        if o in trash:
            return UNDEF
        c = B.mem[o].cells.get(off)
        if c is None or c[0] != sz:
            return UNDEF
        return c[1]

    resolved = {}   # sym -> term in K

    def unresolved():
        return allsyms - set(resolved)

    # A: inductions, then B..D until nothing changes
    changed = True
    first = True
    while changed:
        changed = False
        un = unresolved()
        for v in vars_.values():
            if v.clo is not None or not v.syms:
                continue
            n = subst_val(newval(v), resolved)
            if v.kind == "cell" and v.key[0].kind == "mat":
                c = mats.close(v, n, un, K, v.init, mentions, delta) if isinstance(n, Term) else None
                if c is not None:
                    v.clo = c
                    resolved[v.syms[0]] = (c, v.key[0].meta["fast"])
                    changed = True
                continue
            if isinstance(v.sym, Ptr):
                if not isinstance(n, Ptr) or n.obj is not v.sym.obj:
                    continue
                if v.stride > 1:
                    d = T.sub(n.off, T.subst(v.sym.off, resolved))
                    if isinstance(d, int) and d % v.stride == 0:
                        v.clo = Ptr(v.sym.obj, T.add(v.init.off, T.scale(d, K)))
                        resolved[v.syms[0]] = T.scale(d // v.stride, K)
                        changed = True
                    continue
                d = delta(n.off, v.syms[0])
                if d is not None and not mentions(d, un | {K}):
                    v.clo = Ptr(v.sym.obj, T.add(v.init.off, T.mul(d, K) if isinstance(d, Term) else T.scale(d, K)))
                    resolved[v.syms[0]] = v.clo.off
                    changed = True
                continue
            if not is_scalar(n):
                continue
            o = v.syms[0]
            d = delta(n, o)
            if d is not None and d is not False and d is not True:
                if not mentions(d, un | {K}):
                    kk = T.toreal(K) if T.sort_of(o) == "R" else K
                    v.clo = T.add(v.init, T.mul(d, kk) if isinstance(d, Term) else T.scale(d, kk))
                    resolved[o] = v.clo
                    changed = True
                    continue
                if first:
                    continue
                if not mentions(d, un):
                    v.clo = T.add(v.init, T.sum_(T.subst(T.lift(d, {K}), {K: KVAR}), K))
                    resolved[o] = v.clo
                    changed = True
                    continue
            if first:
                continue
            if isinstance(n, Term) and n.op == "ite" and n.args[0] is T.eq(K, 0) and n.args[2] is o and not mentions(n.args[1], un):
                # set in the first iteration, kept from then on
                v.clo = T.ite(T.eq(K, 0), v.init, subst_val(n.args[1], {K: 0}))
                resolved[o] = v.clo
                changed = True
                continue
            mm = minmax(n, o)
            if mm and not mentions(mm[1], un) and not inside_binder(mm[1], K):
                v.clo = T.mk(mm[0], (v.init, T.subst(mm[1], {K: KVAR}) if isinstance(mm[1], Term) else mm[1], K),
                             T.sort_of(o))
                resolved[o] = v.clo
                changed = True
                continue
            if not mentions(n, un) and not inside_binder(n, K):
                prev = T.subst(n, {K: T.sub(K, 1)}) if isinstance(n, Term) else n
                v.clo = T.ite(T.eq(K, 0), v.init, prev)
                resolved[o] = v.clo
                changed = True
        if first:
            first = False
            changed = True

    # undefined-before-loop cells: last value written
    for v in vars_.values():
        if v.clo is None and v.init is UNDEF and v.sym is UNDEF:
            v.clo = UNDEF

    # arrays
    un = unresolved()
    amaps = {}
    segs = {}
    for o, (la, lb) in arrays.items():
        tail = lb[len(la):]
        fields = {}
        ok = lb[:len(la)] == la
        base = None
        sg = segments(tail, resolved, un, K) if ok and tail and tail[0][0] == "map" else None
        if sg is not None:
            amaps[o] = sg[0]
            segs[o] = sg
            continue
        if ok:
            for e in tail:
                if e[0] != "w":
                    ok = False
                    break
                _, i, f, sz, val = e
                i = T.subst(i, resolved) if isinstance(i, Term) else i
                val = subst_val(val, resolved)
                if isinstance(val, Term):
                    val = T.lift(val, {K})
                c = T.sub(i, K)
                if mentions(c, un | {K}) or mentions(val, un) or inside_binder(val, K):
                    if DEBUG:
                        print("loop map fails:", o, f, T.show(c) if isinstance(c, Term) else c, [T.show(x) for x in un if mentions(val, {x})],
                              [v.key for v in vars_.values() if any(mentions(val, {x}) for x in v.syms)])
                    ok = False
                    break
                if base is None:
                    base = c
                elif T.eq(base, c) is not True:
                    ok = False
                    break
                # element i = K + c holds val(K):  val as function of the element index
                tmpl = subst_val(val, {K: T.sub(KVAR, c)})
                fields[f] = (sz, tmpl)
        if ok and fields:
            ents = tuple([("map", base, T.add(base, K), {f: (sz, Tmpl(t)) for f, (sz, t) in fields.items()})])
            amaps[o] = ents
        else:
            if DEBUG:
                print("LOST", o, la, lb, segs)
            lost_arrays.add(o)

    def closed(v):
        return v.clo if v.clo is not None else v.sym

    # a counter that goes on while K != n never passes n (n >= 0)
    for c in B.pc:
        if isinstance(c, Term) and c.op == "not" and c.args[0].op == "eq0" and not any(c is x for x in st.pc):
            e = T.subst(c.args[0].args[0], resolved)
            if mentions(e, unresolved()) or not isinstance(e, Term) or e.sort != "I":
                continue
            c0, d = T._lin(e)
            a = d.pop(K, None)
            if a is None or any(mentions(t, {K}) for t in d):
                continue
            n = T.scale(-1 if a > 0 else 1, T._mklin(c0, d, "I"))
            a = abs(a)
            if a != 1:
                n = T.idiv(n, a)
                if isinstance(n, Term) and n.op == "idiv":
                    continue
            if ex.nonneg(n, st):
                ex.fact(T.implies(st.pcond(), T.le(K, n)))
    # induction step: second execution from the closed state
    fr.env = dict(env0)
    G0 = None
    S0, out, ph = run(closed, extra=None, amaps=amaps)
    facts_in = ex.facts[nfacts:]
    if not out["back"]:
        raise Unsupported("loop summary: body does not come back")
    B2, bph2 = ex._merge(out["back"])
    base_pc = st.pc
    G = T.and_(*[c for c in B2.pc if not any(c is x for x in base_pc)])
    un = unresolved()
    # K >= 1 implies the loop went on at K-1; and at every earlier iteration
    if isinstance(G, Term) and not mentions(G, un):
        prevG = T.subst(G, {K: T.sub(K, 1)})
        ex.fact(T.implies(T.and_(T.le(1, K), *[c for c in base_pc if isinstance(c, Term)]), prevG))
        if not inside_binder(G, K):
            j = T.fresh("j", "I", 0)
            conj = G.args if G.op == "and" else (G,)
            data = [c for c in conj if not linear_counter(c, K)]
            if data:
                body_ = T.implies(T.and_(T.le(0, j), T.lt(j, K)), T.subst(T.and_(*data), {K: j}))
                ex.fact(T.implies(st.pcond(), smt.forall((j,), body_)))
    K1 = {K: T.add(K, 1)}
    for v in vars_.values():
        if v.clo is None or v.clo is UNDEF:
            continue
        if v.kind == "phi":
            n = bph2[v.key]
        else:
            o, off, sz = v.key
            if o in trash:
                continue
            n = B2.mem[o].cells[off][1]
        want = subst_val(v.clo, K1)
        if same(n, want):
            continue
        if isinstance(n, Ptr) and isinstance(want, Ptr) and n.obj is want.obj:
            ex.oblige("loop summary step (%s)" % (v.key,), T.eq(n.off, want.off), B2)
        elif is_scalar(n) and is_scalar(want):
            n, want = T.lift(n, {K}), T.lift(want, {K})
            if DEBUG:
                print("STEP", v.key, "\n  NEW", T.show(n, 40)[:3000], "\n  WANT", T.show(want, 40)[:3000], "\n  PC", [T.show(c)[:200] for c in B2.pc])
            S2 = B2
            if v.kind == "cell" and v.key[0].kind == "mat":
                S2 = B2.fork(mats.position(v.key[0]))
            ex.oblige("loop summary step (%s)" % (v.key,), T.eq(n, want), S2)
        else:
            raise Unsupported("loop summary: %s" % (v.key,))
    for o, (la, lb) in changed_cells(ex, S0, B2, [o for o in entry_objs if o.kind == "array"])[1].items():
        if o in lost_arrays:
            continue
        if o not in amaps:
            raise Unsupported("loop summary: array %s changes only in the second execution" % o)
        (_, lo, hi, fields), = amaps[o]
        tail = lb[len(la):]
        if o in segs:
            # one more consecutive segment, same values
            got = segments(tail, {}, un, K, check=False)
            if got is None or set(got[3]) != set(fields) or T.eq(got[1], hi) is not True or T.eq(got[2], T.subst(hi, K1)) is not True:
                raise Unsupported("loop summary: segments of %s" % o)
            ex.oblige("loop summary: segments of %s in order" % o, T.le(got[1], got[2]), B2)
            q = T.fresh("q", "I", 0)
            inr = B2.fork(T.and_(T.le(got[1], q), T.lt(q, got[2])))
            for f, (sz, t) in got[3].items():
                a, b = t(q), fields[f][1](q)
                if same(a, b):
                    continue
                if is_scalar(a) and is_scalar(b):
                    ex.oblige("loop summary step (%s element)" % o, T.eq(a, b), inr)
                else:
                    raise Unsupported("loop summary: segment values of %s" % o)
            continue
        seen = set()
        for e in tail:
            if e[0] != "w" or T.eq(e[1], hi) is not True or e[2] not in fields:
                raise Unsupported("loop summary: write to %s" % o)
            want = fields[e[2]][1](e[1])
            seen.add(e[2])
            if same(want, e[4]):
                continue
            if is_scalar(want) and is_scalar(e[4]):
                ex.oblige("loop summary step (%s element)" % o, T.eq(T.lift(e[4], {K}), T.lift(want, {K})), B2)
            elif isinstance(want, Ptr) and isinstance(e[4], Ptr) and want.obj is e[4].obj:
                ex.oblige("loop summary step (%s element)" % o, T.eq(e[4].off, want.off), B2)
            else:
                raise Unsupported("loop summary: write to %s" % o)
        if seen != set(fields):
            raise Unsupported("loop summary: fields of %s" % o)
    # a cell changed only in the second execution would make the summary wrong
    cells2, _, tr2 = changed_cells(ex, S0, B2, [o for o in entry_objs if o.kind != "array"])
    for c in cells2:
        if ("cell",) + c not in vars_ and c[0] not in trash:
            raise Unsupported("loop summary: %s changes only in the second execution" % (c,))
    if tr2 - trash:
        raise Unsupported("loop summary: ranges change only in the second execution")

    # exits: solve for the number of iterations where the exit condition is a counter condition
    found = []
    for tgt, lst in out["exits"].items():
        for s, p in lst:
            new = [c for c in s.pc if not any(c is x for x in base_pc)]
            sol = None
            for c in new:
                sol = solve_count(ex, c, K, s)
                if sol is not None:
                    break
            found.append([tgt, s, p, sol])
    if len(found) > 1:
        found = unify(ex, found, vars_, trash, K)
    edges = []
    taken = [T.fresh("exit", "B") for _ in found] if len(found) > 1 else [True]
    for (tgt, s, p, sol), e in zip(found, taken):
        if sol is not None:
            m = {K: sol}
            s = subst_state(s, st, m)
            p = {k: subst_val(v, m) for k, v in p.items()}
        if e is not True:
            s.assume(e)
        if sol is not None:
            for f in facts_in + ex.facts[nfacts + len(facts_in):]:
                if mentions(f, {K}) and not any(x in taken for x in T.symbols(f)):
                    ex.facts.append(T.implies(e, T.subst(f, m)))
            ex.fact(T.implies(s.pcond(), T.le(0, sol)))
        if DEBUG:
            print("EDGE", tgt, T.show(sol) if isinstance(sol, Term) else sol, [T.show(c, 30)[:300] for c in s.pc][-5:])
        edges.append((tgt, s, p))
    if len(found) > 1:
        # one of the exits is taken
        ex.facts.append(T.or_(*taken))
        for i in range(len(taken)):
            for j in range(i):
                ex.facts.append(T.not_(T.and_(taken[i], taken[j])))
    ex.loopinfo.append((ex.dem(fr.f.name), h, {str(k): (v.clo if v.clo is not None else "havoc")
                                              for k, v in vars_.items()}))
    return edges


def unify(ex, found, vars_, trash, K):
    """several exits to the same place: where the state at each of them is the closed state after some number of iterations,
    one symbol for that number takes the place of a case distinction"""
    groups = {}
    for f in found:
        groups.setdefault(f[0], []).append(f)
    for tgt, fs in groups.items():
        if len(fs) < 2:
            continue
        vs = [v for v in vars_.values() if v.kind == "cell" and v.clo is not None and v.clo is not UNDEF and v.key[0] not in trash and is_scalar(v.clo)]
        choice, good = [], None
        for _, s, p, sol in fs:
            best = None
            for c in ([K] if sol is not None else [T.add(K, 1), K]):
                ok = set()
                for v in vs:
                    o, off, sz = v.key
                    x = s.mem[o].cells.get(off) if o in s.mem else None
                    if x is None or x[0] != sz or not is_scalar(x[1]):
                        continue
                    w = subst_val(v.clo, {K: c})
                    if same(x[1], w) or ex.implied(T.eq(T.lift(x[1], {K}), T.lift(w, {K})), s, 1500):
                        ok.add(id(v))
                if best is None or len(ok) > len(best[1]):
                    best = (c, ok)
            choice.append(best[0])
            good = best[1] if good is None else good & best[1]
        vs = [v for v in vs if id(v) in good and mentions(v.clo, {K})]
        ps = {}
        for nm in set.intersection(*[set(f[2]) for f in fs]):
            if not all(is_scalar(f[2][nm]) for f in fs) or not any(mentions(f[2][nm], {K}) for f in fs):
                continue
            for v in vars_.values():
                if v.clo is not None and is_scalar(v.clo) and mentions(v.clo, {K}) and all(
                        ex.implied(T.eq(T.lift(f[2][nm], {K}), T.lift(subst_val(v.clo, {K: c}), {K})), f[1], 1500) for f, c in zip(fs, choice)):
                    ps[nm] = v.clo
                    break
        if not vs and not ps:
            continue
        X = T.fresh("cnt", "I", 0)
        for f, c in zip(fs, choice):
            s, sol = f[1], f[3]
            s.assume(T.eq(X, c if sol is None else sol))
            for v in vs:
                o, off, sz = v.key
                s.wos(o).cells[off] = (sz, subst_val(v.clo, {K: X}))
            f[2] = dict(f[2])
            for nm, clo in ps.items():
                f[2][nm] = subst_val(clo, {K: X})
    return found


def segments(tail, resolved, un, K, check=True):
    """writes to consecutive segments [lo(K), lo(K+1)) of an array, with values that do not depend on K otherwise:
    -> (summary entries after K iterations, lo, hi, fields of one iteration)"""
    lo = hi = None
    fields = {}
    for e in tail:
        if e[0] != "map":
            return None
        _, a, b, fl = e
        a = T.subst(a, resolved) if isinstance(a, Term) else a
        b = T.subst(b, resolved) if isinstance(b, Term) else b
        if lo is None:
            lo, hi = a, b
        elif T.eq(a, lo) is not True or T.eq(b, hi) is not True:
            return None
        for f, (sz, t) in fl.items():
            if not isinstance(t, Tmpl):
                return None
            v = subst_val(t.t, resolved)
            if check and (mentions(v, un | {K}) or f in fields):
                return None
            fields[f] = (sz, Tmpl(v))
    if lo is None or not isinstance(lo, Term):
        return None
    if check and (mentions(lo, un) or mentions(hi, un) or not mentions(lo, {K}) or T.eq(hi, T.subst(lo, {K: T.add(K, 1)})) is not True):
        return None
    return ((("map", T.subst(lo, {K: 0}), lo, fields),), lo, hi, fields)


class Tmpl:
    """value as a function of the index (template over KVAR)"""
    __slots__ = ("t",)

    def __init__(s, t):
        s.t = t

    def __call__(s, i):
        return subst_val(s.t, {KVAR: i})

    def __eq__(s, o):
        return s is o or isinstance(o, Tmpl) and (s.t is o.t or same(s.t, o.t))

    def __hash__(s):
        return 0


def linear_counter(c, K):
    if c.op in ("le", "eq0", "lt", "not"):
        x = c.args[0] if c.op != "not" else c.args[0].args[0] if c.args[0].op == "eq0" else None
        if c.op == "not" and x is None:
            return False
        ts = [a for a in (c.args if c.op in ("le", "lt") else (x,)) if isinstance(a, Term)]
        for t in ts:
            _, d = T._lin(t)
            for y in d:
                if y is not K and mentions(y, {K}):
                    return False
        return True
    return False


def solve_count(ex, c, K, s):
    if not isinstance(c, Term):
        return None
    if c.op == "eq0":
        c0, d = T._lin(c.args[0])
        a = d.pop(K, None)
        if a is None or any(mentions(t, {K}) for t in d):
            return None
        rest = T._mklin(c0, d, "I")
        if a in (1, -1):
            return T.scale(-1 if a == 1 else 1, rest)
        r = T.scale(-1, rest)
        x = T.idiv(r, a)
        if not (isinstance(x, Term) and x.op == "idiv"):
            return x
        return None
    if c.op == "le":
        # n <= K  with K the exact count (the loop went on at K-1, so K-1 < n)
        c0, d = T._lin(T.sub(c.args[1], c.args[0]))   # K - n >= 0
        a = d.pop(K, None)
        if a is None or a < 1 or any(mentions(t, {K}) for t in d):
            return None
        if a != 1:
            if c0 % a or any(v % a for v in d.values()):
                return None
            c0, d = c0 // a, {t: v // a for t, v in d.items()}
        n = T.scale(-1, T._mklin(c0, d, "I"))
        if ex.nonneg(n, s) and ex.implied(T.eq(K, n), s, 1500):
            return n
        if ex.implied(T.eq(K, T.ite(T.le(0, n), n, 0)), s, 1500):
            return T.ite(T.le(0, n), n, 0)
    return None


def subst_state(s, st, m):
    n = State(tuple(subst_val(c, m) if isinstance(c, Term) else c for c in s.pc), {})
    pc = []
    for c in n.pc:
        if c is True:
            continue
        if isinstance(c, Term) and c.op == "and":
            pc.extend(c.args)
        else:
            pc.append(c)
    n.pc = tuple(pc)
    for o, v in s.mem.items():
        if st.mem.get(o) is v:
            n.mem[o] = v
            continue
        w = v.copy(n.tok)
        w.cells = {k: (sz, subst_val(x, m)) for k, (sz, x) in v.cells.items()}
        if o.kind == "mat":
            w.cells = {k: (sz, mats.simplify(o, x)) for k, (sz, x) in w.cells.items()}
        w.log = tuple(subst_log(e, m) for e in v.log)
        n.mem[o] = w
    return n


def subst_log(e, m):
    if e[0] == "w":
        return ("w", subst_val(e[1], m), e[2], e[3], subst_val(e[4], m))
    if e[0] == "map":
        return ("map", subst_val(e[1], m), subst_val(e[2], m), {f: (sz, Tmpl(subst_val(c.t, m)) if isinstance(c, Tmpl) else c)
                                                              for f, (sz, c) in e[3].items()})
    if e[0] == "copy":
        return ("copy", subst_val(e[1], m), subst_val(e[2], m), e[3], e[4], subst_val(e[5], m))
    if e[0] == "ite":
        return ("ite", subst_val(e[1], m), tuple(subst_log(x, m) for x in e[2]), tuple(subst_log(x, m) for x in e[3]))
    return e
