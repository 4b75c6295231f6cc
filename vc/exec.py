"""Symbolic execution of LLVM IR with merging at joins; loops by unrolling, by the summary rule or by given invariants.

Values: int / Term(I) for integers (canonical signed, mathematical), Fraction / Term(R) for double (exact reals),
bool / Term(B) for i1, Ptr, Undef, tuple (aggregates, vectors), GV (guarded alternatives), Inf, NAN.
"""
import re
from fractions import Fraction
import itertools
from . import terms as T
from .terms import Term, KVAR
from . import smt
from .irparse import (Module, cfg, PINF, NINF, NAN, Inf, NaN_, PTR, DBL, I1, I8, I32, I64)


class Unsupported(Exception):
    pass


class Dead(Exception):
    """the current path ends (unreachable, thrown exception, proved impossible)"""


class Undef:
    __slots__ = ()

    def __repr__(s):
        return "undef"


UNDEF = Undef()


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(s, obj, off=0):
        s.obj, s.off = obj, off

    def __repr__(s):
        return "&%s+%s" % (s.obj, s.off)

    def plus(s, d):
        if isinstance(d, int) and d == 0:
            return s
        return Ptr(s.obj, T.add(s.off, d))


class FnPtr:
    __slots__ = ("name",)

    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return "fn " + s.name


NULL = Ptr(None, 0)


class GV:
    """guarded alternatives [(guard, value)]; guards exhaustive under the current path condition"""
    __slots__ = ("alts",)

    def __init__(s, alts):
        s.alts = alts

    def __repr__(s):
        return "GV(%s)" % ", ".join("%s:%s" % (T.show(g) if isinstance(g, Term) else g, v) for g, v in s.alts)


class Obj:
    """static description of a memory object"""
    _n = itertools.count()

    def __init__(s, name, size=None, init=None, kind="cell", stride=None, length=None, elem=None, readonly=False,
                 align=16):
        s.name, s.size, s.init, s.kind = name, size, init, kind
        s.stride, s.length, s.elem, s.readonly = stride, length, elem, readonly
        s.id = next(Obj._n)
        s.align = align
        s.meta = {}

    def __repr__(s):
        return s.name


class OS:
    """state of a memory object (copy on write)"""
    __slots__ = ("cells", "ranges", "log", "freed", "owner")

    def __init__(s):
        s.cells = {}
        s.ranges = ()
        s.log = ()
        s.freed = False
        s.owner = None

    def copy(s, owner):
        n = OS()
        n.cells = dict(s.cells)
        n.ranges = s.ranges
        n.log = s.log
        n.freed = s.freed
        n.owner = owner
        return n


class State:
    __slots__ = ("pc", "mem", "dead", "tok")

    def __init__(s, pc=(), mem=None):
        s.pc = pc
        s.tok = object()          # owner of what this state alone refers to
        s.mem = {} if mem is None else mem

    def fork(s, cond=True):
        n = State(s.pc, dict(s.mem))
        s.tok = object()          # what both refer to now is copied before the next write
        if cond is not True:
            n.assume(cond)
        return n

    def assume(s, c):
        if c is True:
            return
        if isinstance(c, Term) and c.op == "and":
            for x in c.args:
                s.assume(x)
            return
        if c is False:
            s.pc = s.pc + (False,)
            return
        for x in s.pc:
            if x is c:
                return
            if isinstance(x, Term) and T.not_(x) is c:
                s.pc = s.pc + (False,)
                return
        s.pc = s.pc + (c,)

    def infeasible(s):
        return False in s.pc

    def os(s, obj):
        o = s.mem.get(obj)
        if o is None:
            o = s.mem[obj] = OS()
            o.owner = s.tok
        return o

    def wos(s, obj):
        o = s.mem.get(obj)
        if o is None:
            o = s.mem[obj] = OS()
            o.owner = s.tok
        elif o.owner is not s.tok:
            o = o.copy(s.tok)
            s.mem[obj] = o
        return o

    def pcond(s):
        return T.and_(*s.pc) if s.pc else True


def asint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, Term) and x.sort == "B":
        return T.ite(x, 1, 0)
    return x


def asbool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, Term) and x.sort == "B":
        return x
    if T.is_num(x):
        return x != 0
    return T.ne(x, 0)


def is_scalar(v):
    return isinstance(v, (Term, int, Fraction, bool))


def merge_val(c, a, b):
    """c ? a : b"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_scalar(a) and is_scalar(b):
        return T.ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is b.obj:
            return Ptr(a.obj, T.ite(c, a.off, b.off)) if not (a.off is b.off or a.off == b.off) else a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_val(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Inf) and isinstance(b, Inf) and a is b:
        return a
    if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
        return a
    if a is UNDEF and is_scalar(b):
        return T.ite(c, T.fresh("undef", T.sort_of(b)), b)
    if b is UNDEF and is_scalar(a):
        return T.ite(c, a, T.fresh("undef", T.sort_of(a)))
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    alts = []
    for g, v in ([(c, x) for x in (a,)] + [(T.not_(c), b)]):
        if isinstance(v, GV):
            for g2, v2 in v.alts:
                gg = T.and_(g, g2)
                if gg is not False:
                    alts.append((gg, v2))
        else:
            alts.append((g, v))
    return mkgv(alts)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and (a.off is b.off or (T.is_num(a.off) and T.is_num(b.off) and a.off == b.off))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if T.is_con(a) and T.is_con(b):
        return type(a) == type(b) and a == b
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, GV) and isinstance(b, GV):
        return len(a.alts) == len(b.alts) and all(g is h and same(x, y) for (g, x), (h, y) in zip(a.alts, b.alts))
    return False


def mkgv(alts):
    out = []
    for g, v in alts:
        if g is False:
            continue
        for i, (h, w) in enumerate(out):
            if same(v, w):
                out[i] = (T.or_(h, g), w)
                break
            if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj is w.obj and v.obj is not None:
                out[i] = (T.or_(h, g), Ptr(v.obj, T.ite(g, v.off, w.off)))
                break
            if is_scalar(v) and is_scalar(w):
                out[i] = (T.or_(h, g), T.ite(g, v, w))
                break
        else:
            out.append((g, v))
    if len(out) == 1:
        return out[0][1]
    if not out:
        return UNDEF
    return GV(out)


class Ex:
    """an execution context: module, models, contracts, facts, obligations"""

    def __init__(self, mod, models=(), contracts=None, opts=None):
        self.m = mod
        self.models = list(models)
        self.contracts = contracts or {}
        self.facts = []
        self.obls = []           # (name, pc, cond, nfacts)
        self.opts = dict(unroll=4000, check_div=False, check_mem=True, prune=True)
        self.opts.update(opts or {})
        self.trusted = {}
        self.inlined = set()
        self.cfgs = {}
        self.gobj = {}
        self._mcache = {}
        self.loop_specs = {}
        self.depth = 0
        self.loopinfo = []
        self.branchlog = None
        self.nsteps = 0
        self.lazy_names = {}
        self.covered = set()
        self.thrown = 0
        self.name = ""
        self._qcache = {}

    # ---------------------------------------------------------- logic
    def fact(self, f, st=None):
        if f is True:
            return
        if st is not None and st.pc:
            f = T.implies(st.pcond(), f)
        self.facts.append(f)

    def oblige(self, name, cond, st):
        if cond is True:
            self.obls.append((name, st.pc, True, len(self.facts)))
            return
        self.obls.append((name, st.pc, cond, len(self.facts)))

    def implied(self, c, st, timeout=400):
        """is c implied (quick)?  False may mean unknown"""
        if c is True:
            return True
        if c is False and not st.pc:
            return False
        for x in st.pc:
            if x is c:
                return True
        key = (c.id if isinstance(c, Term) else c, tuple(x.id if isinstance(x, Term) else x for x in st.pc),
               len(self.facts))
        r = self._qcache.get(key)
        if r is None:
            r = smt.quick(self.facts, st.pc, c, timeout)
            self._qcache[key] = r
        return r

    def dem(self, name):
        return self.m.dem.get(name, name)

    # ---------------------------------------------------------- objects
    def new_obj(self, st, name, size=None, zero=False, lazy=False, **kw):
        o = Obj(name, size, **kw)
        s = st.wos(o)
        if zero:
            s.cells = {}
            s.ranges = (("zero", 0, size),)
        elif lazy:
            s.ranges = (("lazy", 0, size),)
        return o

    def global_obj(self, st, name):
        o = self.gobj.get(name)
        if o is None:
            ty, init, const = self.m.global_init(name)
            if ty == 'alias':
                return self.operand(init, {}, st)
            size = self.m.size(ty)
            o = Obj("@" + name, size)
            o.meta["ginit"] = (ty, init, const)
            self.gobj[name] = o
        if o not in st.mem:
            s = st.wos(o)
            ty, init, const = o.meta["ginit"]
            ov = self.opts.get("globals", {}).get(self.dem(name), None) or self.opts.get("globals", {}).get(name)
            if ov == "lazy" or init is None:
                s.ranges = (("lazy", 0, o.size),)
            else:
                self.store_const(st, o, 0, ty, init)
        return Ptr(o, 0)

    def store_const(self, st, o, off, ty, init):
        k = init[0]
        s = st.wos(o)
        t = self.m.resolve(ty)
        if k == 'zero' or k == 'undef':
            s.ranges = s.ranges + (("zero", off, off + self.m.size(ty)),)
            return
        if k == 'str':
            raw = init[1][2:-1]
            b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda mm: bytes([int(mm.group(1), 16)]), raw.encode("latin1"))
            for i, c in enumerate(b):
                s.cells[off + i] = (1, c)
            return
        if k == 'agg':
            if t[0] == 'arr' or t[0] == 'vec':
                es = self.m.size(t[2])
                for i, (et, v) in enumerate(init[2]):
                    self.store_const(st, o, off + i * es, et, v)
            else:
                offs = self.m.layout(t)[2]
                for (et, v), fo in zip(init[2], offs):
                    self.store_const(st, o, off + fo, et, v)
            return
        v = self.operand(init, {}, st)
        s = st.wos(o)
        s.cells[off] = (self.m.size(ty), v)

    # ---------------------------------------------------------- memory access
    def prim_zero(self, ty):
        if ty[0] == 'f':
            return Fraction(0)
        if ty[0] == 'ptr':
            return NULL
        if ty == I1:
            return False
        return 0

    def lazy_val(self, obj, off, ty):
        if obj.init:
            v = obj.init(off, ty)
            if v is not None:
                return v
        nm = "%s+%s" % (obj.name, off)
        if ty[0] == 'f':
            return T.sym(nm, "R")
        if ty[0] == 'i':
            return T.sym(nm, "I")
        raise Unsupported("pointer read from unspecified cell %s" % nm)

    def load(self, p, ty, st):
        t = self.m.resolve(ty)
        if t[0] == 'vec':
            es = self.m.size(t[2])
            return tuple(self.load(self.padd(p, i * es), t[2], st) for i in range(t[1]))
        if t[0] == 'arr':
            es = self.m.size(t[2])
            return tuple(self.load(self.padd(p, i * es), t[2], st) for i in range(t[1]))
        if t[0] == 'lit':
            return tuple(self.load(self.padd(p, o), e, st) for e, o in zip(t[1], self.m.layout(t)[2]))
        if isinstance(p, GV):
            vals = []
            for g, q in p.alts:
                s2 = st.fork(g)
                if s2.infeasible() or self.implied(False, s2, 200):
                    continue
                if isinstance(q, Ptr) and q.obj is None:
                    self.oblige("null dereference", False, s2)
                    continue
                vals.append((g, self.load(q, ty, s2)))
            if not vals:
                raise Dead()
            r = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                r = merge_val(g, v, r)
            return r
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        if p.obj is None:
            self.oblige("null dereference", False, st)
            raise Dead()
        size = self.m.size(ty)
        o = p.obj
        if st.os(o).freed:
            self.oblige("use after free of %s" % o, False, st)
            raise Dead()
        if o.kind == "mat":
            from . import mats
            return mats.load(self, o, p.off, st)
        if o.kind == "array":
            v = self.aload(o, p.off, t, size, st)
        elif isinstance(p.off, int):
            v = self.cload(o, p.off, t, size, st)
        else:
            v = self.sload(o, p.off, t, size, st)
        if t == I1:
            return asbool(v) if is_scalar(v) else v
        if t[0] == 'i' and is_scalar(v) and T.sort_of(v) == "B":
            return v
        return v

    def bounds(self, o, off, size, st, what):
        if o.size is None or not self.opts["check_mem"]:
            return
        c = T.and_(T.le(0, off), T.le(T.add(off, size), o.size))
        if c is not True:
            self.oblige("%s in bounds of %s" % (what, o.name), c, st)

    def cload(self, o, off, t, size, st, raw=False):
        s = st.os(o)
        if not raw:
            self.bounds(o, off, size, st, "load")
        c = s.cells.get(off)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size and isinstance(c[1], int) and not isinstance(c[1], bool):
                return c[1] & ((1 << (8 * size)) - 1)
            if c[0] > size and t[0] == 'i':
                return c[1]     # low part of a small value: mathematical integers
            if isinstance(c[1], Undef):
                return UNDEF
        # overlapping cells?
        for k in range(max(0, off - 15), off + size):
            c = s.cells.get(k)
            if c is not None and k + c[0] > off and k != off:
                if c[1] is UNDEF:
                    continue
                if k > off:
                    # assemble? only all-zero or undef
                    return self.assemble(o, off, size, t, st)
                if isinstance(c[1], int) and not isinstance(c[1], bool):
                    return (c[1] >> (8 * (off - k))) & ((1 << (8 * size)) - 1)
                raise Unsupported("mixed-size access %s+%d" % (o, off))
        for r in reversed(s.ranges):
            if r[1] <= off and (r[2] is None or off + size <= r[2]):
                if r[0] == "zero":
                    return self.prim_zero(t)
                if r[0] == "lazy":
                    v = self.lazy_val(o, off, t)
                    s.cells[off] = (size, v)
                    return v
                if r[0] == "byte":
                    b = r[3]
                    if t[0] == 'i' and isinstance(b, int):
                        u = int.from_bytes(bytes([b & 255]) * size, "little")
                        return u - (1 << (8 * size)) if u >> (8 * size - 1) else u
                    raise Unsupported("memset pattern read as %s" % (t,))
                if r[0] == "copy":
                    src, snap, soff = r[3], r[4], r[5]
                    s2 = State(st.pc, {src: snap})
                    if src.kind == "array":
                        v = self.aload(src, T.add(soff, off - r[1]), t, size, s2, nobounds=True)
                    else:
                        if isinstance(soff, int):
                            v = self.cload(src, soff + off - r[1], t, size, s2, raw=True)
                        else:
                            v = self.sload(src, T.add(soff, off - r[1]), t, size, s2)
                    s.cells[off] = (size, v)
                    return v
                if r[0] == "undef":
                    return UNDEF
        return UNDEF

    def assemble(self, o, off, size, t, st):
        s = st.os(o)
        v = 0
        k = off
        sh = 0
        while k < off + size:
            c = s.cells.get(k)
            if c is None:
                b = self.cload(o, k, I8, 1, st, raw=True)
                n = 1
            else:
                n, b = c
            if b is UNDEF:
                return UNDEF
            if isinstance(b, (bool,)):
                b = int(b)
            if isinstance(b, Fraction) and b == 0:
                b = 0
            if isinstance(b, Ptr) and b.obj is None and b.off == 0:
                b = 0
            if not isinstance(b, int):
                raise Unsupported("assembling a value from parts of %s+%d" % (o, off))
            v |= (b & ((1 << (8 * n)) - 1)) << sh
            sh += 8 * n
            k += n
        if t[0] == 'f':
            if v == 0:
                return Fraction(0)
            raise Unsupported("assembling a double")
        return v

    def sload(self, o, off, t, size, st):
        """symbolic offset into a cell object: case split over the possible cells"""
        self.bounds(o, off, size, st, "load")
        if o.size is None or not isinstance(o.size, int) or o.size > 4096:
            raise Unsupported("symbolic offset %s into %s" % (T.show(off), o))
        c, d = T._lin(off)
        g = 0
        import math
        for k in d.values():
            g = math.gcd(g, int(k))
        c = int(c) % g if g else int(c)
        vals = []
        ks = list(range(c, o.size - size + 1, g))
        few = T.values(off)
        if few is None:
            few = T.values(off, loose=True)
            if few is not None and not self.implied(T.or_(*[T.eq(off, k) for k in few]), st, 3000):
                few = None
        if few is not None:
            ks = [k for k in ks if k in few]
        for k in ks:
            e = T.eq(off, k)
            if e is False:
                continue
            if few is None and not isinstance(e, bool) and self.implied(T.not_(e), st, 100):
                continue
            try:
                v = self.cload(o, k, t, size, st, raw=True)
            except Unsupported:
                continue
            vals.append((e, v))
        if not vals:
            raise Dead()
        r = vals[-1][1]
        for e, v in reversed(vals[:-1]):
            r = merge_val(e, v, r)
        return r

    # -- arrays of unbounded length
    def split(self, o, off):
        """offset -> (index term, field)"""
        if T.is_num(off):
            return off // o.stride, off % o.stride
        c, d = T._lin(off)
        if all(k % o.stride == 0 for k in d.values()):
            i = T._mklin(c // o.stride, {t: k // o.stride for t, k in d.items()}, "I")
            return i, c % o.stride
        rest = [(t, k) for t, k in d.items() if k % o.stride]
        if len(rest) == 1 and rest[0][1] == 1 and rest[0][0].op == "ite":
            t = rest[0][0]
            r = T.sub(off, t)
            a, b = self.split(o, T.add(r, t.args[1])), self.split(o, T.add(r, t.args[2]))
            if a[1] == b[1]:
                return T.ite(t.args[0], a[0], b[0]), a[1]
        raise Unsupported("offset %s into array %s of stride %d" % (T.show(off), o, o.stride))

    def aload(self, o, off, t, size, st, nobounds=False):
        if isinstance(off, Term) and off.op == "ite":
            a = self.aload(o, off.args[1], t, size, st.fork(off.args[0]), nobounds)
            b = self.aload(o, off.args[2], t, size, st.fork(T.not_(off.args[0])), nobounds)
            return merge_val(off.args[0], a, b)
        i, f = self.split(o, off)
        if not nobounds and o.length is not None and self.opts["check_mem"]:
            c = T.and_(T.le(0, i), T.lt(i, o.length))
            if c is not True and not any(c is x for x in st.pc):
                self.oblige("index in bounds of %s" % o.name, c, st)
        return self.aread(o, i, f, t, size, st)

    def decide(self, c, st):
        if isinstance(c, bool):
            return c
        for x in st.pc:
            if x is c:
                return True
            if T.not_(c) is x:
                return False
        if self.implied(c, st, 150):
            return True
        if self.implied(T.not_(c), st, 150):
            return False
        return c

    def aread(self, o, i, f, t, size, st, log=None):
        log = st.os(o).log if log is None else log
        acc = []
        n = len(log)
        while n:
            n -= 1
            e = log[n]
            if e[0] == "w":
                _, j, g, sz, v = e
                if g + sz <= f or f + size <= g:
                    continue
                if g != f or sz != size:
                    if g <= f and isinstance(v, int) and not isinstance(v, bool):
                        v = (v >> (8 * (f - g))) & ((1 << (8 * size)) - 1)
                    else:
                        raise Unsupported("mixed-size access to %s field %d" % (o, f))
                d = self.decide(T.eq(i, j), st)
                if d is False:
                    continue
                acc.append((d, v))
                if d is True:
                    break
            elif e[0] == "map":
                _, lo, hi, fields = e
                if f not in fields:
                    for g, (sz, _) in fields.items():
                        if not (g + sz <= f or f + size <= g):
                            raise Unsupported("mixed-size access to %s field %d" % (o, f))
                    continue
                sz, clo = fields[f]
                # all of the array: the access itself is obliged to be in bounds
                whole = o.length is not None and T.eq(lo, 0) is True and T.eq(hi, o.length) is True
                d = True if whole else self.decide(T.and_(T.le(lo, i), T.lt(i, hi)), st)
                if d is False:
                    continue
                acc.append((d, clo(i)))
                if d is True:
                    break
            elif e[0] == "copy":      # elements lo.. copied from another array snapshot:  this[i] = src[i - lo + slo]
                _, lo, hi, src, slog, slo = e
                d = self.decide(T.and_(T.le(lo, i), T.lt(i, hi)), st)
                if d is False:
                    continue
                s2 = State(st.pc, {src: slog})
                v = self.aread(src, T.add(T.sub(i, lo), slo), f, t, size, s2)
                acc.append((d, v))
                if d is True:
                    break
            elif e[0] == "havoc":
                v = self.abase(o, i, f, t, e[1])
                acc.append((True, v))
                break
            elif e[0] == "ite":
                _, c, la, lb = e
                a = self.aread(o, i, f, t, size, st, la)
                b = self.aread(o, i, f, t, size, st, lb)
                acc.append((True, merge_val(c, a, b)))
                break
        if not acc or acc[-1][0] is not True:
            acc.append((True, self.abase(o, i, f, t, "")))
        r = acc[-1][1]
        for d, v in reversed(acc[:-1]):
            r = merge_val(d, v, r)
        return r

    def abase(self, o, i, f, t, tag):
        if o.elem and not tag:
            v = o.elem(i, f, t)
            if v is not None:
                return v
        nm = "%s%s.%d" % (o.name, tag, f)
        if t[0] == 'f':
            return T.app(nm, "R", i)
        if t[0] == 'i':
            return T.app(nm, "I", i)
        raise Unsupported("pointer field %s" % nm)

    def awrite(self, o, off, size, v, st):
        i, f = self.split(o, off)
        if o.length is not None and self.opts["check_mem"]:
            c = T.and_(T.le(0, i), T.lt(i, o.length))
            if c is not True and not any(c is x for x in st.pc):
                self.oblige("index in bounds of %s" % o.name, c, st)
        s = st.wos(o)
        # drop an exactly overwritten earlier entry at the end of the log
        log = list(s.log)
        k = len(log)
        while k and log[k - 1][0] == "w":
            e = log[k - 1]
            if T.eq(e[1], i) is True:
                if e[2] == f and e[3] == size:
                    del log[k - 1]
                    break
            elif T.eq(e[1], i) is not False:
                break
            k -= 1
        s.log = tuple(log) + (("w", i, f, size, v),)

    def store(self, p, ty, v, st):
        t = self.m.resolve(ty)
        if t[0] in ('vec', 'arr'):
            es = self.m.size(t[2])
            for i in range(t[1]):
                self.store(self.padd(p, i * es), t[2], v[i] if isinstance(v, tuple) else UNDEF, st)
            return
        if t[0] == 'lit':
            for i, (e, o) in enumerate(zip(t[1], self.m.layout(t)[2])):
                self.store(self.padd(p, o), e, v[i] if isinstance(v, tuple) else UNDEF, st)
            return
        if isinstance(p, GV):
            for g, q in p.alts:
                s2 = st.fork(g)
                if s2.infeasible() or self.implied(False, s2, 200):
                    continue
                if q.obj is None:
                    self.oblige("null dereference", False, s2)
                    continue
                try:
                    old = self.load(q, ty, s2)
                except Dead:
                    continue
                self.store(q, ty, merge_val(g, v, old), st)
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        if p.obj is None:
            self.oblige("null dereference", False, st)
            raise Dead()
        o = p.obj
        size = self.m.size(ty)
        if o.readonly:
            self.oblige("frame: write to %s" % o.name, False, st)
        if st.os(o).freed:
            self.oblige("use after free of %s" % o, False, st)
            raise Dead()
        if o.kind == "mat":
            from . import mats
            return mats.store(self, o, p.off, v, st)
        if o.kind == "array":
            if v is PINF and (self.opts.get("infinite") or self.opts.get("extended")):
                from . import mats
                v = mats.INFINITE
            if isinstance(p.off, Term) and p.off.op == "ite":
                c, a, b = p.off.args
                va = self.aload(o, a, t, size, st)
                vb = self.aload(o, b, t, size, st)
                self.awrite(o, a, size, merge_val(c, v, va), st)
                self.awrite(o, b, size, merge_val(c, vb, v), st)
                return
            self.awrite(o, p.off, size, v, st)
            return
        if not isinstance(p.off, int):
            return self.sstore(o, p.off, t, size, v, st)
        self.bounds(o, p.off, size, st, "store")
        self.cstore(o, p.off, size, v, st)

    def cstore(self, o, off, size, v, st):
        s = st.wos(o)
        c = s.cells.get(off)
        if c is None or c[0] != size:
            for k in range(max(0, off - 15), off + size):
                c = s.cells.get(k)
                if c is not None and k + c[0] > off and (k != off or c[0] != size):
                    if k >= off and k + c[0] <= off + size:
                        del s.cells[k]
                    else:
                        # partial overwrite: split into bytes when concrete
                        if isinstance(c[1], int) and not isinstance(c[1], bool):
                            del s.cells[k]
                            for b in range(c[0]):
                                if not (off <= k + b < off + size):
                                    s.cells[k + b] = (1, (c[1] >> (8 * b)) & 255)
                        elif c[1] is UNDEF:
                            del s.cells[k]
                        else:
                            raise Unsupported("partial overwrite of %s+%d" % (o, k))
        s.cells[off] = (size, v)

    def sstore(self, o, off, t, size, v, st):
        self.bounds(o, off, size, st, "store")
        if o.size is None or not isinstance(o.size, int) or o.size > 4096:
            raise Unsupported("symbolic offset into %s" % o)
        c, d = T._lin(off)
        g = 0
        import math
        for k in d.values():
            g = math.gcd(g, int(k))
        c = int(c) % g if g else int(c)
        for k in range(c, o.size - size + 1, g):
            e = T.eq(off, k)
            if e is False or (not isinstance(e, bool) and self.implied(T.not_(e), st, 100)):
                continue
            old = self.cload(o, k, t, size, st, raw=True)
            self.cstore(o, k, size, merge_val(e, v, old), st)

    def padd(self, p, d):
        if isinstance(p, Ptr):
            return p.plus(d)
        if isinstance(p, GV):
            return GV([(g, self.padd(v, d)) for g, v in p.alts])
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def memcpy(self, dst, src, n, st):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(src, GV) or isinstance(dst, GV):
            if isinstance(src, GV):
                alts = [(g, q) for g, q in src.alts if not self.implied(T.not_(g), st, 200)]
                if len(alts) == 1:
                    return self.memcpy(dst, alts[0][1], n, st)
            else:
                alts = [(g, q) for g, q in dst.alts if not self.implied(T.not_(g), st, 200)]
                if len(alts) == 1:
                    return self.memcpy(alts[0][1], src, n, st)
            raise Unsupported("memcpy through alternatives")
        do, so = dst.obj, src.obj
        if do is None or so is None:
            self.oblige("null dereference in memcpy", T.eq(n, 0), st)
            raise Dead()
        if do.readonly:
            self.oblige("frame: write to %s" % do.name, False, st)
        if do.kind == "cell" and isinstance(dst.off, int) and isinstance(n, int):
            self.bounds(do, dst.off, n, st, "memcpy to")
            snap = st.os(so)
            if so.kind == "cell":
                self.bounds(so, src.off, n, st, "memcpy from")
            snap2 = snap.copy(None)
            s = st.wos(do)
            lo, hi = dst.off, dst.off + n
            for k in [k for k in s.cells if lo <= k < hi]:
                del s.cells[k]
            for k in range(max(0, lo - 15), lo):
                c = s.cells.get(k)
                if c is not None and k + c[0] > lo:
                    raise Unsupported("memcpy over part of a cell")
            if so.kind == "cell" and isinstance(src.off, int):
                for k, c in snap2.cells.items():
                    if src.off <= k and k + c[0] <= src.off + n:
                        s.cells[k - src.off + lo] = c
            s.ranges = tuple(r for r in s.ranges if not (r[2] is not None and lo <= r[1] and r[2] <= hi)) + \
                (("copy", lo, hi, so, snap2, src.off),)
            return
        if do.kind == "mat" and so.kind == "mat" and dst.off == 0 and src.off == 0 and T.eq(n, T.scale(do.stride, do.length)) is True and do.stride == so.stride and \
                do.length is so.length and do.meta["fast"] in (None, so.meta["fast"]):
            do.meta["fast"] = so.meta["fast"]
            st.wos(do).cells[0] = st.os(so).cells[0]
            return
        if do.kind == "array":
            i, f = self.split(do, dst.off)
            if isinstance(n, int) and f + n <= do.stride:
                # one element (or part of one), field by field: needs known layout of the source
                done = set()
                fields = self.copy_fields(so, src, n, st)
                for fo, sz, ty in fields:
                    v = self.load(src.plus(fo), ty, st)
                    self.store(dst.plus(fo), ty, v, st)
                return
            if so.kind == "array" and so.stride == do.stride and f == 0:
                si, sf = self.split(so, src.off)
                if sf == 0:
                    cnt = self.exact_div(n, do.stride)
                    snap2 = st.os(so).copy(None)
                    s = st.wos(do)
                    s.log = s.log + (("copy", i, T.add(i, cnt), so, snap2, si),)
                    return
        raise Unsupported("memcpy %s <- %s (%s)" % (dst, src, n))

    def copy_fields(self, so, src, n, st):
        lay = so.meta.get("fields")
        if lay:
            if so.kind == "array":
                _, f = self.split(so, src.off)
            else:
                f = src.off
            return [(o - f, sz, ty) for o, sz, ty in lay if f <= o and o + sz <= f + n]
        if so.kind == "cell" and isinstance(src.off, int):
            s = st.os(so)
            out = []
            for k, (sz, v) in sorted(s.cells.items()):
                if src.off <= k and k + sz <= src.off + n:
                    ty = DBL if (isinstance(v, Fraction) or isinstance(v, Term) and v.sort == "R") else \
                        (PTR if isinstance(v, (Ptr, GV, FnPtr)) else ('i', 8 * sz))
                    out.append((k - src.off, sz, ty))
            # copied ranges that were never read
            for r in s.ranges:
                if r[0] == "copy" and r[3].meta.get("fields"):
                    for fo, sz, ty in self.copy_fields(r[3], Ptr(r[3], r[5]), r[2] - r[1], st):
                        k = fo + r[1]
                        if src.off <= k < src.off + n and k - src.off not in [x[0] for x in out]:
                            out.append((k - src.off, sz, ty))
            return out
        raise Unsupported("copy of unknown layout from %s" % so)

    def exact_div(self, n, k):
        if T.is_num(n):
            if n % k:
                raise Unsupported("division")
            return n // k
        return T.idiv(n, k)

    def memset(self, dst, b, n, st):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(dst, GV):
            alts = [(g, q) for g, q in dst.alts if not self.implied(T.not_(g), st, 200)]
            if len(alts) != 1:
                raise Unsupported("memset through alternatives")
            dst = alts[0][1]
        o = dst.obj
        if o is None:
            self.oblige("null dereference in memset", T.eq(n, 0), st)
            return
        if o.readonly:
            self.oblige("frame: write to %s" % o.name, False, st)
        if o.kind == "cell" and isinstance(n, int) and isinstance(dst.off, int):
            self.bounds(o, dst.off, n, st, "memset")
            s = st.wos(o)
            lo, hi = dst.off, dst.off + n
            for k in [k for k in s.cells if lo <= k < hi]:
                del s.cells[k]
            s.ranges = s.ranges + ((("zero", lo, hi) if b == 0 else ("byte", lo, hi, b)),)
            return
        if o.kind == "mat" and o.stride == 8 and b == 0 and dst.off == 0 and T.eq(n, T.scale(8, o.length)) is True:
            st.wos(o).cells[0] = (8, Fraction(0))
            return
        if o.kind == "array" and isinstance(b, int):
            i, f = self.split(o, dst.off)
            if f == 0 and o.meta.get("fields"):
                cnt = self.exact_div(n, o.stride)
                fields = {}
                for fo, sz, ty in o.meta["fields"]:
                    u = int.from_bytes(bytes([b & 255]) * sz, "little")
                    if u >> (8 * sz - 1):
                        u -= 1 << (8 * sz)
                    v = self.prim_zero(ty) if b == 0 else (u if ty[0] == 'i' else None)
                    if v is None:
                        raise Unsupported("memset")
                    fields[fo] = (sz, (lambda v: lambda i: v)(v))
                s = st.wos(o)
                s.log = s.log + (("map", i, T.add(i, cnt), fields),)
                return
        raise Unsupported("memset %s %s" % (dst, n))

    # ---------------------------------------------------------- operands
    def operand(self, op, env, st):
        k = op[0]
        if k == 'v':
            try:
                return env[op[1]]
            except KeyError:
                raise Unsupported("value %s not available" % op[1])
        if k == 'c':
            return op[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(op[1])
        if k == 'g':
            n = op[1]
            if n in self.m.fsrc or n in self.m.decls:
                return FnPtr(n)
            return self.global_obj(st, n)
        if k == 'gep':
            base = self.operand(op[2][0][1], env, st)
            return self.gep(base, op[1], [(t, self.operand(v, env, st)) for t, v in op[2][1:]])
        if k == 'agg':
            return tuple(self.operand(v, env, st) for _, v in op[2])
        if k == 'ce':
            if op[1] in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return self.operand(op[2][0][1], env, st)
            a = [self.operand(v, env, st) for _, v in op[2]]
            if op[1] == "sub":
                return self.ibin("sub", a[0], a[1], op[2][0][0], st)
            if op[1] == "add":
                return self.ibin("add", a[0], a[1], op[2][0][0], st)
        raise Unsupported("constant %r" % (op,))

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t[0] in ('arr', 'vec'):
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        if t[0] == 'lit':
            return tuple(self.zero(e) for e in t[1])
        return self.prim_zero(t)

    def gep(self, base, ty, idx):
        off = 0
        t = ty
        for n, (it, i) in enumerate(idx):
            i = self.scal(asint(i) if is_scalar(i) else i)
            if n == 0:
                off = T.add(off, T.scale(self.m.size(t), i))
                continue
            rt = self.m.resolve(t)
            if rt[0] == 'lit':
                off = T.add(off, self.m.layout(rt)[2][i])
                t = rt[1][i]
            elif rt[0] in ('arr', 'vec'):
                off = T.add(off, T.scale(self.m.size(rt[2]), i))
                t = rt[2]
            else:
                raise Unsupported("gep into %r" % (rt,))
        return self.padd(base, off)

    def scal(self, v):
        if isinstance(v, GV):
            return self.gvscal(v)
        if v is UNDEF:
            raise Unsupported("undefined value used")
        return v

    def gvscal(self, v):
        raise Unsupported("alternatives %s where a number is needed" % (v,))

    # ---------------------------------------------------------- arithmetic
    def lift(self, f, *vs):
        """apply f to values, distributing over guarded alternatives"""
        for i, v in enumerate(vs):
            if isinstance(v, GV):
                out = []
                for g, x in v.alts:
                    out.append((g, self.lift(f, *(vs[:i] + (x,) + vs[i + 1:]))))
                r = out[-1][1]
                for g, x in reversed(out[:-1]):
                    r = merge_val(g, x, r)
                return r
        return f(*vs)

    def fbin(self, op, a, b, st):
        if isinstance(a, GV) or isinstance(b, GV):
            return self.lift(lambda x, y: self.fbin(op, x, y, st), a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Inf, NaN_)) or isinstance(b, (Inf, NaN_)):
            ext = self.opts.get("extended")
            for x, o in ((a, b), (b, a)) if ext is not None else ():
                if isinstance(x, Term) and isinstance(o, Inf):
                    (p, n), neg = ext(x), o.neg != (op == "fsub")      # as a sum: of infinities of one sign only
                    self.oblige("arithmetic on infinity", T.not_(T.or_(p, n) if op not in ("fadd", "fsub") else p if neg else n), st)
            return self.finf(op, a, b, st)
        inf, ext = self.opts.get("infinite"), self.opts.get("extended")
        if ext is not None:
            # infinities of both signs: the parts of a sum keep them apart; none may cancel
            parts = lambda t: {x for x, k in t.args[1]} if isinstance(t, Term) and t.op == "+" else {t} if isinstance(t, Term) and t.op != "*c" else {t.args[1]} if isinstance(t, Term) else set()
            if op in ("fadd", "fsub"):
                r = T.add(a, b) if op == "fadd" else T.sub(a, b)
                gone = [x for x in (parts(a) | parts(b)) - parts(r)]
            else:
                gone = [x for x in (a, b) if isinstance(x, Term)]
            for x in gone:
                self.oblige("arithmetic on finite numbers", T.not_(T.or_(*ext(x))), st)
        if inf is not None:
            # the difference with an infinite number, products with one: not defined here; a sum with one is infinite (the option tells)
            for x, k in ((a, op in ("fmul", "fdiv")), (b, op != "fadd")):
                q = inf(x) if k and isinstance(x, Term) else None
                if q is not None and q is not False:
                    self.oblige("arithmetic on finite numbers", T.not_(q), st)
        if op == "fadd":
            return T.add(a, b)
        if op == "fsub":
            return T.sub(a, b)
        if op == "fmul":
            return T.mul(a, b)
        if op == "fdiv":
            if T.is_num(b) and b == 0:
                if T.is_num(a):
                    return NAN if a == 0 else (PINF if a > 0 else NINF)
                self.oblige("division by zero", False, st)
                raise Dead()
            if self.opts["check_div"] and not T.is_num(b):
                self.oblige("divisor not zero", T.ne(b, 0), st)
            return T.div(a, b)
        raise Unsupported(op)

    def finf(self, op, a, b, st):
        if a is NAN or b is NAN:
            return NAN
        ia, ib = isinstance(a, Inf), isinstance(b, Inf)
        if op == "fsub":
            b2 = (PINF if b.neg else NINF) if ib else T.neg(b)
            return self.finf("fadd", a, b2, st)
        if op == "fadd":
            if ia and ib:
                return a if a is b else NAN
            return a if ia else b
        if op == "fmul":
            if ia and ib:
                return PINF if a.neg == b.neg else NINF
            i, x = (a, b) if ia else (b, a)
            if T.is_num(x):
                if x == 0:
                    return NAN
                return i if x > 0 else (PINF if i.neg else NINF)
            return GV([(T.lt(0, x), i), (T.lt(x, 0), PINF if i.neg else NINF), (T.eq(x, 0), NAN)])
        if op == "fdiv":
            if ib and not ia:
                return Fraction(0)
            if ib:
                return NAN
            if T.is_num(b):
                return a if b >= 0 else (PINF if a.neg else NINF)
        raise Unsupported("arithmetic on infinity: %s" % op)

    def fcmp(self, pred, a, b, st):
        if isinstance(a, GV) or isinstance(b, GV):
            return self.lift(lambda x, y: self.fcmp(pred, x, y, st), a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if pred == "true":
            return True
        if pred == "false":
            return False
        if a is NAN or b is NAN:
            return pred[0] == "u"
        if pred == "uno":
            return False
        if pred == "ord":
            return True
        k = pred[1:]
        ext = self.opts.get("extended")
        if ext is not None:
            # infinities of both signs, and what is none of these
            (pa, na), (pb, nb) = ext(a), ext(b)
            cmp = lambda ra, rb: {"eq": ra == rb, "ne": ra != rb, "lt": ra < rb, "le": ra <= rb, "gt": ra > rb, "ge": ra >= rb}[k]
            c = {"eq": T.eq, "ne": T.ne, "lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}[k](a, b) if not isinstance(a, Inf) and not isinstance(b, Inf) else cmp(0, 0)
            of = lambda r, z: T.ite(pb, cmp(r, 1), T.ite(nb, cmp(r, -1), z))
            c = T.ite(pa, of(1, cmp(1, 0)), T.ite(na, of(-1, cmp(-1, 0)), of(0, c)))
            return T.ite(T.or_(T.and_(pa, na), T.and_(pb, nb)), pred[0] == "u", c)
        inf = self.opts.get("infinite")          # which abstract numbers may be plus infinity, and when
        qa, qb = [inf(x) if inf is not None and isinstance(x, Term) else None for x in (a, b)]
        if isinstance(a, Inf) or isinstance(b, Inf):
            def rank(x):
                return 0 if not isinstance(x, Inf) else (-1 if x.neg else 1)
            ra, rb = rank(a), rank(b)
            cmp = lambda ra, rb: {"eq": ra == rb, "ne": ra != rb, "lt": ra < rb, "le": ra <= rb, "gt": ra > rb, "ge": ra >= rb}[k]
            return T.ite(qa, cmp(1, rb), cmp(ra, rb)) if qa is not None else T.ite(qb, cmp(ra, 1), cmp(ra, rb)) if qb is not None else cmp(ra, rb)
        c = {"eq": T.eq, "ne": T.ne, "lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}[k](a, b)
        if qa is not None or qb is not None:
            cmp = lambda ra, rb: {"eq": ra == rb, "ne": ra != rb, "lt": ra < rb, "le": ra <= rb, "gt": ra > rb, "ge": ra >= rb}[k]
            qa, qb = qa is not None and qa, qb is not None and qb
            return T.ite(qa, T.ite(qb, cmp(1, 1), cmp(1, 0)), T.ite(qb, cmp(0, 1), c))
        return c

    def nonneg(self, x, st):
        x = asint(x)
        if T.is_num(x):
            return x >= 0
        if x.lo is not None and x.lo >= 0:
            return True
        if x.op == "+":
            if x.args[0] >= 0 and all(k >= 0 and self.nonneg0(t) for t, k in x.args[1]):
                return True
        if x.op == "*c" and x.args[0] >= 0 and self.nonneg0(x.args[1]):
            return True
        if x.op == "ite" and self.nonneg(x.args[1], st) and self.nonneg(x.args[2], st):
            return True
        return self.implied(T.le(0, x), st)

    def nonneg0(self, t):
        if t.lo is not None and t.lo >= 0:
            return True
        if t.op == "*":
            return all(self.nonneg0(x) for x in t.args)
        return False

    def icmp(self, pred, a, b, ty, st):
        if isinstance(a, GV) or isinstance(b, GV):
            return self.lift(lambda x, y: self.icmp(pred, x, y, ty, st), a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple):
            return tuple(self.icmp(pred, x, y, ty[2], st) for x, y in zip(a, b))
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr):
                r = a.name == b.name
            else:
                r = False
            return r if pred == "eq" else not r
        if isinstance(a, int) and a == 0 and isinstance(b, Ptr):
            a = NULL
        if isinstance(b, int) and b == 0 and isinstance(a, Ptr):
            b = NULL
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                a, b = a.off, b.off
            else:
                if pred in ("eq", "ne"):
                    return pred == "ne"
                if b.obj is None and b.off == 0:
                    return pred in ("ugt", "uge", "sgt", "sge")
                if a.obj is None and a.off == 0:
                    return pred in ("ult", "ule", "slt", "sle")
                h = self.ptr_order(a, b)
                if h is not None:
                    return {"ult": T.lt, "ule": T.le, "ugt": T.gt, "uge": T.ge}[pred](*h)
                raise Unsupported("order of pointers into different objects")
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("comparison of pointer with integer")
        if isinstance(a, (Fraction, Inf)) or isinstance(b, (Fraction, Inf)) or \
                isinstance(a, Term) and a.sort == "R" or isinstance(b, Term) and b.sort == "R":
            raise Unsupported("integer comparison of floating values")
        if ty == I1 or T.sort_of(a) == "B" and T.sort_of(b) == "B":
            a2, b2 = asbool(a), asbool(b)
            if pred == "eq":
                return T.eq(a2, b2)
            if pred == "ne":
                return T.ne(a2, b2)
        if pred in ("eq", "ne"):
            # comparisons with 0/1 of booleans
            if T.sort_of(a) == "B" or T.sort_of(b) == "B":
                if T.sort_of(b) == "B":
                    a, b = b, a
                if T.is_num(b):
                    r = T.not_(a) if b == 0 else (a if b == 1 else False)
                    return r if pred == "eq" else T.not_(r)
            r = T.eq(asint(a), asint(b))
            return r if pred == "eq" else T.not_(r)
        a, b = asint(a), asint(b)
        if pred[0] == "u" and ty[0] != 'ptr':
            na, nb = self.nonneg(a, st), self.nonneg(b, st)
            if not (na and nb):
                if T.is_num(a) and a < 0:
                    a = a + (1 << ty[1])
                    na = True
                if T.is_num(b) and b < 0:
                    b = b + (1 << ty[1])
                    nb = True
                if not (na and nb):
                    lt = T.ite(T.le(0, a), T.ite(T.le(0, b), T.lt(a, b), True), T.ite(T.le(0, b), False, T.lt(a, b)))
                    eq = T.eq(a, b)
                    return {"ult": lt, "ule": T.or_(lt, eq), "ugt": T.not_(T.or_(lt, eq)), "uge": T.not_(lt)}[pred]
        return {"lt": T.lt, "le": T.le, "gt": T.gt, "ge": T.ge}[pred[1:]](a, b)

    def ptr_order(self, a, b):
        """an arbitrary but fixed total order over objects (std::less on pointers)"""
        if a.obj is None or b.obj is None:
            return None
        ka = a.obj.meta.get("rank")
        kb = b.obj.meta.get("rank")
        if ka is None or kb is None:
            return None
        return ka, kb

    def wrap(self, x, bits):
        if T.is_num(x):
            x &= (1 << bits) - 1
            if bits > 1 and x >> (bits - 1):
                x -= 1 << bits
        return x

    def ibin(self, op, a, b, ty, st, flags=()):
        if isinstance(a, GV) or isinstance(b, GV):
            return self.lift(lambda x, y: self.ibin(op, x, y, ty, st, flags), a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple):
            return tuple(self.ibin(op, x, y, ty[2], st, flags) for x, y in zip(a, b))
        bits = ty[1]
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "sub":
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.obj is b.obj:
                        return T.sub(a.off, b.off)
                    raise Unsupported("difference of pointers into different objects %s %s" % (a, b))
                if isinstance(a, Ptr):
                    return a.plus(T.neg(asint(b)))
            if op == "add":
                return a.plus(asint(b)) if isinstance(a, Ptr) else b.plus(asint(a))
            if op == "and" and T.is_num(b) and isinstance(a, Ptr):
                if 0 <= b < 16:
                    return T.imod(a.off, b + 1) if not T.is_num(a.off) else a.off & b
                if b < 0 and b >= -64:
                    if T.is_num(a.off) and a.off % (-b) == 0:
                        return a
                    m = T.imod(a.off, -b)
                    if T.is_num(m) and m == 0:
                        return a
            raise Unsupported("%s on pointers" % op)
        if bits == 1:
            a, b = asbool(a), asbool(b)
            if op == "and":
                return T.and_(a, b)
            if op == "or":
                return T.or_(a, b)
            if op in ("xor", "add", "sub"):
                return T.ne(a, b)
            if op == "mul":
                return T.and_(a, b)
        if op in ("and", "or", "xor"):
            sa, sb = T.sort_of(a), T.sort_of(b)
            if sa == "B" or sb == "B":
                def isb(x):
                    return T.sort_of(x) == "B" or (T.is_num(x) and x in (0, 1))
                if isb(a) and isb(b):
                    a, b = asbool(a), asbool(b)
                    return {"and": T.and_, "or": T.or_, "xor": T.ne}[op](a, b)
                if T.is_num(b) and op == "and" and b & 1:
                    return a
                if T.is_num(a) and op == "and" and a & 1:
                    return b
        a, b = asint(a), asint(b)
        for x in (a, b):
            if isinstance(x, (Fraction, Inf, NaN_)) or isinstance(x, Term) and x.sort == "R":
                raise Unsupported("integer arithmetic on floating values: %s %s %s" % (op, a, b))
        if op == "add":
            return self.wrap(T.add(a, b), bits)
        if op == "sub":
            return self.wrap(T.sub(a, b), bits)
        if op == "mul":
            return self.wrap(T.mul(a, b), bits)
        con = T.is_num(a) and T.is_num(b)
        if op == "shl":
            if T.is_num(b):
                return self.wrap(T.scale(1 << b, a), bits)
        if op in ("sdiv", "udiv"):
            if con:
                if b == 0:
                    raise Unsupported("division by zero")
                if op == "udiv":
                    a &= (1 << bits) - 1
                    b &= (1 << bits) - 1
                return self.wrap(T.idiv(a, b), bits)
            if T.is_num(b) and b != 0:
                return T.idiv(a, b)
            if "exact" in flags:
                return T.idiv(a, b)
            return T.idiv(a, b)
        if op in ("srem", "urem"):
            if con and b != 0:
                return self.wrap(T.imod(a & ((1 << bits) - 1) if op == "urem" else a, b), bits)
            return T.imod(a, b)
        if op in ("ashr", "lshr") and T.is_num(b):
            if T.is_num(a):
                if op == "lshr":
                    return self.wrap((a & ((1 << bits) - 1)) >> b, bits)
                return a >> b
            if "exact" in flags or self.nonneg(a, st):
                return T.idiv(a, 1 << b)
            if op == "ashr":
                return T.idiv(a, 1 << b) if "exact" in flags else T.mk("ishr", (a, b), "I")
        if con:
            if op == "and":
                return self.wrap(a & b, bits)
            if op == "or":
                return self.wrap(a | b, bits)
            if op == "xor":
                return self.wrap(a ^ b, bits)
        if op == "and":
            if T.is_num(a):
                a, b = b, a
            if T.is_num(b):
                if b == -1:
                    return a
                if b == 0:
                    return 0
                if b > 0 and (b & (b + 1)) == 0 and self.nonneg(a, st):
                    return T.imod(a, b + 1)
                if b < 0 and (-b & (-b - 1)) == 0 and self.nonneg(a, st):
                    return T.sub(a, T.imod(a, -b))
        if op == "or" and "disjoint" in flags:
            return T.add(a, b)
        if op == "xor" and T.is_num(b) and b == -1:
            return T.sub(-1, a)
        if op == "or" and T.is_num(b) and b == 0:
            return a
        raise Unsupported("%s %s %s" % (op, a, b))

    def cast(self, op, v, src, dst, flags, st):
        if isinstance(v, GV):
            return self.lift(lambda x: self.cast(op, x, src, dst, flags, st), v)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, tuple):
            return tuple(self.cast(op, x, src[2], dst[2], flags, st) for x in v)
        if op in ("ptrtoint", "inttoptr", "addrspacecast", "bitcast"):
            if op == "inttoptr" and T.is_num(v):
                return NULL if v == 0 else Ptr(None, v)
            if op == "ptrtoint" and isinstance(v, Ptr) and v.obj is None:
                return v.off
            return v
        if op == "zext":
            if src == I1:
                return v if T.sort_of(v) == "B" else v
            if T.is_num(v):
                return int(v) & ((1 << src[1]) - 1)
            if T.sort_of(v) == "B" or "nneg" in flags or self.nonneg(v, st):
                return v
            return T.ite(T.le(0, v), v, T.add(v, 1 << src[1]))
        if op == "sext":
            if src == I1:
                return T.ite(v, -1, 0) if not isinstance(v, bool) else (-1 if v else 0)
            return v
        if op == "trunc":
            if isinstance(v, Ptr):
                raise Unsupported("trunc of pointer")
            if T.is_num(v) and not isinstance(v, bool):
                r = self.wrap(v, dst[1])
                return bool(r) if dst == I1 else r
            if dst == I1:
                if T.sort_of(v) == "B":
                    return v
                if v.op == "ite" and all(T.is_num(x) and x in (0, 1) for x in v.args[1:]):
                    return T.ite(v.args[0], v.args[1] == 1, v.args[2] == 1)
                return T.ne(T.imod(v, 2), 0) if not (v.lo == 0 and getattr(v, "hi", None) == 1) else asbool(v)
            return v
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("sitofp", "uitofp"):
            if op == "uitofp" and not self.nonneg(v, st):
                v = asint(v)
                v = T.ite(T.le(0, v), v, T.add(v, 1 << src[1])) if not T.is_num(v) else v & ((1 << src[1]) - 1)
            return T.toreal(asint(v))
        if op in ("fptosi", "fptoui"):
            if T.is_num(v):
                return int(v)
            if isinstance(v, (Inf, NaN_)):
                raise Unsupported("conversion of infinity")
            if v.op == "toreal":
                return v.args[0]
            if v.op == "fn:floorr":
                return T.mk("fn:floor", v.args, "I")
            r = T.mk("fn:trunc", (v,), "I")
            return r
        raise Unsupported(op)

    # ---------------------------------------------------------- control
    def cfg_of(self, f):
        r = self.cfgs.get(f.name)
        if r is None:
            r = cfg(f)
            self.cfgs[f.name] = r
        return r

    def call(self, name, args, st):
        """call a function by name -> (value, state); raises Dead if no path returns"""
        f = self.m.func(name)
        if f is None:
            raise Unsupported("no body for %s" % self.dem(name))
        self.inlined.add(name)
        env = {}
        for (t, nm), a in zip(f.params, args):
            if nm:
                env[nm] = a
        if self.depth > 60:
            raise Unsupported("call depth")
        self.depth += 1
        fr = Frame(f, env)
        try:
            entry = f.order[0]
            self.cfg_of(f)
            exits = self.run_dag(fr, None, {entry: [(st, {})]}, None)
        finally:
            self.depth -= 1
        if not fr.rets:
            raise Dead()
        return self.merge_rets(fr.rets)

    def merge_rets(self, rets):
        if len(rets) == 1:
            return rets[0][1], rets[0][0]
        return self.merge_states([(s, {"r": v}) for s, v in rets], unpack="r")

    def merge_states(self, lst, unpack=None):
        st, phis = self._merge(lst)
        if unpack:
            return phis.get(unpack), st
        return st, phis

    def _merge(self, lst):
        lst = [x for x in lst if not x[0].infeasible()]
        if not lst:
            raise Dead()
        if len(lst) == 1:
            return lst[0]
        # common prefix of path conditions
        n = min(len(s.pc) for s, _ in lst)
        k = 0
        while k < n and all(s.pc[k] is lst[0][0].pc[k] for s, _ in lst):
            k += 1
        prefix = lst[0][0].pc[:k]

        def build(group, depth):
            # -> (residual condition, state-like, phis)
            if len(group) == 1:
                s, ph = group[0]
                return T.and_(*s.pc[depth:]), s, ph
            heads = {}
            for s, ph in group:
                h = s.pc[depth] if len(s.pc) > depth else True
                heads.setdefault(h if not isinstance(h, Term) else h.id, [h, []])[1].append((s, ph))
            if len(heads) == 1 and all(len(s.pc) > depth for s, _ in group):
                h = next(iter(heads.values()))[0]
                c, s, ph = build(group, depth + 1)
                return T.and_(h, c), s, ph
            if len(heads) == 2:
                (h1, g1), (h2, g2) = heads.values()
                if isinstance(h1, Term) and isinstance(h2, Term) and T.not_(h1) is h2:
                    c1, s1, p1 = build(g1, depth + 1)
                    c2, s2, p2 = build(g2, depth + 1)
                    s, ph = self.join2(h1, s1, p1, s2, p2)
                    return (T.ite(h1, c1, c2) if not (c1 is True and c2 is True) else True), s, ph
            # general: fold left by full residual conditions
            s0, p0 = group[-1]
            c0 = T.and_(*s0.pc[depth:])
            conds = [c0]
            for s1, p1 in reversed(group[:-1]):
                c1 = T.and_(*s1.pc[depth:])
                s0, p0 = self.join2(c1, s1, p1, s0, p0)
                conds.append(c1)
            return T.or_(*conds), s0, p0
        c, s, ph = build(lst, k)
        r = State(prefix, dict(s.mem))
        r.assume(c)
        return r, ph

    def join2(self, c, s1, p1, s2, p2):
        """state equal to s1 where c holds, else s2"""
        mem = {}
        n = State(s2.pc, mem)
        for o in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(o), s2.mem.get(o)
            if a is b:
                mem[o] = a
            elif a is None or b is None:
                mem[o] = a if b is None else b
            else:
                mem[o] = self.join_os(c, o, a, b, n)
        ph = {}
        for k in set(p1) | set(p2):
            if k in p1 and k in p2:
                ph[k] = merge_val(c, p1[k], p2[k])
            else:
                ph[k] = p1.get(k, p2.get(k))
        return n, ph

    def join_os(self, c, o, a, b, st):
        r = OS()
        r.owner = st.tok
        r.freed = a.freed and b.freed
        if a.freed != b.freed:
            r.freed = False
        if o.kind == "array":
            if a.log == b.log:
                r.log = a.log
            else:
                k = 0
                while k < min(len(a.log), len(b.log)) and a.log[k] is b.log[k]:
                    k += 1
                # single writes: merge element-wise when all differing entries are plain writes at the same places
                ta, tb = a.log[k:], b.log[k:]
                if all(e[0] == "w" for e in ta + tb):
                    log = a.log[:k]
                    keys = []
                    for e in ta + tb:
                        if not any(T.eq(e[1], q[0]) is True and e[2] == q[1] for q in keys):
                            keys.append((e[1], e[2], e[3]))
                    ok = True
                    for x, y in itertools.combinations(keys, 2):
                        if x[1] == y[1] and T.eq(x[0], y[0]) is not False:
                            ok = False
                    if ok:
                        sa, sb = State((), {o: a}), State((), {o: b})
                        for i, f, sz in keys:
                            va = [e[4] for e in ta if T.eq(e[1], i) is True and e[2] == f and e[3] == sz]
                            vb = [e[4] for e in tb if T.eq(e[1], i) is True and e[2] == f and e[3] == sz]
                            some = (va or vb)[-1]
                            ty = PTR if isinstance(some, (Ptr, GV)) else (
                                DBL if T.sort_of(some) == "R" else ('i', 8 * sz)) if some is not UNDEF else ('i', 8 * sz)
                            x = va[-1] if va else self.aread(o, i, f, ty, sz, sa, a.log[:k])
                            y = vb[-1] if vb else self.aread(o, i, f, ty, sz, sb, a.log[:k])
                            log = log + (("w", i, f, sz, merge_val(c, x, y)),)
                        r.log = log
                        return r
                r.log = (("ite", c, a.log, b.log),)
            return r
        if a.ranges == b.ranges:
            r.ranges = a.ranges
        else:
            k = 0
            while k < min(len(a.ranges), len(b.ranges)) and a.ranges[k] == b.ranges[k]:
                k += 1
            r.ranges = a.ranges[:k]
            # materialise the differing parts through known cells only
            diff = a.ranges[k:] + b.ranges[k:]
            for x in diff:
                if x[0] == "copy":
                    src, snap, soff = x[3], x[4], x[5]
                    if src.kind == "cell" and isinstance(soff, int):
                        for off2, cc in list(snap.cells.items()):
                            kk = off2 - soff + x[1]
                            if x[1] <= kk and kk + cc[0] <= x[2]:
                                pass
            r.ranges = a.ranges[:k] + (("merge", 0, None, c, a, b),) if False else r.ranges
            self._merge_ranges(c, o, a, b, r, k)
        keys = set(a.cells) | set(b.cells)
        sa, sb = State((), {o: a}), State((), {o: b})
        for k in keys:
            x, y = a.cells.get(k), b.cells.get(k)
            if x is not None and y is not None and x[0] == y[0]:
                r.cells[k] = x if x[1] is y[1] else (x[0], merge_val(c, x[1], y[1]))
                continue
            if x is not None and y is not None:
                # different granularity: keep only if one side is undefined
                if x[1] is UNDEF:
                    r.cells[k] = y
                elif y[1] is UNDEF:
                    r.cells[k] = x
                else:
                    r.cells[k] = (max(x[0], y[0]), UNDEF)
                continue
            have, hs, other, osd = (x, sa, b, sb) if x is not None else (y, sb, a, sa)
            v = have[1]
            ty = self.guess_ty(v, have[0])
            try:
                w = self.cload(o, k, ty, have[0], osd, raw=True)
            except Unsupported:
                w = UNDEF
            r.cells[k] = (have[0], merge_val(c, v, w) if x is not None else merge_val(c, w, v))
        return r

    def _merge_ranges(self, c, o, a, b, r, k):
        """ranges differ: cells that exist only through a range on one side must be materialised"""
        for s, other in ((a, b), (b, a)):
            for x in s.ranges[k:]:
                if x[0] == "copy":
                    lay = self.layout_guess(x)
                    for off, sz, ty in lay:
                        if off not in s.cells:
                            try:
                                self.cload(o, off, ty, sz, State((), {o: s}), raw=True)
                            except Unsupported:
                                pass
                elif x[0] in ("zero", "byte"):
                    hi = x[2] if x[2] is not None else x[1]
                    for off in range(x[1], hi, 8):
                        covered = any(q <= off < q + s.cells[q][0] for q in range(max(0, off - 15), off + 1)
                                      if q in s.cells)
                        if covered:
                            continue
                        if off in other.cells:
                            sz = other.cells[off][0]
                            ty = self.guess_ty(other.cells[off][1], sz)
                            if not any(off < q < off + sz for q in s.cells):
                                s.cells[off] = (sz, self.cload(o, off, ty, sz, State((), {o: s}), raw=True))
        for x in (a.ranges[k:] + b.ranges[k:]):
            if x[0] in ("zero", "byte") and x[2] is not None and x[2] - x[1] > 65536:
                raise Unsupported("merge of large ranges")
        # keep a range if it is on both sides later
        for x in a.ranges[k:]:
            if x in b.ranges[k:]:
                r.ranges = r.ranges + (x,)

    def layout_guess(self, x):
        out = []
        src, snap, soff = x[3], x[4], x[5]
        lay = src.meta.get("fields")
        if lay and src.kind == "cell":
            for o, sz, ty in lay:
                if soff <= o and o + sz <= soff + x[2] - x[1]:
                    out.append((o - soff + x[1], sz, ty))
        elif lay:
            for o, sz, ty in lay:
                if o + sz <= x[2] - x[1]:
                    out.append((o + x[1], sz, ty))
        elif src.kind == "cell" and isinstance(soff, int):
            for q, (sz, v) in snap.cells.items():
                if soff <= q and q + sz <= soff + x[2] - x[1]:
                    out.append((q - soff + x[1], sz, self.guess_ty(v, sz)))
            for y in snap.ranges:
                if y[0] == "copy":
                    for off, sz, ty in self.layout_guess(y):
                        if soff <= off and off + sz <= soff + x[2] - x[1]:
                            out.append((off - soff + x[1], sz, ty))
        return out

    def guess_ty(self, v, size):
        if isinstance(v, (Ptr, FnPtr)):
            return PTR
        if isinstance(v, GV):
            return self.guess_ty(v.alts[0][1], size)
        if isinstance(v, (Fraction, Inf, NaN_)) or isinstance(v, Term) and v.sort == "R":
            return DBL
        return ('i', 8 * size)

    def run_dag(self, fr, subset, pending, back_to):
        """process pending blocks in topological order. subset: blocks to stay in (None = whole function);
        edges to back_to (loop header) and edges leaving the subset are returned:
        {"back": [(st, phis)], "exits": {(block): [(st, phis)]}}"""
        rpo, num, loops, preds = self.cfg_of(fr.f)
        out = {"back": [], "exits": {}}
        import heapq
        heap = [num[b] for b in pending]
        heapq.heapify(heap)
        inq = set(heap)
        started = False
        while heap:
            n = heapq.heappop(heap)
            inq.discard(n)
            b = rpo[n]
            lst = pending.pop(b, None)
            if not lst:
                continue
            try:
                st, phis = self._merge(lst)
            except Dead:
                continue
            edges = []
            if b in loops and not (b == back_to and not started):
                edges = self.run_loop(fr, b, loops[b], st, phis)
            else:
                started = started or b == back_to
                fr.env.update(phis)
                edges = self.run_block(fr, b, st)
            for tgt, s2, ph in edges:
                if s2.infeasible():
                    continue
                if tgt == back_to:
                    out["back"].append((s2, ph))
                elif subset is not None and tgt not in subset:
                    out["exits"].setdefault(tgt, []).append((s2, ph))
                else:
                    pending.setdefault(tgt, []).append((s2, ph))
                    if num[tgt] not in inq:
                        inq.add(num[tgt])
                        heapq.heappush(heap, num[tgt])
        return out

    def edge(self, fr, frm, to, st):
        blk = fr.f.blocks[to]
        ph = {}
        for p in blk.phis:
            v = self.operand(p.a[frm], fr.env, st)
            ph[p.res] = v
        return (to, st, ph)

    # ---------------------------------------------------------- loops
    def run_loop(self, fr, h, body, st, phis):
        spec = self.loop_spec(fr, h)
        if spec is not None:
            return spec(self, fr, h, body, st, phis)
        nobl, nfacts = len(self.obls), len(self.facts)
        short = min(self.opts.get("peel", 40), self.opts["unroll"])
        bounded = self.peel(fr, h, body, st, phis, short)
        if bounded is not None and bounded != "long":
            return bounded
        if bounded is None:
            return self.summarise(fr, h, body, st, phis)
        # a long concrete loop: summarise, or else unroll it completely
        try:
            del self.obls[nobl:]
            del self.facts[nfacts:]
            return self.summarise(fr, h, body, st, phis)
        except Unsupported:
            del self.obls[nobl:]
            del self.facts[nfacts:]
            return self.peel(fr, h, body, st, phis, self.opts["unroll"])

    def loop_spec(self, fr, h):
        for pat, fn in self.loop_specs.items():
            fnpat, idx = pat
            if re.search(fnpat, self.dem(fr.f.name)):
                hs = sorted(self.cfg_of(fr.f)[2], key=lambda b: self.cfg_of(fr.f)[1][b])
                if idx is None or hs.index(h) == idx:
                    return fn
        return None

    def peel(self, fr, h, body, st, phis, limit):
        """unroll while each iteration's continuation is decided by a concrete condition; None if not applicable"""
        edges = {}
        cur, ph = st.fork(), dict(phis)
        nobl, nfacts = len(self.obls), len(self.facts)
        for it in range(limit):
            fr.conc = False
            saved = self.branchlog
            self.branchlog = [set(), set()]      # concrete exits, symbolic exits
            cur_pc = cur.pc
            out = self.run_dag(fr, body, {h: [(cur, ph)]}, h)
            conc, symb = self.branchlog
            self.branchlog = saved
            exiting = set(b for b in body if any(s not in body for s in fr.f.blocks[b].succ))
            for tgt, l in out["exits"].items():
                edges.setdefault(tgt, []).extend(l)
            if not out["back"]:
                return [(t, s, p) for t, l in edges.items() for s, p in l]
            if not (conc & exiting) and it >= self.opts.get("symbolic_unroll", 0):
                if it == 0:
                    del self.obls[nobl:]
                    del self.facts[nfacts:]
                    return None
                return "long" if limit < self.opts["unroll"] else self._unsup("loop with undecided bound")
            cur, ph = self._merge(out["back"])
            if it > 3 and cur.pc != cur_pc and self.opts["prune"]:
                if smt.quick(self.facts, cur.pc, False, 1000):
                    return [(t, s, p) for t, l in edges.items() for s, p in l]
        if limit < self.opts["unroll"]:
            return "long"
        raise Unsupported("loop not finished after %d iterations" % limit)

    def _unsup(self, m):
        raise Unsupported(m)

    def summarise(self, fr, h, body, st, phis):
        from .loops import summarise
        return summarise(self, fr, h, body, st, phis)

    # ---------------------------------------------------------- blocks
    def run_block(self, fr, b, st):
        blk = fr.f.blocks[b]
        env = fr.env
        try:
            for ins in blk.ins:
                self.nsteps += 1
                r = self.step(fr, ins, st)
                if r is not None:
                    st = r
            t = blk.ins[-1]
            op = t.op
            if op == "ret":
                v = None
                if t.a[0] is not None:
                    v = self.operand(t.a[1], env, st)
                fr.rets.append((st, v))
                return []
            if op == "br":
                return [self.edge(fr, b, t.a[0], st)]
            if op == "invoke":
                return [self.edge(fr, b, t.a["normal"], st)]
            if op == "cbr":
                c = self.operand(t.a[0], env, st)
                if c is UNDEF:
                    self.oblige("branch on an undefined value", False, st)
                    raise Dead()
                if isinstance(c, GV):
                    raise Unsupported("branch on alternatives")
                c = asbool(c)
                if not isinstance(c, bool):
                    for x in st.pc:
                        if x is c:
                            c = True
                            break
                        if T.not_(c) is x:
                            c = False
                            break
                if self.branchlog is not None:
                    self.branchlog[0 if isinstance(c, bool) else 1].add(b)
                if isinstance(c, bool):
                    return [self.edge(fr, b, t.a[1] if c else t.a[2], st)]
                s1 = st.fork(c)
                s2 = st.fork(T.not_(c))
                res = []
                if self.opts.get("branch_prune"):
                    if not self.implied(False, s1):
                        res.append(self.edge(fr, b, t.a[1], s1))
                    if not self.implied(False, s2):
                        res.append(self.edge(fr, b, t.a[2], s2))
                    return res
                return [self.edge(fr, b, t.a[1], s1), self.edge(fr, b, t.a[2], s2)]
            if op == "switch":
                c = asint(self.operand(t.a[0], env, st))
                if T.is_num(c):
                    for v, l in t.a[2]:
                        if v[1] == c:
                            return [self.edge(fr, b, l, st)]
                    return [self.edge(fr, b, t.a[1], st)]
                res = []
                rest = st
                for v, l in t.a[2]:
                    e = T.eq(c, v[1])
                    s1 = rest.fork(e)
                    if not s1.infeasible():
                        res.append(self.edge(fr, b, l, s1))
                    rest = rest.fork(T.not_(e))
                if not rest.infeasible():
                    res.append(self.edge(fr, b, t.a[1], rest))
                return res
            if op == "unreachable":
                self.end_path(fr, st)
                return []
            raise Unsupported("terminator " + op)
        except Dead:
            return []

    def end_path(self, fr, st):
        h = self.opts.get("on_unreachable")
        if h:
            h(self, fr, st)
        else:
            self.oblige("unreachable code in " + self.dem(fr.f.name)[:80], False, st)

    def step(self, fr, ins, st):
        op = ins.op
        env = fr.env
        if op == "load":
            p = self.operand(ins.a[0], env, st)
            env[ins.res] = self.load(p, ins.ty, st)
            return
        if op == "store":
            v = self.operand(ins.a[0], env, st)
            p = self.operand(ins.a[1], env, st)
            self.store(p, ins.ty, v, st)
            return
        if op == "gep":
            base = self.operand(ins.a[1][0][1], env, st)
            env[ins.res] = self.gep(base, ins.a[0], [(t, self.operand(v, env, st)) for t, v in ins.a[1][1:]])
            return
        if op == "alloca":
            n = 1
            if ins.a[1] is not None:
                n = self.operand(ins.a[1][1], env, st)
            size = T.mul(self.m.size(ins.a[0]), n) if n != 1 else self.m.size(ins.a[0])
            key = (fr.id, ins.res)
            o = Obj("%s" % ins.res, size)
            s = st.wos(o)
            env[ins.res] = Ptr(o, 0)
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a = self.operand(ins.a[0], env, st)
            b = self.operand(ins.a[1], env, st)
            if isinstance(a, tuple):
                env[ins.res] = tuple(self.fbin(op, x, y, st) for x, y in zip(a, b))
            else:
                env[ins.res] = self.fbin(op, a, b, st)
            return
        if op == "fneg":
            a = self.operand(ins.a[0], env, st)
            if isinstance(a, tuple):
                env[ins.res] = tuple(self.fbin("fmul", Fraction(-1), x, st) for x in a)
            else:
                env[ins.res] = self.fbin("fmul", Fraction(-1), a, st)
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            a = self.operand(ins.a[0], env, st)
            b = self.operand(ins.a[1], env, st)
            env[ins.res] = self.ibin(op, a, b, ins.ty, st, ins.a[2])
            return
        if op == "icmp":
            a = self.operand(ins.a[1], env, st)
            b = self.operand(ins.a[2], env, st)
            env[ins.res] = self.icmp(ins.a[0], a, b, ins.ty, st)
            return
        if op == "fcmp":
            a = self.operand(ins.a[1], env, st)
            b = self.operand(ins.a[2], env, st)
            if isinstance(a, tuple):
                env[ins.res] = tuple(self.fcmp(ins.a[0], x, y, st) for x, y in zip(a, b))
            else:
                env[ins.res] = self.fcmp(ins.a[0], a, b, st)
            return
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
                  "inttoptr", "bitcast", "addrspacecast"):
            v = self.operand(ins.a[1], env, st)
            env[ins.res] = self.cast(op, v, ins.a[0], ins.ty, ins.a[2], st)
            return
        if op == "select":
            c = self.operand(ins.a[0], env, st)
            a = self.operand(ins.a[1], env, st)
            b = self.operand(ins.a[2], env, st)
            if isinstance(c, tuple):
                env[ins.res] = tuple(merge_val(asbool(x), y, z) for x, y, z in zip(c, a, b))
            elif c is UNDEF:
                env[ins.res] = UNDEF
            else:
                c = asbool(c)
                if self.opts.get("select_prune") and not isinstance(c, bool):
                    c = True if self.implied(c, st) else False if self.implied(T.not_(c), st) else c
                env[ins.res] = merge_val(c, a, b)
            return
        if op == "freeze":
            env[ins.res] = self.operand(ins.a[0], env, st)
            return
        if op == "extractvalue":
            v = self.operand(ins.a[0], env, st)
            for i in ins.a[1]:
                v = v[i] if isinstance(v, tuple) else UNDEF
            env[ins.res] = v
            return
        if op == "insertvalue":
            v = self.operand(ins.a[0], env, st)
            x = self.operand(ins.a[1], env, st)
            env[ins.res] = self.insert(v, ins.ty, ins.a[2], x)
            return
        if op == "extractelement":
            v = self.operand(ins.a[0], env, st)
            i = self.operand(ins.a[1], env, st)
            env[ins.res] = v[i] if isinstance(v, tuple) else UNDEF
            return
        if op == "insertelement":
            v = self.operand(ins.a[0], env, st)
            x = self.operand(ins.a[1], env, st)
            i = self.operand(ins.a[2], env, st)
            t = self.m.resolve(ins.ty)
            l = list(v) if isinstance(v, tuple) else [UNDEF] * t[1]
            l[i] = x
            env[ins.res] = tuple(l)
            return
        if op == "shufflevector":
            a = self.operand(ins.a[0], env, st)
            b = self.operand(ins.a[1], env, st)
            m = self.operand(ins.a[2], env, st)
            t = self.m.resolve(ins.ty)
            n = t[1]
            a = a if isinstance(a, tuple) else (UNDEF,) * n
            b = b if isinstance(b, tuple) else (UNDEF,) * n
            ab = a + b
            if m is UNDEF:
                m = (0,) * self.m.resolve(ins.a[3])[1]
            env[ins.res] = tuple(ab[i] if not isinstance(i, Undef) else UNDEF for i in m)
            return
        if op in ("call", "invoke"):
            return self.do_call(fr, ins, st)
        if op in ("br", "cbr", "switch", "ret", "unreachable"):
            return
        if op == "landingpad":
            env[ins.res] = UNDEF
            return
        if op == "atomicrmw":
            p = self.operand(ins.a[1], env, st)
            v = self.operand(ins.a[2], env, st)
            old = self.load(p, ins.ty, st)
            k = ins.a[0]
            if k in ("add", "sub"):
                new = self.ibin(k, old, v, ins.ty, st)
            elif k == "xchg":
                new = v
            else:
                raise Unsupported("atomicrmw " + k)
            self.store(p, ins.ty, new, st)
            env[ins.res] = old
            return
        raise Unsupported("instruction " + ins.line)

    def insert(self, v, ty, idx, x):
        t = self.m.resolve(ty)
        n = len(t[1]) if t[0] == 'lit' else t[1]
        l = list(v) if isinstance(v, tuple) else [UNDEF] * n
        if len(idx) == 1:
            l[idx[0]] = x
        else:
            et = t[1][idx[0]] if t[0] == 'lit' else t[2]
            l[idx[0]] = self.insert(l[idx[0]], et, idx[1:], x)
        return tuple(l)

    def do_call(self, fr, ins, st):
        callee = ins.a["callee"]
        if callee[0] == 'g':
            name = callee[1]
        elif callee[0] == 'asm':
            return
        else:
            fp = self.operand(callee, fr.env, st)
            if isinstance(fp, GV):
                raise Unsupported("call through alternatives")
            if not isinstance(fp, FnPtr):
                raise Unsupported("indirect call")
            name = fp.name
        if name.startswith("llvm.") and name.split(".")[1] in ("lifetime", "dbg", "experimental", "assume", "stacksave",
                                                              "stackrestore", "donothing", "invariant", "prefetch", "var"):
            if ins.res:
                fr.env[ins.res] = UNDEF
            return
        args = [self.operand(v, fr.env, st) for _, v in ins.a["args"]]
        key = name
        h = self._mcache.get(key)
        if h is None:
            d = self.dem(name)
            h = (None, d)
            for pat, fn, label in self.models:
                if re.search(pat, d):
                    h = (fn, d, label)
                    break
            self._mcache[key] = h
        if h[0] is not None:
            if h[2]:
                self.trusted[h[2]] = self.trusted.get(h[2], 0) + 1
            call = Call(self, fr, ins, name, h[1], args, st, [t for t, _ in ins.a["args"]])
            r = h[0](call)
            if r is NOTHANDLED:
                pass
            else:
                if ins.res:
                    fr.env[ins.res] = r
                return call.st if call.st is not st else None
        if name in self.m.fsrc:
            v, s2 = self.call(name, args, st)
            if ins.res:
                fr.env[ins.res] = v
            return s2
        raise Unsupported("call of " + h[1][:150])


class NH:
    pass


NOTHANDLED = NH()


class Call:
    def __init__(self, ex, fr, ins, name, dem, args, st, types):
        self.ex, self.fr, self.ins, self.name, self.dem, self.args, self.st, self.types = \
            ex, fr, ins, name, dem, args, st, types


class Frame:
    _n = itertools.count()

    def __init__(s, f, env):
        s.f, s.env = f, env
        s.rets = []
        s.id = next(Frame._n)
