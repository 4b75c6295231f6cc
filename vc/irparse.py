"""Lazy parser for LLVM-18 textual IR (opaque pointers, x86-64 layout)."""
import re
import struct
import subprocess
from fractions import Fraction

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*"            # string constant
 | [%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | !(?:"[^"]*"|[-a-zA-Z$._0-9]*)
 | \#\d+
 | \$(?:"[^"]*"|[-a-zA-Z$._0-9]+)
 | "[^"]*"
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+\.\d+(?:[eE][-+]?\d+)?
 | -?\d+
 | [a-zA-Z_][-a-zA-Z_0-9.$]*
 | \.\.\.
 | [][(){}<>,=*|:]
''', re.X)


# ---- types: interned tuples
#  ('i',n) ('f',bits) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t) ('st',name) ('lit',(ts),packed) ('label',) ('meta',) ('fn',)
class Ty:
    pass


I1, I8, I32, I64 = ('i', 1), ('i', 8), ('i', 32), ('i', 64)
PTR = ('ptr',)
DBL = ('f', 64)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(s, op, res, ty, a, line):
        s.op, s.res, s.ty, s.a, s.line = op, res, ty, a, line


class Block:
    __slots__ = ("name", "ins", "phis", "succ")


class Func:
    def __init__(s, name, params, rty):
        s.name, s.params, s.rty = name, params, rty
        s.blocks = {}
        s.order = []


class P:
    """token stream"""

    def __init__(s, mod, toks):
        s.m, s.t, s.i = mod, toks, 0

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x:
            s.i += 1
            return True
        return False

    def need(s, x):
        if not s.eat(x):
            raise SyntaxError("expected %r at %r" % (x, s.t[max(0, s.i - 5):s.i + 8]))


PARAM_ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "signext",
               "zeroext", "inreg", "immarg", "nofree", "nest", "swiftself", "noreturn", "allocalign", "allocptr",
               "writable", "dead_on_unwind", "inalloca"}
FMF = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"}


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}
        self.fsrc = {}
        self.funcs = {}
        self.decls = set()
        self.attrs = {}
        self._lay = {}
        self.dem = {}
        cur = None
        with open(path) as f:
            for line in f:
                if cur is not None:
                    if line.startswith("}"):
                        cur = None
                    else:
                        cur.append(line)
                    continue
                if line.startswith("define"):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                    name = m.group(1).strip('"')
                    cur = []
                    self.fsrc[name] = (line, cur)
                elif line.startswith("%"):
                    m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)', line)
                    if m:
                        self.types[m.group(1)] = m.group(2)
                elif line.startswith("@"):
                    m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', line)
                    self.globals[m.group(1).strip('"')] = m.group(2)
                elif line.startswith("declare"):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                    if m:
                        self.decls.add(m.group(1).strip('"'))
        names = list(self.fsrc) + list(self.decls)
        r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True)
        for n, d in zip(names, r.stdout.split("\n")):
            self.dem[n] = d

    # ---------------------------------------------------------- types
    def ty(self, p):
        t = p.next()
        if t == "void":
            r = ('void',)
        elif t == "ptr":
            r = PTR
            if p.peek() == "addrspace":
                p.next(), p.need("("), p.next(), p.need(")")
        elif re.fullmatch(r"i\d+", t):
            r = ('i', int(t[1:]))
        elif t == "double":
            r = DBL
        elif t == "float":
            r = ('f', 32)
        elif t == "x86_fp80":
            r = ('f', 80)
        elif t == "half":
            r = ('f', 16)
        elif t == "fp128":
            r = ('f', 128)
        elif t == "label":
            r = ('label',)
        elif t == "metadata":
            r = ('meta',)
        elif t == "token":
            r = ('token',)
        elif t == "opaque":
            r = ('opaque',)
        elif t == "[":
            n = int(p.next())
            p.need("x")
            e = self.ty(p)
            p.need("]")
            r = ('arr', n, e)
        elif t == "{":
            ts = []
            if not p.eat("}"):
                ts.append(self.ty(p))
                while p.eat(","):
                    ts.append(self.ty(p))
                p.need("}")
            r = ('lit', tuple(ts), False)
        elif t == "<":
            if p.peek() == "{":
                p.next()
                ts = []
                if not p.eat("}"):
                    ts.append(self.ty(p))
                    while p.eat(","):
                        ts.append(self.ty(p))
                    p.need("}")
                p.need(">")
                r = ('lit', tuple(ts), True)
            else:
                n = int(p.next())
                p.need("x")
                e = self.ty(p)
                p.need(">")
                r = ('vec', n, e)
        elif t[0] == "%":
            r = ('st', t)
        else:
            raise SyntaxError("type %r in %r" % (t, p.t[:40]))
        while p.peek() == "(" and getattr(p, "fnty", True):
            # function type  ret (args)
            d = 0
            j = p.i
            while True:
                if p.t[j] == "(":
                    d += 1
                elif p.t[j] == ")":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            nxt = p.t[j + 1] if j + 1 < len(p.t) else None
            p.i = j + 1
            r = ('fnty', r)
        return r

    def resolve(self, t):
        while t[0] == 'st':
            v = self.types[t[1]]
            if isinstance(v, str):
                if v.strip() == "opaque":
                    v = ('opaque',)
                else:
                    v = self.ty(P(self, TOK.findall(v)))
                self.types[t[1]] = v
            t = v
        return t

    def layout(self, t):
        """-> (size, align, field offsets or None)"""
        r = self._lay.get(t)
        if r:
            return r
        k = t[0]
        if k == 'st':
            r = self.layout(self.resolve(t))
        elif k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16), None)
        elif k == 'f':
            r = {16: (2, 2, None), 32: (4, 4, None), 64: (8, 8, None), 80: (16, 16, None), 128: (16, 16, None)}[t[1]]
        elif k == 'ptr':
            r = (8, 8, None)
        elif k == 'arr':
            s, a, _ = self.layout(t[2])
            r = (s * t[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(t[2])
            n = s * t[1]
            al = 1
            while al < n:
                al *= 2
            r = (n, al, None)
        elif k == 'lit':
            off = 0
            offs = []
            am = 1
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                am = max(am, a)
            off = (off + am - 1) // am * am
            r = (off, am, tuple(offs))
        else:
            raise SyntaxError("layout %r" % (t,))
        self._lay[t] = r
        return r

    def size(self, t):
        return self.layout(t)[0]

    # ---------------------------------------------------------- operands
    def const(self, p, ty):
        """parse a value of the given type -> operand tuple"""
        t = p.next()
        if t[0] == "%":
            return ('v', t)
        if t[0] == "@":
            return ('g', t[1:].strip('"'))
        if t == "true":
            return ('c', True)
        if t == "false":
            return ('c', False)
        if t == "null":
            return ('null',)
        if t in ("undef", "poison"):
            return ('undef', ty)
        if t == "zeroinitializer":
            return ('zero', ty)
        if t == "none":
            return ('undef', ty)
        if t.startswith("0x"):
            if t[2] in "KMLHR":
                return ('undef', ty)
            v = struct.unpack(">d", bytes.fromhex(t[2:].rjust(16, "0")))[0]
            return ('c', fl(v))
        if re.fullmatch(r"-?\d+", t):
            return ('c', int(t))
        if re.fullmatch(r"-?\d+\.\d+(?:[eE][-+]?\d+)?", t):
            return ('c', fl(float(t)))
        if t[0] == 'c' and t.startswith('c"'):
            return ('str', t)
        if t in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast",
                 "add", "sub", "mul", "xor", "and", "or", "shl", "lshr", "ashr", "icmp", "fcmp", "select"):
            op = t
            while p.peek() in ("inbounds", "nuw", "nsw", "exact", "inrange"):
                p.next()
            if op in ("icmp", "fcmp"):
                pred = p.next()
            p.need("(")
            if op == "getelementptr":
                st = self.ty(p)
                p.need(",")
                args = []
                while True:
                    if p.peek() == "inrange":
                        p.next()
                        if p.eat("("):
                            while not p.eat(")"):
                                p.next()
                    at = self.ty(p)
                    args.append((at, self.const(p, at)))
                    if not p.eat(","):
                        break
                p.need(")")
                return ('gep', st, args)
            args = []
            while True:
                at = self.ty(p)
                args.append((at, self.const(p, at)))
                if p.eat("to"):
                    dt = self.ty(p)
                    break
                if not p.eat(","):
                    break
            p.need(")")
            return ('ce', op, args, ty)
        if t == "[" or t == "<" or t == "{":
            close = {"[": "]", "<": ">", "{": "}"}[t]
            if t == "<" and p.peek() == "{":
                p.next()
                close = "}"
                packed = True
            else:
                packed = False
            xs = []
            if not p.eat(close):
                while True:
                    et = self.ty(p)
                    xs.append((et, self.const(p, et)))
                    if not p.eat(","):
                        break
                p.need(close)
            if packed:
                p.need(">")
            return ('agg', ty, xs)
        if t == "asm":
            while p.peek() not in ("(",):
                p.next()
            return ('asm',)
        if t == "blockaddress" or t == "dso_local_equivalent":
            raise SyntaxError(t)
        raise SyntaxError("operand %r in %r" % (t, p.t[:30]))

    def tyval(self, p):
        t = self.ty(p)
        self.skip_attrs(p)
        return t, self.const(p, t)

    def skip_attrs(self, p):
        while True:
            t = p.peek()
            if t in PARAM_ATTRS:
                p.next()
            elif t in ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype",
                       "preallocated", "nofpclass", "memory", "captures", "range"):
                p.next()
                if t == "align" and p.peek() != "(":
                    p.next()
                elif p.peek() == "(":
                    d = 0
                    while True:
                        x = p.next()
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                            if d == 0:
                                break
            elif t is not None and t[0] == '"':
                p.next()
                if p.eat("="):
                    p.next()
            elif t is not None and t[0] == '#':
                p.next()
            else:
                return

    # ---------------------------------------------------------- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.fsrc:
            f = self._parse(name)
            self.funcs[name] = f
        return f

    def _parse(self, name):
        hdr, body = self.fsrc[name]
        p = P(self, TOK.findall(hdr))
        while p.peek() != "@" + name and p.peek() != '@"%s"' % name:
            p.next()
        p.next()
        p.need("(")
        params = []
        while not p.eat(")"):
            if p.eat("..."):
                continue
            t = self.ty(p)
            self.skip_attrs(p)
            nm = None
            if p.peek() and p.peek()[0] == "%":
                nm = p.next()
            params.append((t, nm))
            p.eat(",")
        f = Func(name, params, None)
        cur = None
        i = 0
        n = 0
        # entry label
        unnamed = sum(1 for _, nm in params if nm and re.fullmatch(r"%\d+", nm))
        lines = body
        cur = Block()
        cur.name = "%" + str(unnamed)
        cur.ins, cur.phis, cur.succ = [], [], []
        first = True
        k = 0
        while k < len(lines):
            line = lines[k]
            k += 1
            s = line.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', line)
            if m and not line.startswith(" "):
                lab = "%" + m.group(1)
                if first and not cur.ins:
                    cur.name = lab
                else:
                    cur = Block()
                    cur.name = lab
                    cur.ins, cur.phis, cur.succ = [], [], []
                first = False
                f.blocks[lab] = cur
                f.order.append(lab)
                continue
            if first:
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                first = False
            # multi-line constructs: switch, landingpad clauses, invoke
            if s.startswith("switch") and not s.endswith("]") and "]" not in s:
                while "]" not in lines[k]:
                    s += " " + lines[k].strip()
                    k += 1
                s += " " + lines[k].strip()
                k += 1
            while k < len(lines) and re.match(r'\s+(to label|catch |cleanup|filter )', lines[k]):
                s += " " + lines[k].strip()
                k += 1
            ins = self._ins(s)
            if ins is None:
                continue
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        for b in f.blocks.values():
            t = b.ins[-1]
            if t.op == "br":
                b.succ = [t.a[0]]
            elif t.op == "cbr":
                b.succ = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.a[1]] + [l for _, l in t.a[2]]
            elif t.op == "invoke":
                b.succ = [t.a["normal"]]
            else:
                b.succ = []
        return f

    def _ins(self, s):
        toks = TOK.findall(s.split(", !")[0] if ", !" in s and '"' not in s else s)
        p = P(self, toks)
        res = None
        if len(toks) > 1 and toks[0][0] == "%" and toks[1] == "=":
            res = toks[0]
            p.i = 2
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op in ("call", "invoke"):
            while p.peek() in FMF or p.peek() in ("fastcc", "ccc", "coldcc"):
                p.next()
            self.skip_attrs(p)
            p.fnty = True
            rt = self.ty(p)
            if rt[0] == 'fnty':
                rt = rt[1]
            callee = self.const(p, PTR)
            args = []
            p.need("(")
            while not p.eat(")"):
                t = self.ty(p)
                self.skip_attrs(p)
                if t[0] == 'meta':
                    d = 0
                    while not (d == 0 and p.peek() in (",", ")")):
                        x = p.next()
                        if x == "(":
                            d += 1
                        if x == ")":
                            d -= 1
                    args.append((t, ('undef', t)))
                else:
                    args.append((t, self.const(p, t)))
                p.eat(",")
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.need("to"), p.need("label")
                nl = p.next()
                p.need("unwind"), p.need("label")
                ul = p.next()
                return Instr("invoke", res, rt, {"callee": callee, "args": args, "normal": nl, "unwind": ul}, s)
            return Instr("call", res, rt, {"callee": callee, "args": args}, s)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Instr("br", None, None, [p.next()], s)
            t, c = self.tyval(p)
            p.need(","), p.need("label")
            a = p.next()
            p.need(","), p.need("label")
            b = p.next()
            return Instr("cbr", None, None, [c, a, b], s)
        if op == "switch":
            t, c = self.tyval(p)
            p.need(","), p.need("label")
            d = p.next()
            p.need("[")
            cs = []
            while not p.eat("]"):
                t2, v = self.tyval(p)
                p.need(","), p.need("label")
                cs.append((v, p.next()))
            return Instr("switch", None, t, [c, d, cs], s)
        if op == "ret":
            if p.peek() == "void":
                return Instr("ret", None, None, [None, None], s)
            t, v = self.tyval(p)
            return Instr("ret", None, t, [t, v], s)
        if op in ("unreachable", "resume"):
            return Instr("unreachable", None, None, [], s)
        if op == "phi":
            while p.peek() in FMF:
                p.next()
            t = self.ty(p)
            inc = []
            while p.eat("["):
                v = self.const(p, t)
                p.need(",")
                l = p.next()
                p.need("]")
                inc.append((v, l))
                p.eat(",")
            return Instr("phi", res, t, dict((l, v) for v, l in inc), s)
        if op == "alloca":
            p.eat("inalloca")
            t = self.ty(p)
            n = None
            if p.eat(","):
                if p.peek() not in ("align", "addrspace"):
                    n = self.tyval(p)
            return Instr("alloca", res, PTR, [t, n], s)
        if op == "load":
            at = p.eat("atomic")
            p.eat("volatile")
            t = self.ty(p)
            p.need(",")
            pt, v = self.tyval(p)
            return Instr("load", res, t, [v], s)
        if op == "store":
            p.eat("atomic")
            p.eat("volatile")
            t, v = self.tyval(p)
            p.need(",")
            pt, q = self.tyval(p)
            return Instr("store", None, t, [v, q], s)
        if op == "getelementptr":
            p.eat("inbounds")
            st = self.ty(p)
            p.need(",")
            args = []
            while True:
                t, v = self.tyval(p)
                args.append((t, v))
                if not p.eat(","):
                    break
                if p.peek() and p.peek()[0] == "!":
                    break
            return Instr("gep", res, PTR if args[0][0][0] != 'vec' else args[0][0], [st, args], s)
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl_ = set()
            while p.peek() in ("nuw", "nsw", "exact", "disjoint") or p.peek() in FMF:
                fl_.add(p.next())
            t = self.ty(p)
            a = self.const(p, t)
            p.need(",")
            b = self.const(p, t)
            return Instr(op, res, t, [a, b, fl_], s)
        if op == "fneg":
            while p.peek() in FMF:
                p.next()
            t, a = self.tyval(p)
            return Instr(op, res, t, [a], s)
        if op in ("icmp", "fcmp"):
            while p.peek() in FMF:
                p.next()
            pred = p.next()
            t = self.ty(p)
            a = self.const(p, t)
            p.need(",")
            b = self.const(p, t)
            return Instr(op, res, t, [pred, a, b], s)
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "ptrtoint",
                  "inttoptr", "bitcast", "addrspacecast"):
            fl_ = set()
            while p.peek() in ("nneg", "nuw", "nsw") or p.peek() in FMF:
                fl_.add(p.next())
            t, v = self.tyval(p)
            p.need("to")
            d = self.ty(p)
            return Instr(op, res, d, [t, v, fl_], s)
        if op == "select":
            while p.peek() in FMF:
                p.next()
            ct, c = self.tyval(p)
            p.need(",")
            t, a = self.tyval(p)
            p.need(",")
            t, b = self.tyval(p)
            return Instr(op, res, t, [c, a, b, ct], s)
        if op == "freeze":
            t, a = self.tyval(p)
            return Instr(op, res, t, [a], s)
        if op == "extractvalue":
            t, a = self.tyval(p)
            idx = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, t, [a, idx], s)
        if op == "insertvalue":
            t, a = self.tyval(p)
            p.need(",")
            t2, b = self.tyval(p)
            idx = []
            while p.eat(","):
                if p.peek()[0] == "!":
                    break
                idx.append(int(p.next()))
            return Instr(op, res, t, [a, b, idx], s)
        if op == "extractelement":
            t, a = self.tyval(p)
            p.need(",")
            t2, i = self.tyval(p)
            return Instr(op, res, t, [a, i], s)
        if op == "insertelement":
            t, a = self.tyval(p)
            p.need(",")
            t1, b = self.tyval(p)
            p.need(",")
            t2, i = self.tyval(p)
            return Instr(op, res, t, [a, b, i], s)
        if op == "shufflevector":
            t, a = self.tyval(p)
            p.need(",")
            t1, b = self.tyval(p)
            p.need(",")
            t2, m = self.tyval(p)
            return Instr(op, res, t, [a, b, m, t2], s)
        if op == "landingpad":
            return Instr("landingpad", res, None, [], s)
        if op == "fence":
            return None
        if op == "atomicrmw":
            p.eat("volatile")
            k = p.next()
            pt, q = self.tyval(p)
            p.need(",")
            t, v = self.tyval(p)
            return Instr(op, res, t, [k, q, v], s)
        if op == "cmpxchg":
            p.eat("weak")
            p.eat("volatile")
            pt, q = self.tyval(p)
            p.need(",")
            t, c = self.tyval(p)
            p.need(",")
            t, n = self.tyval(p)
            return Instr(op, res, t, [q, c, n], s)
        raise SyntaxError("instruction: " + s)

    # ---------------------------------------------------------- globals
    def global_init(self, name):
        """-> (type, operand or None, is_constant)"""
        s = self.globals[name]
        p = P(self, TOK.findall(s))
        ext = False
        while p.peek() not in ("global", "constant", "alias", "ifunc"):
            if p.next() in ("external", "extern_weak"):
                ext = True
        k = p.next()
        if k == "alias":
            t = self.ty(p)
            p.need(",")
            return ('alias', self.tyval(p)[1], True)
        t = self.ty(p)
        if ext or p.peek() in (None, ","):
            return t, None, k == "constant"
        return t, self.const(p, t), k == "constant"

    def stored_globals(self):
        """names of globals that some function may write (appears as store target or escapes other than load)"""
        return None


INF = None


class Inf:
    __slots__ = ("neg",)

    def __init__(s, neg):
        s.neg = neg

    def __repr__(s):
        return "-inf" if s.neg else "+inf"


PINF, NINF = Inf(False), Inf(True)


class NaN_:
    def __repr__(s):
        return "nan"


NAN = NaN_()


def fl(v):
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return PINF if v > 0 else NINF
    return Fraction(v)


def cfg(f):
    """dominator-free loop nest: returns (rpo order, loops) where loops: header -> set(blocks); nesting map"""
    entry = f.order[0]
    # rpo
    seen = set()
    post = []
    stack = [(entry, iter(f.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ:
            preds[s].append(b)
    # dominators
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in preds[b] if q in idom]
            n = ps[0]
            for q in ps[1:]:
                x, y = q, n
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise SyntaxError("irreducible loop in " + f.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    return rpo, num, loops, preds
