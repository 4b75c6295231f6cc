"""Translate drivers + /repo headers to LLVM IR on every run."""
import os
import re
import subprocess
import tempfile
from .irparse import Module

REPO = os.environ.get("CLMB_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ["-std=c++17", "-w", "-I%s/include" % REPO, "-I%s/drivers" % VERIF, "-isystem", "/usr/include/eigen3", "-O0",
         "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-DEIGEN_DONT_VECTORIZE", "-S", "-emit-llvm",
         "-fno-vectorize", "-fno-access-control"]
PASSES = "globaldce,cgscc(inline,function(sroa,early-cse,simplifycfg)),globaldce,function(sroa,early-cse,simplifycfg,instsimplify,sroa,early-cse,lcssa),globaldce"


class BuildError(Exception):
    pass


DEF = re.compile(r'^define (.*?)@("[^"]*"|[-a-zA-Z$._0-9]+)\(')
LINK = re.compile(r'^define\s+(?:(?:linkonce_odr|weak_odr|internal|private|dso_local|hidden|available_externally|external|linkonce|weak)\s+)*')


def _declare(l):
    """'define … {' line to a declaration"""
    # argument list: balanced parentheses after the name
    m = DEF.match(l)
    i = m.end() - 1
    d = 0
    j = i
    while True:
        ch = l[j]
        if ch == '"':
            j = l.index('"', j + 1)
        elif ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    args = l[i + 1:j]
    # drop argument names: keep everything, names are legal in declarations of LLVM >= 4
    pre = LINK.sub("", l[:m.start(2)])
    return "declare %s%s(%s)" % (pre, m.group(2), args)


class Unit:
    """one translation unit: front end once, then extractions with chosen roots, contracts and inlining"""

    def __init__(self, src, work, defs=(), ndebug=True):
        self.src, self.work = src, work
        os.makedirs(work, exist_ok=True)
        base = os.path.join(work, os.path.basename(src).replace(".cpp", "") + ".0.ll")
        cmd = ["clang++-18"] + FLAGS + (["-DNDEBUG"] if ndebug else []) + ["-D" + d for d in defs] + [src, "-o", base]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("clang: " + r.stderr[:3000])
        with open(base) as f:
            self.lines = f.read().split("\n")
        os.unlink(base)
        self.names = {}
        for i, l in enumerate(self.lines):
            if l.startswith("define"):
                self.names[i] = DEF.match(l).group(2).strip('"')
        d = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(self.names.values()), capture_output=True, text=True).stdout
        self.dem = dict(zip(self.names.values(), d.split("\n")))
        self.n = 0

    def initialisers(self, pattern):
        """names of the dynamic initialisers of the globals whose demangled name matches"""
        p = re.compile(pattern)
        cur, out = None, []
        for i, l in enumerate(self.lines):
            if i in self.names:
                n = self.names[i]
                cur = n if "global_var_init" in n else None
            elif cur and "@" in l:
                for g in re.findall(r'@([-a-zA-Z$._0-9]+)', l):
                    if g.startswith("_Z") and g not in self.dem:
                        self.dem[g] = subprocess.run(["llvm-cxxfilt-18", g], capture_output=True, text=True).stdout.strip()
                    if p.search(self.dem.get(g, g)) and cur not in out and not g in self.names.values():
                        out.append(cur)
        return out

    def extract(self, roots, noinline=(), stub=(), passes=PASSES):
        """IR of the root functions with everything inlined into them, except: functions whose demangled name matches
        `stub` become declarations (their contract stands for them), those matching `noinline` stay separate"""
        nip = [re.compile(p) for p in noinline]
        stp = [re.compile(p) for p in stub]
        rp = [re.compile(p) for p in roots]
        out = []
        skip = False
        found = set()
        for i, l in enumerate(self.lines):
            if skip:
                if l == "}":
                    skip = False
                continue
            if i in self.names:
                n = self.names[i]
                dm = self.dem[n]
                isroot = False
                for p in rp:
                    if p.search(dm):
                        isroot = True
                        found.add(p.pattern)
                if not isroot and any(p.search(dm) for p in stp):
                    out.append(_declare(l))
                    skip = True
                    continue
                # everything but the roots is internal, so that what is not reachable goes away
                if not isroot:
                    l = LINK.sub("define internal ", l)
                else:
                    l = re.sub(r'^define (internal|private|linkonce_odr|weak_odr) ', 'define ', l)
                l = re.sub(r'\bcomdat(\(\$[^)]*\))?', '', l)
                at = "noinline" if isroot or any(p.search(dm) for p in nip) else ""
                if re.search(r' #\d+', l):
                    l = re.sub(r' (#\d+)', r' %s \1' % at, l, count=1)
            elif l.startswith("@llvm.global_ctors"):
                continue
            elif l.startswith("attributes #"):
                l = re.sub(r'\bnoinline\b', '', l)
                l = re.sub(r'\boptnone\b', '', l)
            elif l.startswith("@") and " comdat" in l:
                l = re.sub(r',? comdat(\(\$[^)]*\))?', '', l)
                l = re.sub(r'= (linkonce_odr|weak_odr) ', '= internal ', l) if "declare" not in l else l
            out.append(l)
        missing = [p.pattern for p in rp if p.pattern not in found]
        if missing:
            raise BuildError("no function matches root %s" % missing)
        self.n += 1
        fd, o1 = tempfile.mkstemp(suffix=".ll", dir=self.work)
        with os.fdopen(fd, "w") as f:
            f.write("\n".join(out))
        o2 = o1[:-3] + ".o.ll"
        cmd = ["opt-18", "-S", "-inline-threshold=100000000", "-passes=" + passes, o1, "-o", o2]
        r = subprocess.run(cmd, capture_output=True, text=True)
        os.unlink(o1)
        if r.returncode:
            raise BuildError("opt: " + r.stderr[:3000])
        m = Module(o2)
        return m
