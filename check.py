#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: decide one property against the current tree of /repo.

1. contracts: the drivers (calls of the functions in /repo/include) are translated to LLVM IR, every proof part of the property
   generates its obligations from that IR and the back ends discharge them;
2. the property's concrete harness is compiled against /repo/include and run: it is the replay and search for failing inputs of
   obligations that fail, and the stated bounded stand-in for what is not under contract.
Exit 0: everything discharged and no failing input.  Exit 1: VIOLATION line.
"""
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("CLMB_REPO", "/repo")
CXX = ["clang++-18", "-std=c++17", "-O1", "-w", "-I%s/include" % REPO, "-isystem", "/usr/include/eigen3"]
PART_LIMIT = 420          # seconds for one proof part
TOTAL_LIMIT = 780         # the check ends before this


def run_part(a):
    """in a forked child: one proof part -> picklable result"""
    prop, mod, name, limit = a
    from vc.proof import Proof, Result
    from vc import smt
    from proofs import registry
    p = Proof(prop)
    t0 = time.time()

    def late(*_):
        raise TimeoutError("proof part exceeded %d s" % limit)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(limit))
    try:
        p.run(name, registry.func(mod, name))
    except BaseException as e:          # anything: the obligation is not discharged
        p.results.append(Result(name + ": proof script", "unknown", "-", time.time() - t0,
                                "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1200:]), name))
    signal.alarm(0)
    if not p.results:
        p.results.append(Result(name + ": generated no obligation", "vacuous", "-", 0, "", name))
    return dict(part=name, secs=time.time() - t0, results=[(r.name, r.status, r.backend, r.secs, r.detail, r.fn) for r in p.results],
                trusted=p.trusted, functions=p.functions, notes=p.notes, loops=[str(x) for x in p.loops], bounded=p.bounded)


class Harness:
    def __init__(self, prop, work):
        self.src = os.path.join(VERIF, "harness", prop.lower() + ".cpp")
        self.bin = os.path.join(work, prop.lower())
        self.exists = os.path.exists(self.src)
        self.error = None

    def compile(self):
        if not self.exists:
            return
        r = subprocess.run(CXX + [self.src, "-o", self.bin], capture_output=True, text=True)
        if r.returncode:
            self.error = "the harness does not compile against the current tree:\n" + r.stderr[:3000]

    def run(self, seed, scale, limit, extra=()):
        """-> dict(ok, out, evaluations, nontrivial, parts, fail)"""
        cmd = [self.bin, "--seed", str(seed), "--scale", str(scale)] + list(extra)
        t0 = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, errors="replace", cwd=os.path.dirname(self.bin))
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b"")
            out = out.decode(errors="replace") if isinstance(out, bytes) else out
            rc = "timeout"
        d = dict(rc=rc, out=out, secs=time.time() - t0, evaluations=0, nontrivial=0, parts=[], fail=None, sample=None)
        for l in out.split("\n"):
            m = re.match(r"PART (\S+) cases=(\d+) nontrivial=(\d+)", l)
            if m:
                d["parts"].append(dict(part=m.group(1), cases=int(m.group(2)), nontrivial=int(m.group(3))))
            m = re.match(r"OK evaluations=(\d+) nontrivial=(\d+)", l)
            if m:
                d["evaluations"], d["nontrivial"] = int(m.group(1)), int(m.group(2))
            if l.startswith("FAIL ") and d["fail"] is None:
                d["fail"] = l
        i = out.find("SAMPLE ")
        if i >= 0:
            d["sample"] = out[i + 7:i + 900]
        if d["fail"] is None and rc not in (0, "timeout"):
            d["fail"] = "FAIL part=? case=-1 seed=%s : the harness ended with status %s" % (seed, rc)
        return d


def known(prop):
    """entries of known-findings.txt: 'finding: property=<id> match=<text> :: <description>'"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    scale = 1.0 if tier == "quick" else 12.0
    work = tempfile.mkdtemp(prefix="clmb-verif-")
    os.environ["CLMB_WORK"] = work
    rc = 1
    try:
        rc = decide(prop, tier, seed, scale, work, t0)
    except Exception:
        traceback.print_exc()
        path = replay_file(prop, "internal error of the check\n" + traceback.format_exc())
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def replay_file(prop, text):
    d = os.path.join(VERIF, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".txt")
    with open(path, "w") as f:
        f.write(text)
    return path


def decide(prop, tier, seed, scale, work, t0):
    from proofs import registry
    parts = registry.PARTS.get(prop, [])
    h = Harness(prop, work)
    ex = cf.ThreadPoolExecutor(8)
    fh = ex.submit(h.compile)
    # front end of the driver units, in parallel
    from proofs import lib
    from vc.build import BuildError
    uerr = {}

    def mk(u):
        try:
            lib.unit(u)
        except BuildError as e:
            uerr[u] = str(e)
    units = sorted({u for p in parts for u in p[2].split(",") if u})
    list(ex.map(mk, units))
    results, loops, trusted, functions, notes, bounded, partinfo = [], [], collections.Counter(), {}, [], [], []
    todo = []
    for mod, name, u in parts:
        bad = [uerr[x] for x in u.split(",") if x in uerr]
        if bad:
            results.append((name + ": translation of the code", "untranslatable", "-", 0.0, bad[0], name))
        else:
            todo.append((prop, mod, name, PART_LIMIT))

    def take(d):
        results.extend(d["results"])
        loops.extend(d["loops"])
        trusted.update(d["trusted"])
        functions.update(d["functions"])
        notes.extend(d["notes"])
        bounded.extend(d["bounded"])
        partinfo.append(dict(part=d["part"], seconds=round(d["secs"], 2), obligations=len(d["results"])))

    hres = None
    fh_run = None
    if todo:
        sys.setrecursionlimit(100000)
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=min(7, len(todo)), mp_context=ctx) as pool:
            futs = {pool.submit(run_part, a): a for a in todo}
            fh.result()
            if h.exists and not h.error:
                fh_run = ex.submit(h.run, seed, scale, 500)
            try:
                for f in cf.as_completed(futs, timeout=max(30, TOTAL_LIMIT - 240 - (time.time() - t0))):
                    a = futs.pop(f)
                    try:
                        take(f.result())
                    except Exception as e:
                        results.append((a[2] + ": proof process", "unknown", "-", 0.0, repr(e), a[2]))
            except cf.TimeoutError:
                pass
            for f, a in futs.items():
                results.append((a[2] + ": proof process", "unknown", "-", 0.0, "time budget of the check exhausted", a[2]))
            if futs:
                for p in list(pool._processes.values()):
                    p.kill()
    else:
        fh.result()
        if h.exists and not h.error:
            fh_run = ex.submit(h.run, seed, scale, 500)
    if fh_run is not None:
        hres = fh_run.result()
    failed = [r for r in results if r[1] != "proved"]
    # an obligation failed: search for an input that shows it, with other seeds and more cases
    search = None
    if failed and h.exists and not h.error and not hres["fail"]:
        for k in range(1, 4):
            left = TOTAL_LIMIT - (time.time() - t0)
            if left < 20:
                break
            search = h.run(seed + 1000 * k, scale * 3, min(left, 150))
            if search["fail"]:
                hres = search
                break
    wall = time.time() - t0
    kf = known(prop)
    for m, d in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    text = []
    viol = 0
    concrete = False
    unknown_fails = []
    if hres and hres["fail"]:
        if not any(m in hres["fail"] for m, _ in kf):
            concrete = True
            viol += 1
    unknown_fails = [r for r in failed if not any(m in r[0] for m, _ in kf)]
    viol += len(unknown_fails)
    harness_problem = None
    if h.error:
        harness_problem = h.error
    elif hres and hres["rc"] == "timeout":
        harness_problem = "the harness did not finish in its time limit"
    if harness_problem:
        viol += 1
    by = collections.Counter(r[2] for r in results if r[1] == "proved")
    secs = round(sum(r[3] for r in results), 2)
    coverage = dict(
        obligations=len(results), discharged=sum(r[1] == "proved" for r in results),
        checker_cmd="python3-vt /verif/check.py %s" % prop,
        trusted_base=registry.BASE_TRUST + ["%s (%d uses)" % (k, v) for k, v in sorted(trusted.items())],
        functions_under_contract=sorted(functions), discharged_by=dict(by), solver_seconds=secs, parts=partinfo,
        loops=[x[:240] for x in loops[:40]], undischarged=[r[0] for r in failed][:40],
        bounded_standins=registry.BOUNDED.get(prop, []),
        bounded_evaluations=hres["evaluations"] if hres else 0, bounded_nontrivial=hres["nontrivial"] if hres else 0,
        bounded_parts=hres["parts"] if hres else [], bounded_sample=(hres or {}).get("sample") or "")
    if notes or bounded:
        coverage["notes"] = notes + bounded
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=coverage,
              assumptions=registry.ASSUME + registry.ASSUME_PROP.get(prop, []), wall_s=round(wall, 2), violations=viol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d obligations, %d discharged (%s), %.1f s of proof; harness: %s; %.1f s" % (
        prop, len(results), coverage["discharged"], ", ".join("%s %d" % x for x in sorted(by.items())), secs,
        "none" if hres is None else "%d cases, %d non-trivial, %.1f s" % (hres["evaluations"], hres["nontrivial"], hres["secs"]), wall))
    for r in failed[:12]:
        print("  NOT DISCHARGED %s [%s] %s" % (r[0], r[1], r[4].strip().split("\n")[0][:300]))
    if not viol:
        return 0
    if concrete:
        text.append("Failing input of the real code (" + prop + ")\n" + hres["fail"] + "\n")
        i = hres["out"].find("INPUT")
        if i >= 0:
            text.append(hres["out"][i:i + 20000])
        m = re.search(r"part=(\S+) case=(-?\d+) seed=(\d+)", hres["fail"])
        if m:
            text.append("\nReplay:\n  %s /verif/harness/%s.cpp -o /tmp/%s && /tmp/%s --seed %s --part %s --case %s" % (
                " ".join(CXX), prop.lower(), prop.lower(), prop.lower(), m.group(3), m.group(1), m.group(2)))
        print(hres["fail"])
    if harness_problem:
        text.append(harness_problem)
        print(harness_problem[:600])
    if unknown_fails:
        text.append("\nObligations that the verifier does not discharge:\n")
        for r in unknown_fails:
            text.append("obligation: %s\n  status: %s (%s, %.1f s)\n  %s\n" % (r[0], r[1], r[2], r[3], r[4]))
    path = replay_file(prop, "\n".join(text))
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if concrete else " no-failing-input-found"))
    return 1


if __name__ == "__main__":
    main()
