"""Compile a proof unit from /repo's current sources and discharge it."""
import importlib.util
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

FLAGS = ["-std=c++20", "-DJSON_HAS_THREE_WAY_COMPARISON=0", "-DFMT_DEPRECATED_OSTREAM",
         "-DFMT_CONSTEVAL=", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=1", "-fno-access-control",
         "-w", "-fno-vectorize", "-fno-slp-vectorize", "-Wno-everything", "-D_FORTIFY_SOURCE=0"]


class CompileError(Exception):
    pass


def compile_unit(src, repo, out, defs=(), stubs=("stubs",), incs=()):
    ll0, ll = out + ".0.ll", out + ".ll"
    inc = []
    for s in stubs:
        inc += ["-I", os.path.join(VERIF, s)]
    inc += ["-I", os.path.join(VERIF, "replay/inc"), "-I", os.path.join(VERIF, "spec"), "-I", os.path.join(repo, "include"), "-I", os.path.join(repo, "src")]
    for i in incs:
        inc += ["-I", i.replace("$REPO", repo)]
    cmd = ["clang++-18", "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm"] + FLAGS + \
        ["-DVC_REPO=" + repo] + ["-D" + d for d in defs] + inc + [src, "-o", ll0]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    r = subprocess.run(["opt-18", "-S", "-passes=function(sroa,simplifycfg)", ll0, "-o", ll],
                       capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    os.unlink(ll0)
    return ll


class UnitHooks:
    """unit specific handlers: names are demangled prefixes"""
    merge_names = ()
    real_fp = False       # binary64 arithmetic over the reals (fp_real.py)

    def lookup(self, B, n, d):
        return None

    redirects = {}        # demangled prefix -> harness function called in its place

    def redirect(self, d):
        for k, v in self.redirects.items():
            if d.startswith(k):
                return v
        return None

    def merge(self, d):
        return any(d.startswith(m) for m in self.merge_names)


def run_unit(ll, proofs, hooks=None, timeout_ms=20000, budget_s=240, log=None):
    from ir import Module
    from exec import Exec
    import terms
    t0 = time.time()
    mod = Module(open(ll).read())
    res = {"proofs": {}, "obligations": [], "unsupported": {}, "functions": [], "loops": {}}
    avail = [f[1:] for f in mod.functions if not mod.functions[f].decl]
    fns = set()
    for p in proofs:
        terms.AX.clear()
        ex = Exec(mod, hooks, timeout_ms, log)
        t = time.time()
        if p not in avail:
            res["unsupported"]["missing proof function " + p] = 1
            continue
        ends = ex.prove(p, budget_s)
        fns |= {ex.demn(n) for n in ex.fns_used}
        obl = [o for o in ex.obls.values()]
        failed = [(o.name, o.detail) for o in obl if o.failed]
        unknown = [o.name for o in obl if o.unknown and not o.failed]
        uncov = [k for k, v in ex.covers.items() if not v]
        res["proofs"][p] = {
            "ends": ends, "obligations": len(obl), "vcs": sum(o.n for o in obl),
            "failed": failed, "unknown": unknown, "uncovered": uncov,
            "covers": sorted(ex.covers), "paths": ex.paths,
            "seconds": round(time.time() - t, 2), "solver_s": round(ex.smt.time, 2),
            "queries": ex.smt.queries}
        for o in obl:
            res["obligations"].append({"proof": p, "name": o.name, "vcs": o.n,
                                       "status": "refuted" if o.failed else ("unknown" if o.unknown else "discharged")})
        for k, v in ex.unsupported.items():
            res["unsupported"]["%s: %s" % (p, k)] = v
        res["loops"].update(ex.loop_report)
    res["functions"] = sorted(fns)
    res["seconds"] = round(time.time() - t0, 2)
    return res


if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("unit")
    ap.add_argument("proofs", nargs="*")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--ll", default="/tmp/w/unit")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--timeout", type=int, default=20000)
    ap.add_argument("--budget", type=int, default=300)
    ap.add_argument("--json")
    ap.add_argument("--compile-only", action="store_true")
    a = ap.parse_args()
    import units
    u = units.UNITS[a.unit]
    ll = a.ll + "_" + a.unit + ".ll" if a.keep else compile_unit(os.path.join(VERIF, "harness", u.src), a.repo, a.ll + "_" + a.unit, u.defs, u.stubs, u.incs)
    if a.compile_only:
        sys.exit(0)
    r = run_unit(ll, a.proofs or u.proofs, u.hooks() if u.hooks else None, a.timeout, a.budget, print if a.v else None)
    if a.json:
        import json
        json.dump(r, open(a.json, "w"), indent=1)
    for p, d in r["proofs"].items():
        print("%-34s ends=%-4d obl=%-4d vcs=%-6d paths=%-5d %6.1fs (solver %.1fs, %d queries)" % (
            p, d["ends"], d["obligations"], d["vcs"], d["paths"], d["seconds"], d["solver_s"], d["queries"]))
        for n, det in d["failed"]:
            print("   FAILED  %s\n           %s" % (n, (det or '')[:500]))
        for n in d["unknown"]:
            print("   UNKNOWN %s" % n)
        for n in d["uncovered"]:
            print("   NOT REACHABLE %s" % n)
    for k, v in r["unsupported"].items():
        print("UNSUPPORTED", k)
    print("total", r["seconds"])
