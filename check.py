#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on /repo's current tree.

1. the proof units of the property (engine/): every obligation generated from the
   current sources must be accepted by the solver;
2. the native differential (replay/): bounded, labelled so, replays and stands in
   where the verifier has no proof.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, shutil, tempfile, subprocess, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import build, bindings
from vlib.props import PROPS

T0 = time.time()
PY = "/opt/veriftools/pyvenv/bin/python3" if os.path.exists("/opt/veriftools/pyvenv/bin/python3") else "python3-vt"


def run_limited(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors="replace"), e.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout"


# ---------------------------------------------------------------- proofs
def prove(prop, work, tier):
    """[(unit, proof)] -> results"""
    out = {"units": [], "obligations": [], "failed": [], "unknown": [], "unsupported": [], "functions": set(),
           "solver_s": 0.0, "queries": 0, "covers": 0, "loops": {}}
    todo = PROPS[prop].get("proofs", [])
    budget = PROPS[prop].get("budget", 200) * (1 if tier == "quick" else 3)
    by_unit = {}
    for u, p in todo:
        by_unit.setdefault(u, []).append(p)

    def comp(u):
        rc, o, e = run_limited([PY, HERE + "/engine/vcrun.py", u, "--compile-only", "--repo", build.REPO, "--ll", work + "/u"], 300)
        return u, rc, o + e

    with cf.ThreadPoolExecutor(4) as pool:
        comps = list(pool.map(comp, by_unit))
    jobs = []
    for u, rc, text in comps:
        if rc != 0:
            out["unsupported"].append("unit %s does not compile against the current sources: %s" % (u, text[-800:]))
        else:
            jobs += [(u, p) for p in by_unit[u]]

    def one(job):
        u, p = job
        js = "%s/%s.%s.json" % (work, u, p)
        rc, o, e = run_limited([PY, HERE + "/engine/vcrun.py", u, p, "--keep", "--ll", work + "/u", "--json", js,
                                "--budget", str(budget)], budget + 60)
        return u, p, rc, js, o, e

    with cf.ThreadPoolExecutor(6) as pool:
        for u, p, rc, js, o, e in pool.map(one, jobs):
            if rc != 0 or not os.path.exists(js):
                out["unsupported"].append("%s/%s: no result (%s)" % (u, p, e[-400:]))
                continue
            r = json.load(open(js))
            d = r["proofs"].get(p)
            out["functions"] |= set(r["functions"])
            for k in r["unsupported"]:
                out["unsupported"].append("%s/%s: %s" % (u, p, k))
            out["loops"].update(r.get("loops", {}))
            if not d:
                continue
            out["units"].append({"unit": u, "proof": p, "obligations": d["obligations"], "vcs": d["vcs"], "seconds": d["seconds"],
                                 "solver_s": d["solver_s"], "paths": d["paths"]})
            out["solver_s"] += d["solver_s"]
            out["queries"] += d["queries"]
            out["covers"] += len(d["covers"])
            for x in r["obligations"]:
                out["obligations"].append(x)
            for n, det in d["failed"]:
                out["failed"].append("%s/%s: %s  %s" % (u, p, n, (det or "")[:1500]))
            for n in d["unknown"]:
                out["unknown"].append("%s/%s: %s" % (u, p, n))
            for n in d["uncovered"]:
                out["unsupported"].append("%s/%s: point not reached: %s" % (u, p, n))
    out["functions"] = sorted(out["functions"])
    return out


# ---------------------------------------------------------------- native
def native_sasdiff(prop, sd, work, seed, count, limit):
    """several processes on disjoint ranges of cases"""
    nproc = 4 if limit < 120 else 8
    first = (seed % 1000003) * 1000003 % (1 << 31)
    per = (count + nproc - 1) // nproc
    env = bindings.san_env()
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_abort=1"

    def one(k):
        o = "%s/n%d" % (work, k)
        os.makedirs(o, exist_ok=True)
        rc, out, err = run_limited([sd, prop, str(first + k * per), str(per), o, str(limit)], limit + 120, env=env)
        return k, o, rc, out, err

    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "known": 0}
    bad = None
    with cf.ThreadPoolExecutor(nproc) as pool:
        for k, o, rc, out, err in pool.map(one, range(nproc)):
            for l in out.splitlines():
                if l.startswith("DONE "):
                    total["evaluations"] += int(l.split("evaluations=")[1].split()[0])
                    total["distinct_nontrivial"] += int(l.split("nontrivial=")[1])
                if l.startswith("KNOWN "):
                    total["known"] += int(l.split()[1])
                if l.startswith("SAMPLE ") and len(total["samples"]) < 3:
                    total["samples"].append(l[7:])
            if rc != 0 and bad is None:
                bad = (o, rc, out, err)
    return total, bad


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    known = json.load(open(HERE + "/known_findings.json"))
    rdir = HERE + "/replays/" + prop
    try:
        return check(prop, tier, seed, cfg, work, known, rdir)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed, cfg, work, known, rdir):
    violation = None  # (text, files, has_input)
    native = {"evaluations": 0, "distinct_nontrivial": 0, "samples": []}
    notes = []
    pool = cf.ThreadPoolExecutor(3)
    fp = pool.submit(prove, prop, work, tier)

    def do_native():
        scale = cfg.get("count", 6000) * (1 if tier == "quick" else 12)
        limit = cfg.get("limit", 60) * (1 if tier == "quick" else 8)
        sd = build.sasdiff(work + "/sd")
        kind = cfg.get("native", "sasdiff")
        if kind == "sasdiff":
            total, bad = native_sasdiff(prop, sd, work, seed, scale, limit)
            if bad:
                o, rc, out, err = bad
                files = glob.glob(o + "/input.sas7bdat")
                mm = [l for l in out.splitlines()]
                if rc is None:
                    text = "the native check did not come to an end on this input"
                elif rc == 1 and any(l.startswith("MISMATCH") for l in mm):
                    text = "\n".join(mm[[i for i, l in enumerate(mm) if l.startswith("MISMATCH")][0]:][:12])
                elif rc == 77:
                    text = "no progress (a call did not return within its time)"
                elif rc == 3:
                    raise build.BuildError("driver usage")
                else:
                    text = "the process died (status %s)\n%s" % (rc, err[-3000:])
                return total, (text, files + glob.glob(o + "/replay.txt"), True)
            return total, None
        w = work + "/nat"
        os.makedirs(w)
        try:
            if kind == "cli":
                n, nt, samples = bindings.c15(sd, build.cli(work + "/cli"), w, seed, cfg["count"] * (1 if tier == "quick" else 10))
            elif kind == "python":
                n, nt, samples = bindings.c16(sd, build.pymodule(work + "/py"), w, seed, cfg["count"] * (1 if tier == "quick" else 10))
            else:
                n, nt, samples = bindings.c17(sd, build.rmodule(work + "/r"), w, seed, cfg["count"] * (1 if tier == "quick" else 10))
            return {"evaluations": n, "distinct_nontrivial": nt, "samples": samples, "known": 0}, None
        except bindings.Outcome as x:
            return native, (x.text, list(x.files), True)

    fn = pool.submit(do_native)
    try:
        native, v = fn.result()
        violation = violation or v
    except build.BuildError as x:
        notes.append("native differential not built: %s" % str(x)[-1500:])
    except subprocess.TimeoutExpired as x:
        violation = violation or ("the native check did not come to an end: %s" % x, [], True)
    pr = fp.result()
    if pr["failed"] and not violation:
        violation = ("obligations refused by the verifier:\n  " + "\n  ".join(pr["failed"]), [], False)
    # an unknown answer or an unsupported construct is no violation: the bounded check stands in
    for x in pr["unsupported"]:
        notes.append("not proved, bounded check stands in: " + x)
    for x in pr["unknown"]:
        notes.append("not proved (solver gave no answer), bounded check stands in: " + x)
    discharged = [x for x in pr["obligations"] if x["status"] == "discharged"]
    proved = bool(cfg.get("proofs")) and not pr["unsupported"] and not pr["unknown"] and not pr["failed"]
    for n in notes:
        print("NOTE " + n.replace("\n", " ")[:600])
    print("%s: %d/%d obligations discharged, %d functions under contract or executed by the verifier, native cases %d, %.0f s" % (
        prop, len(discharged), len(pr["obligations"]), len(pr["functions"]), native["evaluations"], time.time() - T0))

    # ---- evidence
    cov = {"evaluations": native["evaluations"], "distinct_nontrivial": native["distinct_nontrivial"],
           "rule": cfg["rule"], "samples": native["samples"],
           "obligations": len(pr["obligations"]), "discharged": len(discharged),
           "checker_cmd": "python3-vt engine/vcrun.py <unit> <proof> -v (VC generation from clang-18 LLVM IR of /repo's sources; back ends z3 and cvc5)",
           "trusted_base": cfg.get("trusted", []) + TRUSTED if cfg.get("proofs") else ["native execution of the compiled code, bounded"],
           "bounded": "native differential: labelled bounded, never counted as proved",
           "proof_complete": proved,
           "proof_units": pr["units"], "solver_seconds": round(pr["solver_s"], 2), "solver_queries": pr["queries"],
           "functions_under_contract": pr["functions"], "loop_invariants": pr["loops"],
           "reachability_checks": pr["covers"], "notes": notes}
    if cfg["level"] == "other":
        cov["explanation"] = cfg["explanation"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)

    for f in known["findings"]:
        if f["property"] == prop and (native.get("known") or prop != "C02"):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if violation:
        text, files, has = violation
        os.makedirs(rdir, exist_ok=True)
        for f in files:
            if os.path.exists(f):
                shutil.copy(f, rdir)
        path = rdir + "/violation.txt"
        with open(path, "w") as o:
            o.write("property %s\n%s\n" % (prop, text))
            if has:
                o.write("\nfiles beside this one: the input; rerun: see replay.txt\n")
            for n in notes:
                o.write("note: %s\n" % n)
        print(text[:3000])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if has else " no-failing-input-found"))
        return 1
    return 0


TRUSTED = ["the VC generator engine/*.py and its LLVM IR semantics", "clang-18 front end and the sroa/simplifycfg passes",
           "z3 / cvc5", "contracts assumed for library functions (engine/builtins_vc.py, stubs/)"]

if __name__ == "__main__":
    sys.exit(main())
