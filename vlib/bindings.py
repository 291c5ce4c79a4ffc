"""Bounded native checks of the command line tool and of the Python and R modules (C15, C16, C17)."""
import os, json, random, subprocess, shutil
from . import build


class Outcome(Exception):
    def __init__(self, text, files=()):
        super().__init__(text)
        self.text, self.files = text, files


def san_env():
    return dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="halt_on_error=1", LC_ALL="C.UTF-8")


def emit(sd, kind, seed, count, d):
    os.makedirs(d, exist_ok=True)
    r = build.sh([sd, "emit", kind, str(seed), str(count), d], env=san_env())
    if r.returncode:
        raise build.BuildError("generator failed: " + r.stderr[-1500:])
    return [d + "/%s%d" % (kind, i) for i in range(count)]


# ------------------------------------------------------------------ C15
def snapshot(d):
    s = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            st = os.lstat(p)
            s[os.path.relpath(p, d)] = (open(p, "rb").read(), st.st_ino, st.st_mtime_ns)
    return s


def csv_name(name):
    head, _, last = name.rpartition("/")
    if "." in last:
        new = last[:last.rindex(".") + 1] + "csv"
        if new == last:
            new = last + ".csv"
    else:
        new = last + ".csv"
    return (head + "/" if head else "") + new


def c15(sd, cli, work, seed, count):
    rng = random.Random(seed)
    bases = emit(sd, "cli", seed, 12, work + "/gen")
    frag = ["a", "b1", "data", "x_y", "sp ace", "cl-ass", "2020", "csv", "sas7bdat", "V", "in"]
    exts = [".sas7bdat", ".csv", ".SAS7BDAT", ".dat", "", ".", ".csv.sas7bdat", ".sas7bdat.csv", ".CSV", ".c", ".cs", ".csvx", ".tmp"]
    dirs = ["", "./", "d/", "d.x/", "d.csv/", "d.sas7bdat/e/", "./d.v1/../d.x/", "ABS"]
    fixed = [["in.csv"], ["noext"], ["d.x/noext"], ["./noext"], ["d.csv/noext"], ["a.b.c"], ["d.csv/in.csv"], ["csv"], ["x."],
             ["a.sas7bdat", "b.sas7bdat"], ["ABSq.sas7bdat"], ["ABSd.v/q"]]
    n = nontrivial = 0
    samples = []
    for k in range(count):
        d = work + "/case"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        if k < len(fixed):
            names = list(fixed[k])
        else:
            names = []
            for _ in range(rng.choice([1, 1, 1, 2, 3, 4])):
                names.append(rng.choice(dirs) + rng.choice(frag) + rng.choice(["", ".v1", ".", "_1"]) + rng.choice(exts))
        names = [x.replace("ABS", d + "/") for x in names]
        real = lambda x: os.path.realpath(os.path.join(d, x))
        chosen, used = [], set()
        for x in names:
            os.makedirs(os.path.dirname(os.path.join(d, x)) or d, exist_ok=True)
        for x in names:  # inputs and outputs must be different files
            t = {real(x), real(csv_name(x))}
            if t & used or os.path.isdir(real(x)) or os.path.isdir(real(csv_name(x))):
                continue
            used |= t
            chosen.append((x, rng.choice(bases)))
        if not chosen:
            continue
        for x, b in chosen:
            shutil.copy(b + ".sas7bdat", real(x))
        before = snapshot(d)
        cmd = [cli, rng.choice(["csv"] * 8 + ["null", "print"]) if k >= len(fixed) else "csv"] + [x for x, _ in chosen]
        if any(x.startswith("-") for x, _ in chosen):
            continue
        r = build.sh(cmd, cwd=d, env=san_env(), timeout=120)
        n += 1
        after = snapshot(d)
        what = "cppsas7bdat-ci %s" % " ".join(cmd[1:])
        keep = [real(x) for x, _ in chosen]
        for x, _ in chosen:
            p = os.path.relpath(real(x), d)
            if after.get(p) != before[p]:
                raise Outcome("%s: the input file %s was modified" % (what, x), [b + ".sas7bdat" for _, b in chosen])
        if r.returncode:
            raise Outcome("%s: exit status %d: %s" % (what, r.returncode, r.stderr[-1500:]), [b + ".sas7bdat" for _, b in chosen])
        want = {os.path.relpath(p, d) for p in keep}
        if cmd[1] == "csv":
            for x, b in chosen:
                nontrivial += 1
                p = os.path.relpath(real(csv_name(x)), d)
                want.add(p)
                if p not in after:
                    raise Outcome("%s: no %s" % (what, p), [b + ".sas7bdat"])
                if after[p][0] != open(b + ".csv.expected", "rb").read():
                    raise Outcome("%s: %s is not the CSV rendering of %s (%r...)" % (what, p, x, after[p][0][:200]), [b + ".sas7bdat", b + ".csv.expected"])
        if set(after) != want:
            raise Outcome("%s: files %s, expected %s" % (what, sorted(after), sorted(want)), [])
        if len(samples) < 3:
            samples.append(what)
    return n, nontrivial, samples


# ------------------------------------------------------------------ C16 C17
def hexs(s):
    return "x" + s.encode("latin1").hex()


GROUPS = ["number", "integer", "datetime", "date", "time", "string"]


def scenario(rng, case, lang):
    kind = rng.choice(["row", "chunk", "chunk", "chunk", "data"])
    total = len(case["rows"])
    chunk = rng.choice([1, 2, 3, max(1, total), max(1, total - 1), total + 1, max(1, total // 2), rng.randint(1, 12)])
    ops = []
    for _ in range(rng.randint(0, 7)):
        o = rng.choice("RRNNSSIE" if kind != "data" or lang == "py" else "RRNNSSI")
        if o == "N":
            o += str(rng.choice([0, 1, 2, chunk, chunk + 1, total, rng.randint(0, 15)]))
        if o == "S":
            o += str(rng.choice([0, 1, 2, chunk, rng.randint(0, 8)]))
        if o == "E" and rng.random() < 0.5:
            o = "F" if lang == "py" else "E"
        ops.append(o)
    if kind == "data" and lang == "r":  # nothing is read after the end of data
        pos = 0
        keep = []
        for o in ops:
            k = int(o[1:] or 0)
            if pos + (1 if o[0] == "R" else k if o[0] in "NS" else 0) > total:
                break
            pos += 1 if o[0] == "R" else k if o[0] in "NS" else 0
            keep.append(o)
        ops = keep
    if rng.random() < 0.85:
        ops.append("A")
        if rng.random() < 0.4:
            ops += rng.choice([["R"], ["E"], ["A"], ["E", "R"], ["N2"]])
    inc = exc = None
    names = [c["name"] for c in case["columns"]]
    if rng.random() < 0.25:
        inc = rng.sample(names, rng.randint(0, len(names))) + (["nosuch"] if rng.random() < 0.3 else [])
    if rng.random() < 0.25:
        exc = rng.sample(names, rng.randint(0, len(names)))
    return kind, chunk, ops, inc, exc


def model(case, sc, lang):
    kind, chunk, ops, inc, exc = sc
    cols = [i for i, c in enumerate(case["columns"])
            if (c["name"] in inc if inc else c["name"] not in exc if exc else True)]
    rows, total = case["rows"], len(case["rows"])

    def cell(i, k, vec):
        t, v = case["columns"][k]["type"], rows[i][k]
        if t == "number":
            return "%.17g" % v
        if t == "integer":
            return str(v)
        if t != "string" and v == "not-a-date-time":
            return "NULL" if lang == "py" or not vec else "NA"
        return hexs(v)

    def table(idx):
        g = [k for t in GROUPS for k in cols if case["columns"][k]["type"] == t]
        return ";".join(hexs(case["columns"][k]["name"]) + "=" + ",".join(cell(i, k, True) for i in idx) for k in g)

    log = ["P " + ",".join(hexs(case["columns"][k]["name"]) for k in cols) if lang == "py" else "P"]
    st = {"pos": 0, "buf": [], "attr": True}

    def flush(eod=True):
        if eod:
            st["attr"] = False
        if st["buf"]:
            if kind == "chunk":
                log.append("CHUNK %s %s" % ("%d-%d" % (st["buf"][0], st["buf"][-1]) if lang == "py" else ",".join(map(str, st["buf"])), table(st["buf"])))
            elif kind == "data":
                log.append("DATA " + ("" if lang == "py" else ",".join(map(str, st["buf"])) + " ") + table(st["buf"]))
        st["buf"] = []

    def push():
        i = st["pos"]
        st["pos"] += 1
        if kind == "row":
            if lang == "py":
                log.append("ROW %d %s" % (i, ",".join(cell(i, k, False) for k in cols)))
            else:
                log.append("ROW %d %s" % (i, ";".join(hexs(case["columns"][k]["name"]) + "=" + cell(i, k, False) for k in cols)))
        else:
            st["buf"].append(i)
            if kind == "chunk" and len(st["buf"]) == chunk:
                flush(False)

    def row():
        if st["pos"] < total:
            push()
            return True
        flush()
        return False

    for o in ops:
        n = int(o[1:] or 0)
        res = "-"
        if o[0] == "A":
            while row():
                pass
        elif o[0] == "R":
            res = row()
        elif o[0] == "N":
            res = True
            while n:
                if not row():
                    res = False
                    break
                n -= 1
        elif o[0] == "S":
            res = n <= total - st["pos"]
            st["pos"] += min(n, total - st["pos"])
            if not res:
                flush()
        elif o[0] == "E" or (o[0] == "F" and st["attr"]):
            flush()
        elif o[0] == "I":
            res = st["pos"]
        log.append("RES %s %s" % (o, str(res).upper() if isinstance(res, bool) else res))
    return log


def modules(sd, lang, run, work, seed, count):
    """run(scenario_file, out_file) -> CompletedProcess"""
    rng = random.Random(seed)
    bases = emit(sd, lang, seed, 40, work + "/gen")
    cases = [json.load(open(b + ".json")) for b in bases]
    scs, lines = [], []
    for k in range(count):
        j = rng.randrange(len(bases))
        sc = scenario(rng, cases[j], lang)
        scs.append((j, sc))
        ls = lambda v: "-" if v is None else ",".join(v) if v else "()"
        lines.append("|".join([bases[j] + ".sas7bdat", sc[0], str(sc[1]), " ".join(sc[2]), ls(sc[3]), ls(sc[4])]))
    sf, of = work + "/scenarios", work + "/out"
    open(sf, "w").write("\n".join(lines) + "\n")
    if os.path.exists(of):
        os.unlink(of)
    r = run(sf, of)
    got = []
    if os.path.exists(of):
        for l in open(of, errors="replace").read().splitlines():
            if l.startswith("SCENARIO "):
                got.append([])
            elif got:
                got[-1].append(l)
    events = 0
    for k, (j, sc) in enumerate(scs):
        want = model(cases[j], sc, lang)
        if k >= len(got):
            raise Outcome("scenario %s: the process ended (status %s) %s" % (lines[k], r.returncode, r.stderr[-1200:]), [bases[j] + ".sas7bdat"])
        events += len(want)
        if got[k] != want:
            i = 0
            while i < min(len(got[k]), len(want)) and got[k][i] == want[i]:
                i += 1
            a = got[k][i] if i < len(got[k]) else "(nothing)"
            b = want[i] if i < len(want) else "(nothing)"
            raise Outcome("scenario file|sink|chunk|operations|include|exclude = %s\n  event %d\n  got    %s\n  wanted %s" % (lines[k], i, a[:1500], b[:1500]), [bases[j] + ".sas7bdat", bases[j] + ".json"])
    return len(scs), events, lines[:3]


def c16(sd, mod, work, seed, count):
    def run(sf, of):
        return build.sh(["/usr/bin/python3", "-X", "faulthandler", build.VERIF + "/replay/drive_py.py", mod, sf, of], timeout=400)
    return modules(sd, "py", run, work, seed, count)


def c17(sd, so, work, seed, count):
    def run(sf, of):
        return build.sh(["Rscript", "--vanilla", build.VERIF + "/replay/drive_r.R", so, sf, of], timeout=400)
    return modules(sd, "r", run, work, seed, count)
