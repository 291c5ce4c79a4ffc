# drive_py.py MODULE_DIR SCENARIOS OUT : runs the scenarios, writes what the sinks were given
import sys, datetime
sys.path.insert(0, sys.argv[1])
import cpp as m


def hexs(s):
    if s is None:
        return "NULL"
    if isinstance(s, str):
        s = s.encode("latin1", "replace")
    return "x" + bytes(s).hex()


def one(v):
    if v is None:
        return "NULL"
    if isinstance(v, (bytes, str)):
        return hexs(v)
    if isinstance(v, bool) or isinstance(v, int):
        return str(int(v))
    if isinstance(v, float):
        return "%.17g" % v
    if isinstance(v, datetime.datetime):
        return hexs("%04d-%02d-%02d " % (v.year, v.month, v.day) + hms(v.hour, v.minute, v.second, v.microsecond))
    if isinstance(v, datetime.date):
        return hexs("%04d-%02d-%02d" % (v.year, v.month, v.day))
    if isinstance(v, datetime.time):
        return hexs(hms(v.hour, v.minute, v.second, v.microsecond))
    if isinstance(v, datetime.timedelta):
        us = (v.days * 86400 + v.seconds) * 1000000 + v.microseconds
        s, us = ("-", -us) if us < 0 else ("", us)
        sec, us = divmod(us, 1000000)
        return hexs(s + hms(sec // 3600, sec // 60 % 60, sec % 60, us))
    return "?" + type(v).__name__


def hms(h, mi, s, us):
    return "%02d:%02d:%02d" % (h, mi, s) + (".%06d" % us if us else "")


def vec(v):
    return ",".join(one(x) for x in v)


def table(d):
    return ";".join(hexs(k) + "=" + vec(v) for k, v in d.items())


out = open(sys.argv[3], "w")
for k, line in enumerate(open(sys.argv[2]).read().splitlines()):
    f = line.split("|")
    log, objs = [], []

    class S:
        pass

    s = S()

    def note(t, fn=None):
        log.append(t)
        if fn:
            objs.append((t, fn))

    s.set_properties = lambda p: note("P " + ",".join(hexs(c.name) for c in p.columns))
    if f[1] == "row":
        def push_row(i, row):
            fn = lambda: "ROW %d %s" % (i, vec(row))
            note(fn(), fn)
        s.push_row = push_row
    if f[1] == "chunk":
        s.chunk_size = int(f[2])
        def push_rows(a, b, d):
            fn = lambda: "CHUNK %d-%d %s" % (a, b, table(d))
            note(fn(), fn)
        s.push_rows = push_rows
    if f[1] == "data":
        def set_data(d):
            fn = lambda: "DATA " + table(d)
            note(fn(), fn)
        s.set_data = set_data
    ls = lambda t: None if t == "-" else [] if t == "()" else t.split(",")
    try:
        r = m.Reader(f[0], s, ls(f[4]), ls(f[5]))
        for op in f[3].split():
            n = int(op[1:] or 0)
            if op[0] == "A": res = r.read_all()
            elif op[0] == "R": res = r.read_row()
            elif op[0] == "N": res = r.read_rows(n)
            elif op[0] == "S": res = r.skip(n)
            elif op[0] == "E": res = r.end_of_data()
            elif op[0] == "I": res = r.current_row_index
            elif op[0] == "F":
                res = s._cpp.flush_sink() if hasattr(s, "_cpp") else None
            note("RES %s %s" % (op, "-" if res is None else str(res).upper() if isinstance(res, bool) else res))
    except Exception as e:
        note("ERROR " + repr(e).replace("\n", " "))
    for t, fn in objs:
        if fn() != t:
            note("CHANGED " + t + " -> " + fn())
    out.write("SCENARIO %d\n" % k)
    for l in log:
        out.write(l + "\n")
    out.flush()
