"""Compilation of /repo's current sources, always into a scratch directory."""
import os, subprocess, glob, concurrent.futures as cf

REPO = os.environ.get("VC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFS = ["-std=c++20", "-DJSON_HAS_THREE_WAY_COMPARISON=0", "-DFMT_DEPRECATED_OSTREAM", "-DFMT_CONSTEVAL=",
        "-DBOOST_DATE_TIME_NO_LIB", "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-DSPDLOG_SHARED_LIB"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


class BuildError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, **kw)


def includes():
    return ["-I%s/include" % REPO, "-I%s/src" % REPO, "-I%s/replay/inc" % VERIF, "-I%s/spec" % VERIF,
            "-I%s/replay" % VERIF]


def compile_all(cxx, flags, sources, out):
    """sources: list of (path, extra flags); returns object files"""
    os.makedirs(out, exist_ok=True)

    def one(k_src):
        k, (src, extra) = k_src
        o = os.path.join(out, "%d_%s.o" % (k, os.path.basename(src)))
        r = sh([cxx] + flags + extra + ["-c", src, "-o", o])
        if r.returncode:
            raise BuildError("%s: %s" % (src, r.stderr[-2500:]))
        return o

    with cf.ThreadPoolExecutor(8) as p:
        return list(p.map(one, enumerate(sources)))


def link(cxx, flags, objs, out):
    r = sh([cxx] + flags + objs[0:0] + objs + ["-o", out] + ["-lfmt", "-lspdlog"])
    if r.returncode:
        raise BuildError("link: " + r.stderr[-2500:])
    return out


def lib_sources():
    return [(f, []) for f in sorted(glob.glob(REPO + "/src/*.cpp"))]


def sasdiff(dirn):
    objs = compile_all("clang++-18", DEFS + includes() + SAN + ["-w"],
                       [(VERIF + "/replay/sasdiff.cpp", [])] + lib_sources(), dirn)
    return link("clang++-18", SAN, objs, dirn + "/sasdiff")


def cli(dirn):
    objs = compile_all("clang++-18", DEFS + includes() + SAN + ["-w"],
                       lib_sources() + [(REPO + "/apps/cppsas7bdat-ci.cpp", [])], dirn)
    r = sh(["clang++-18"] + SAN + objs + ["-ldocopt", "-lfmt", "-lspdlog", "-o", dirn + "/cli"])
    if r.returncode:
        raise BuildError("link: " + r.stderr[-2500:])
    return dirn + "/cli"


def pymodule(dirn):
    inc = sh(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"]).stdout.strip()
    npy = sh(["/usr/bin/python3", "-c", "import numpy;print(numpy.get_include())"]).stdout.strip()
    ver = sh(["/usr/bin/python3", "-c", "import sys;print('%d%d'%sys.version_info[:2])"]).stdout.strip()
    flags = DEFS + includes() + ["-O0", "-fPIC", "-w", "-isystem", inc] + (["-isystem", npy] if npy else [])
    objs = compile_all("g++", flags, lib_sources() + [(f, []) for f in sorted(
        glob.glob(REPO + "/python/pycppsas7bdat/cpp/*.cpp"))], dirn)
    r = sh(["g++", "-shared"] + objs + ["-lfmt", "-lspdlog", "-lboost_python" + ver, "-lboost_numpy" + ver,
                                         "-o", dirn + "/cpp.so"])
    if r.returncode:
        raise BuildError("link: " + r.stderr[-2500:])
    return dirn


def rmodule(dirn):
    home = sh(["R", "RHOME"]).stdout.strip()
    rinc = home[:-5] + "share/R/include" if home.endswith("lib/R") else home + "/include"
    rcpp = sh(["Rscript", "--vanilla", "-e", 'cat(system.file("include", package="Rcpp"))']).stdout.strip()
    flags = DEFS + includes() + ["-O0", "-fPIC", "-w", "-isystem", rinc, "-isystem", rcpp]
    objs = compile_all("g++", flags, lib_sources() + [(f, []) for f in sorted(
        glob.glob(REPO + "/R/CPPSAS7BDAT/src/*.cpp"))], dirn)
    r = sh(["g++", "-shared"] + objs + ["-lfmt", "-lspdlog", "-o", dirn + "/CPPSAS7BDAT.so"])
    if r.returncode:
        raise BuildError("link: " + r.stderr[-2500:])
    return dirn + "/CPPSAS7BDAT.so"
