"""Builds the simulator from /repo's current working tree. Objects are cached by content in /verif/build."""
import hashlib, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
COMMON = ["-std=gnu++17", "-g0", "-w", "-fno-pie", "-I/usr/include/eigen3", "-DNDEBUG", '-DMATSLISE_VERSION="sim"']
INSTR = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-ffunction-sections", "-fdata-sections", "--param=tsan-distinguish-volatile=0"]
SLOW = ["matscs/sector", "pyslise/", "js/", "matslise/matslise.cpp", "liouville", "ops"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree(root, exts, skip=()):
    r = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip and not x.startswith((".", "_build")))
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return r


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def compile_one(src, flags, key, log):
    o = os.path.join(OUT, "o", sha(src, rd(src), key, " ".join(flags)) + ".o")
    if not os.path.exists(o):
        t = time.time()
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("g++ %s: %s" % (src, r.stdout[:3000]))
        os.rename(tmp, o)
        log.append((round(time.time() - t, 1), os.path.relpath(src, "/")))
    return o


def probe_header(lib):
    """a header for the profiling build in which every timed scope is also counted by the simulator"""
    try:
        t = rd(os.path.join(lib, "util", "scoped_timer.h")).decode()
    except OSError:
        return None, ""
    t = re.sub(r"\\\n", " ", t)
    bodies = [m.strip() for m in re.findall(r"#[ \t]*define[ \t]+MATSLISE_SCOPED_TIMER\(name\)(.*)", t) if m.strip()]
    if len(bodies) != 1:
        return None, ""
    h = """#pragma once
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <unordered_map>
#include <cstdlib>
#include "matslise/util/scoped_timer.h"
#include <string>
namespace simprobe {
    void enter(const char *);
    void leave();
    struct Probe {
        Probe(const char *n) { enter(n); }
        Probe(const std::string &n) { enter(n.c_str()); }
        ~Probe() { leave(); }
    };
}
#define SIMPROBE2(a, b) a##b
#define SIMPROBE1(a, b) SIMPROBE2(a, b)
#undef MATSLISE_SCOPED_TIMER
#define MATSLISE_SCOPED_TIMER(name) %s; ::simprobe::Probe SIMPROBE1(simprobe_, __LINE__)(name)
""" % bodies[0].rstrip("; ")
    f = os.path.join(OUT, "probe-" + sha(h) + ".h")
    if not os.path.exists(f):
        with open(f + ".tmp%d" % os.getpid(), "w") as o:
            o.write(h)
        os.rename(f + ".tmp%d" % os.getpid(), f)
    return f, h


def build(flavour):
    """flavour: set of 'l' (long double), 'q' (float128), 'c' (coupled systems), 'prof' (MATSLISE_PROFILING), 'py' (the Python module on the stand-in for
    pybind11 and the simulated interpreter), 'js' (the JavaScript module on the stand-in for embind and a simulated engine)"""
    os.makedirs(os.path.join(OUT, "o"), exist_ok=True)
    fl = set(flavour)
    sim = os.path.join(VERIF, "sim")
    lib = os.path.join(REPO, "matslise")
    hx = (".h", ".hpp", ".ipp", ".inl", ".tcc", ".def")
    hk = sha(*[rd(p) for p in tree(lib, hx, ("js", "pyslise"))])
    hj, hp = [sha(hk, *[rd(p) for p in tree(os.path.join(lib, d), hx)]) for d in ("js", "pyslise")]
    sk = sha(*[rd(p) for p in tree(sim, (".h",), ("py", "js"))])
    jk = sha(*[rd(p) for p in tree(os.path.join(sim, "js"), (".h",))])
    pk = sha(*[rd(p) for p in tree(os.path.join(sim, "py"), (".h",))])
    defs = []
    if "c" in fl: defs.append("-DWITH_MATSCS")
    if "prof" in fl:
        defs.append("-DMATSLISE_PROFILING")
        f, _ = probe_header(lib)
        if f:
            defs += ["-include", f]
    wide = (["-DMATSLISE_LONG_DOUBLE"] if "l" in fl else []) + (["-DMATSLISE_QUADMATH", "-DBOOST"] if "q" in fl else [])
    jobs = []
    for s in tree(lib, (".cpp", ".cc", ".cxx"), ("js", "pyslise")):
        rel = os.path.relpath(s, lib)
        if rel.startswith("matscs"):
            if "c" not in fl: continue
            jobs.append((s, COMMON + INSTR + defs + ["-I" + REPO], hk))
        else:
            jobs.append((s, COMMON + INSTR + defs + wide + ["-I" + REPO], hk))
    if "py" in fl:
        for s in tree(os.path.join(lib, "pyslise"), (".cpp", ".cc", ".cxx")):
            jobs.append((s, COMMON + INSTR + defs + ["-I" + os.path.join(sim, "py"), "-I" + REPO], hp + pk))
        jobs.append((os.path.join(sim, "ops_py.cpp"), COMMON + INSTR + defs + ["-I" + sim, "-I" + REPO], sha(sk, pk, hp)))
        jobs.append((os.path.join(sim, "pycore.cpp"), COMMON + ["-O2", "-Wall", "-fno-builtin-malloc", "-I" + sim], sha(sk, pk)))
    if "js" in fl:
        for s in tree(os.path.join(lib, "js"), (".cpp", ".cc", ".cxx")):
            jobs.append((s, COMMON + INSTR + defs + ["-I" + os.path.join(sim, "js"), "-I" + REPO], hj + jk))
        jobs.append((os.path.join(sim, "ops_js.cpp"), COMMON + INSTR + defs + ["-I" + sim, "-I" + REPO], sha(sk, jk, hj)))
        jobs.append((os.path.join(sim, "jscore.cpp"), COMMON + ["-O2", "-Wall", "-fno-builtin-malloc", "-I" + sim], sha(sk, jk)))
    hf = ["-I" + REPO, "-I" + sim]
    sd = (["-DSIM_PROBE"] if "-include" in defs else []) + ["-DSIM_" + x for x, k in (("LONG", "l"), ("QUAD", "q"), ("CS", "c"), ("PROFILING", "prof"), ("PY", "py"), ("JS", "js")) if k in fl]
    for n, need in (("ops_d", None), ("ops_l", "l"), ("ops_q", "q"), ("ops_cs", "c")):
        if need is None or need in fl:
            w = wide if n != "ops_cs" else []
            jobs.append((os.path.join(sim, n + ".cpp"), COMMON + INSTR + defs + w + hf, hk + sk))
    plain = ["-O2", "-Wall", "-fno-omit-frame-pointer", "-fno-builtin-malloc"]
    jobs.append((os.path.join(sim, "rt.cpp"), COMMON + plain + ["-I" + sim], sk))
    jobs.append((os.path.join(sim, "main.cpp"), COMMON + plain + sd + ["-I" + sim], sk + (pk if "py" in fl else "") + (jk if "js" in fl else "")))
    jobs.sort(key=lambda j: next((i for i, s in enumerate(SLOW) if s in j[0]), 9))
    log, t = [], time.time()
    with ThreadPoolExecutor(int(os.environ.get("SIM_JOBS", "8"))) as ex:
        objs = list(ex.map(lambda j: compile_one(*j, log), jobs))
    exe = os.path.join(OUT, "simrun-" + sha(*sorted(objs)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        libs = ["-lquadmath"] if "q" in fl else []
        order = [o for o, j in zip(objs, jobs) if j[0].startswith(lib)] + [o for o, j in zip(objs, jobs) if not j[0].startswith(lib)]
        r = subprocess.run(["g++", "-no-pie", "-Wl,--gc-sections", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-o", tmp]
                           + order + libs + ["-ldl", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("link: " + r.stdout[:3000])
        os.rename(tmp, exe)
    return exe, {"seconds": round(time.time() - t, 1), "compiled": sorted(log, reverse=True), "tree": sha(hk, *[rd(j[0]) for j in jobs])}


if __name__ == "__main__":
    for a in sys.argv[1:] or [""]:
        print(build(a.split(",") if a else []))
