#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree: the library's own sources, instrumented, linked with the runtime."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

SIM = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(os.path.dirname(SIM), "build"))
# raw: not optimised, so that a variable without a value holds what the stack held and not what the compiler chose
VARIANTS = {"std": ["-std=gnu++14"], "mp": ["-std=gnu++14", "-DBOOST_MP"], "raw": ["-std=gnu++14"]}
REDEF = ["memcpy", "memmove", "memset", "memcmp", "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "strdup"]
HARNESS = ["rt.cpp", "plan.cpp", "exec.cpp", "gen.cpp", "drv.cpp"]

class BuildError(Exception):
    pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout

def digest(files, flags):
    h = hashlib.sha256(" ".join(flags).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()

def compile_one(src, obj, flags, deps):
    key = digest([src] + deps, flags)
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key:
        return False
    sh(["g++"] + flags + ["-c", src, "-o", obj])
    if "-fsanitize=thread" in flags:
        args = ["objcopy"]
        for s in REDEF:
            args += ["--redefine-sym", f"{s}=sim_{s}"]
        sh(args + [obj])
    open(stamp, "w").write(key)
    return True

def build(variants=("std", "mp", "raw")):
    os.makedirs(OUT, exist_ok=True)
    src = os.path.join(REPO, "src")
    lib = sorted(glob.glob(src + "/*.cpp") + glob.glob(src + "/**/*.cpp"))
    libh = sorted(glob.glob(src + "/*.h*") + glob.glob(src + "/**/*.h*"))
    simh = sorted(glob.glob(SIM + "/*.hpp"))
    if not lib:
        raise BuildError("no library sources in " + src)
    jobs, objs = [], {}
    for v in variants:
        inst = ["-O0" if v == "raw" else "-O1", "-g1", "-w", "-fsanitize=thread", "-I" + src, "-I" + SIM] + VARIANTS[v]
        o = []
        for s in lib:
            obj = os.path.join(OUT, v + "_lib_" + os.path.relpath(s, src).replace("/", "_") + ".o")
            jobs.append((s, obj, inst, libh)); o.append(obj)
        obj = os.path.join(OUT, v + "_ops.o")
        jobs.append((os.path.join(SIM, "ops.cpp"), obj, inst, libh + simh)); o.append(obj)
        for s in HARNESS:
            obj = os.path.join(OUT, v + "_" + s + ".o")
            if s in ("rt.cpp",):
                obj = os.path.join(OUT, s + ".o")
            fl = ["-std=gnu++17", "-O2", "-g1", "-w", "-I" + src]
            if s == "rt.cpp":
                fl += ["-fno-threadsafe-statics"]
            else:
                fl += VARIANTS[v][1:] + [f'-DVARIANT="{v}"']
            j = (os.path.join(SIM, s), obj, fl, simh + ([] if s == "rt.cpp" else libh))
            if j not in jobs:
                jobs.append(j)
            o.append(obj)
        objs[v] = o
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    bins = {}
    for v in variants:
        b = os.path.join(OUT, "sim_" + v)
        key = digest(objs[v], ["link"])
        if not (os.path.exists(b) and os.path.exists(b + ".key") and open(b + ".key").read() == key):
            sh(["g++", "-no-pie", "-o", b] + objs[v] + ["-lpthread", "-ldl", "-lquadmath", "-lm"])
            open(b + ".key", "w").write(key)
        bins[v] = b
    return bins

def python():
    """the interpreter whose headers are here"""
    for c in ("/usr/bin/python3", sys.executable):
        r = subprocess.run([c, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE, text=True)
        if r.returncode == 0 and os.path.exists(os.path.join(r.stdout.split()[0], "Python.h")):
            return c, r.stdout.split()[0], r.stdout.split()[1]
    raise BuildError("no Python headers")

def build_py():
    """the pyami module from the working tree, with its heap; returns the directory and the interpreter"""
    py, inc, ext = python()
    out = os.path.join(OUT, "py")
    os.makedirs(out, exist_ok=True)
    src, psrc = os.path.join(REPO, "src"), os.path.join(REPO, "pyami_src")
    deps = sorted(glob.glob(src + "/*.h*") + glob.glob(psrc + "/*.h*"))
    fl = ["-O1", "-w", "-fPIC", "-std=c++14", "-fvisibility=hidden", "-finstrument-functions",
          "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib", "-I" + inc, "-I" + src, "-I" + psrc]
    al = os.path.join(SIM, "py", "alloc.cpp")
    jobs = [(s, os.path.join(out, os.path.basename(os.path.dirname(s)) + "_" + os.path.basename(s) + ".o"), fl, deps) for s in sorted(glob.glob(psrc + "/*.cpp") + glob.glob(src + "/*.cpp"))]
    jobs.append((al, os.path.join(out, "alloc.o"), ["-O2", "-fPIC", "-std=c++17"], []))
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    sh(["g++", "-shared", "-o", os.path.join(out, "palloc.so"), jobs[-1][1], "-ldl", "-lpthread"])
    sh(["g++", "-shared", "-o", os.path.join(out, "pyami" + ext)] + [j[1] for j in jobs[:-1]])
    return out, py

if __name__ == "__main__":
    try:
        print(build())
        if "all" in sys.argv[1:]:
            print(build_py())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
