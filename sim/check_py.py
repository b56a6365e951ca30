"""The check of P01: simulated Python programs over the pyami module (see py/pysim.py)."""
import fcntl, json, os, shutil, signal, subprocess, sys, tempfile, time
import build as B

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
RULE = ("One integer seed draws a Python program over the pyami module: integrals, external values and engines are made, edited and copied as Python does it, solutions are constructed, factorised and evaluated in every "
        "form the module offers, sub-objects are kept while their owners are deleted and collected, wrong calls are made. It runs once undisturbed and then three times with allocation failures placed inside its calls; in a tenth of the "
        "seeds it is repeated up to 32 times in one interpreter. At a third of the calls another thread stands ready to change an argument, or to make a call of its own, as soon as the interpreter lock is free. "
        "Non-trivial: an allocation failed or at least two calls were made. Distinct: different hash of the program with its faults and its observations.")

def build():
    os.makedirs(B.OUT, exist_ok=True)
    with open(os.path.join(B.OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return B.build_py()

def command(d, py, *args):
    env = dict(os.environ, LD_PRELOAD=os.path.join(d, "palloc.so"), PYTHONHASHSEED="0", PYTHONMALLOC="pymalloc", PYTHONDONTWRITEBYTECODE="1")
    pre = ["setarch", "-R"] if shutil.which("setarch") and subprocess.run(["setarch", "-R", "true"], stderr=subprocess.DEVNULL).returncode == 0 else []
    return pre + [py, "-s", os.path.join(SIM, "py", "pysim.py")] + list(args), env

def replay(d, py, path):
    cmd, env = command(d, py, "replay", "--dir", d, os.path.abspath(path))
    w = tempfile.mkdtemp(prefix="simreplay")
    try:
        r = subprocess.run(cmd, env=env, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return r.returncode, r.stdout

def replay_main(path):
    rc, out = replay(*build(), path)
    print(out, end="")
    print("reproduces exactly" if rc == 1 else "does not reproduce the recorded violation")
    return rc if rc in (0, 1) else 2

def main(known):
    tier, seed = os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))
    cap = float(os.environ.get("SIM_CAP", 40 if tier == "quick" else 1200))
    t0 = time.time()
    try:
        d, py = build()
    except B.BuildError as e:
        print("ERROR: the simulated module does not build: %s" % e)
        return 2
    t1 = time.time()
    tmp = tempfile.mkdtemp(prefix="simcheck")
    procs = []
    try:
        for w in range(WORKERS):
            wd = os.path.join(tmp, "w%d" % w)
            os.makedirs(wd)
            cmd, env = command(d, py, "explore", "--dir", d, "--seed", str(seed), "--from", str(w), "--stride", str(WORKERS), "--cap", str(cap), "--out", os.path.join(tmp, "o%d" % w))
            log = open(os.path.join(tmp, "o%d.log" % w), "w")
            procs.append([subprocess.Popen(cmd, env=env, cwd=wd, stdout=log, stderr=log, start_new_session=True), None])
        deadline, hit = time.time() + cap + 300, None
        while any(p[1] is None for p in procs) and time.time() < deadline and hit is None:
            time.sleep(0.05)
            for i, p in enumerate(procs):
                if p[1] is None and p[0].poll() is not None:
                    p[1] = p[0].returncode
                    if p[1] == 1 and os.path.exists(os.path.join(tmp, "o%d.replay" % i)) and hit is None:
                        hit = i
        late = hit is None and any(p[1] is None for p in procs)
        for p in procs:
            if p[1] is None:
                try:
                    os.killpg(p[0].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p[0].wait()
        st = [json.load(open(os.path.join(tmp, "o%d" % w))) for w in range(WORKERS) if os.path.exists(os.path.join(tmp, "o%d" % w))]
        path = v = None
        if hit is not None:
            v = next(s for s in st if s["status"] == "violation")
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "P01-%s.json" % v["hash"])
            shutil.copy(os.path.join(tmp, "o%d.replay" % hit), path)
            v = json.load(open(os.path.join(tmp, "o%d" % hit)))
            rc, out = replay(d, py, path)
            if rc != 1:
                print(out + "\nERROR: the violation found (%s) is not reproduced from its replay file %s" % (v["message"], path))
                return 2
        elif late or any(p[1] != 0 for p in procs):
            for w, p in enumerate(procs):
                if p[1] not in (0,):
                    print("worker %d ended with %s: %s" % (w, p[1], open(os.path.join(tmp, "o%d.log" % w)).read()[-1500:]))
            for s in st:
                if s["status"] == "error":
                    print(s["message"])
            print("ERROR: a simulation worker gave no answer")
            return 2
        S = lambda k: sum(s.get(k, 0) for s in st)
        distinct = set(h for s in st for h in s["hashes"])
        kinds = {}
        for s in st:
            for k, n in s["kinds"].items():
                kinds[k] = kinds.get(k, 0) + n
        wall = time.time() - t1
        ev = {"property": "P01", "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": S("runs"), "distinct_nontrivial": len(distinct), "rule": RULE, "samples": [x for s in st for x in s["samples"]][:2],
                           "nontrivial_runs": S("nontrivial"), "simulated_runs_per_hour": round(S("runs") / wall * 3600), "seeds_per_hour": round(S("plans") / wall * 3600), "seeds": S("plans"),
                           "simulated_time": "no clock is read; %d module calls" % S("calls"), "program_steps": S("ops"), "module_calls": S("calls"), "steps_left_out_as_undefined": S("skipped_ops"), "operations_by_kind": kinds,
                           "faults_injected": {"allocation failures": S("fired"), "calls hit": S("faults"), "other thread ready to interfere": S("offered"), "other thread came in (lock released)": S("switched"), "calls of another thread overlapped": S("overlapped")},
                           "distinct_interleavings": len(distinct), "interleaving_measure": "program with faults and observations; the module holds the interpreter lock, so calls do not overlap unless it is released",
                           "programs_repeated_for_growth": S("leakruns"), "determinism_self_checks": S("determinism"), "pristine_reference_calls": S("reference_calls"), "pristine_reference_processes": S("reference_processes"),
                           "real_components": ["pyami_src/*.cpp and src/*.cpp of the working tree", "pybind11", "the CPython interpreter and its collector"],
                           "stubbed_components": ["C++ heap (seeded fill, guard, quarantine, failure)", "other Python threads (let in at allocations while the lock is free)"]},
              "assumptions": ["allocation failures are injected inside functions of libami, not inside pybind11 or the interpreter", "g++ -O1 code of the module behaves like the shipped one"],
              "wall_s": round(time.time() - t0, 2), "violations": 1 if v else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", "P01.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=P01 %s" % k)
        print("P01: %d runs of %d seeded programs (%d distinct non-trivial), %d module calls, %d allocation failures, %.1f s" % (S("runs"), S("plans"), len(distinct), S("calls"), S("fired"), time.time() - t0))
        if v:
            print("%s: %s" % (v["kind"], v["message"]))
            print("found with run seed %s (VERIF_SEED=%d), minimised; replay with: python3 sim/run.py --replay %s" % (v["run_seed"], seed, path))
            print("VIOLATION property=P01 replay=%s" % path)
            return 1
        if len(distinct) < 20:
            print("ERROR: the search did not explore enough to answer")
            return 2
        return 0
    finally:
        for p in procs:
            if p[0].poll() is None:
                p[0].kill()
        shutil.rmtree(tmp, ignore_errors=True)
