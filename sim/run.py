#!/usr/bin/env python3
"""A check: builds the simulators from /repo's working tree, searches, and reports. Usage: run.py PROPERTY | run.py --replay FILE"""
import array, fcntl, json, os, shutil, signal, subprocess, sys, tempfile, time

SIM = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(SIM)
sys.path.insert(0, SIM)
import build as B  # noqa: E402
from props import PROPS  # noqa: E402

WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
REAL = ["every source file of the library (src/*.cpp, ordinary and BOOST_MP builds), compiled unchanged from the working tree",
        "libstdc++ containers and iostream formatting", "operating-system process creation (crash, restart, pristine oracle)"]
STUB = ["thread scheduler (seeded token passing)", "heap (seeded reuse, fill, guard and failure)", "mutexes, condition variables, once-initialisation, thread creation",
        "device behind std::cout/std::cerr", "clocks, random sources, environment variables, process ids and file opens (only if library code asks for them)",
        "client programs and durable storage of checkpoints"]

def locked_build():
    os.makedirs(B.OUT, exist_ok=True)
    with open(os.path.join(B.OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return B.build()

def fail(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def replay(bins, path):
    text = open(path).read()
    var = next((l.split()[1] for l in text.splitlines() if l.startswith("variant ")), None)
    if var not in bins:
        fail("replay file names no variant")
    exp = text.splitlines()[0].split()
    for k in range(8):
        d = tempfile.mkdtemp(prefix="simreplay")
        try:
            r = subprocess.run([bins[var], "replay", os.path.abspath(path)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        got = r.stdout.split()
        again = r.returncode == 1 and exp[:2] == ["#", "expect"] and len(got) > 5 and got[3] == exp[2]
        if again or r.returncode not in (0, 1) or exp[:2] != ["#", "expect"]:
            break
    # exactly, or (where the library under test draws on something outside the simulator) with another value
    same = "exactly" if again and got[5] == exp[3] else "not exactly" if again else ""
    return r.returncode, same, r.stdout

def known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known: property=" + prop + " "):
            out.append(l.split(" ", 2)[2].strip())
    return out

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        if open(sys.argv[2]).read(1) == "{":
            import check_py
            sys.exit(check_py.replay_main(sys.argv[2]))
        rc, same, out = replay(locked_build(), sys.argv[2])
        print(out, end="")
        print("reproduces " + same if same else "does not reproduce the recorded violation")
        sys.exit(1 if rc == 1 else 0 if rc == 0 else 2)
    prop = sys.argv[1]
    if prop == "P01":
        import check_py
        sys.exit(check_py.main(known(prop)))
    info = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cap = float(os.environ.get("SIM_CAP", info.get("quick", 40) if tier == "quick" else info.get("thorough", 1200)))
    t0 = time.time()
    try:
        bins = locked_build()
    except B.BuildError as e:
        fail("the simulator does not build: " + str(e))
    t1 = time.time()
    tmp = tempfile.mkdtemp(prefix="simcheck")
    procs = []
    try:
        for w in range(WORKERS):
            d = os.path.join(tmp, "w%d" % w)
            os.makedirs(d)
            var = info.get("variants", ("std", "mp", "std", "mp", "std", "mp", "raw", "mp"))[w % 8]
            cmd = [bins[var], "explore", "--prop", prop, "--seed", str(seed), "--from", str(w), "--stride", str(WORKERS), "--cap", str(cap),
                   "--mincap", "30" if tier == "quick" else "120", "--out", os.path.join(tmp, "o%d" % w)]
            if tier == "thorough":
                cmd.append("--thorough")
            log = open(os.path.join(tmp, "o%d.log" % w), "w")
            procs.append([subprocess.Popen(cmd, cwd=d, stdout=log, stderr=log, start_new_session=True), var, None])
        deadline = time.time() + cap + 240 + (0 if tier == "quick" else 600)
        hit = None
        while any(p[2] is None for p in procs) and time.time() < deadline and hit is None:
            time.sleep(0.05)
            for i, p in enumerate(procs):
                if p[2] is None and p[0].poll() is not None:
                    p[2] = p[0].returncode
                    if p[2] == 1 and hit is None:
                        hit = i
        timeout = hit is None and any(p[2] is None for p in procs)
        for p in procs:
            if p[2] is None:
                try:
                    os.killpg(p[0].pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p[0].wait()
        stats, plans, inter = [], set(), set()
        ctx = {e: {v: set() for v in B.VARIANTS} for e in ("actx", "failctx", "fctx")}
        for w in range(WORKERS):
            f = os.path.join(tmp, "o%d.json" % w)
            if os.path.exists(f):
                s = json.load(open(f))
                s["variant"] = procs[w][1]
                stats.append(s)
            for ext, st in (("plans", plans), ("inter", inter)) + tuple((e, ctx[e][procs[w][1]]) for e in ctx):
                g = os.path.join(tmp, "o%d.%s" % (w, ext))
                if os.path.exists(g):
                    a = array.array("Q")
                    a.frombytes(open(g, "rb").read())
                    st.update(a)
        bad = [(w, p[2]) for w, p in enumerate(procs) if p[2] not in (0, 1, None)]
        wall = time.time() - t1
        violation, path = None, None
        if hit is not None:
            violation = next(s for s in stats if s["status"] == "violation")
            src = os.path.join(tmp, "o%d.replay" % hit)
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%s.plan" % (prop, violation.get("hash", "x")))
            shutil.copy(src, path)
            rc, same, out = replay(bins, path)
            if not same:
                print(out)
                fail("the violation found (%s) is not reproduced from its replay file %s" % (violation.get("message"), path))
        elif timeout or bad:
            for w, rc in bad:
                print("worker %d ended with %s: %s" % (w, rc, open(os.path.join(tmp, "o%d.log" % w)).read()[-600:]))
                f = os.path.join(tmp, "o%d.json" % w)
                if os.path.exists(f):
                    print(json.load(open(f)).get("message"))
            fail("a simulation worker gave no answer" + (" in time" if timeout else ""))
        S = lambda k: sum(s[k] for s in stats)
        faults = {}
        for s in stats:
            for k, v in s["faults"].items():
                faults["allocation failure: " + k.replace("_", " ")] = faults.get("allocation failure: " + k.replace("_", " "), 0) + v
        faults["process crash and restart"] = S("crashes")
        faults["stalled or abandoned thread"] = S("stalls")
        faults["output device fault"] = S("device_faults")
        ops = {}
        for s in stats:
            for k, v in s["opcount"].items():
                ops[k] = ops.get(k, 0) + v
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": S("runs"), "distinct_nontrivial": len(plans),
                "rule": info["rule"] + " Distinct: different hash of the plan text (literals, operations, faults, configuration) combined with the hash of the execution's interleaving.",
                "samples": [x for s in stats for x in s["samples"]][:2],
                "nontrivial_runs": S("nontrivial"),
                "simulated_runs_per_hour": round(S("runs") / max(wall, 1e-9) * 3600), "seeds_per_hour": round(S("plans") / max(wall, 1e-9) * 3600),
                "seeds": S("plans"), "simulated_steps": S("steps"),
                "simulated_time": "%d steps of library code (memory accesses, allocations and synchronisation); the library reads no clock, so steps are the simulated time" % S("steps"),
                "client_operations": S("ops"), "library_calls": S("lib_ops"), "operations_by_kind": ops, "pristine_reference_calls": S("oracle_calls"), "pristine_reference_processes": S("oracle_runs"),
                "faults_injected": faults, "task_switches": S("switches"), "distinct_interleavings": len(inter),
                "allocation_contexts_met": {v: len(x) for v, x in ctx["actx"].items()}, "allocation_contexts_failed": {v: len(x) for v, x in ctx["failctx"].items()},
                "call_contexts_met": {v: len(x) for v, x in ctx["fctx"].items()},
                "context_measure": "allocations: the five innermost instrumented functions and the magnitude of the size; calls: the three innermost functions and the task",
                "interleaving_measure": "hash over the sequence of (task, operation, step) at which the processor changed hands",
                "accesses_shared_between_tasks": S("shared_accesses"), "synchronisation_operations": S("sync_ops"), "allocations": S("allocs"),
                "simulated_processes": S("processes"), "environment_reads": S("env_reads"),
                "determinism_self_checks": S("determinism_checks"), "determinism_self_checks_that_differed": S("nondeterministic"), "operations_too_costly_to_simulate": S("costly_ops"), "runs_that_did_not_fit": S("skipped"),
                "plans_rejected": S("rejected"), "operations_without_reference": S("unknown_ops"),
                "runs_by_build": {v: sum(s["runs"] for s in stats if s["variant"] == v) for v in sorted({s["variant"] for s in stats})},
                "largest_met": {n: max(s["largest"][i] for s in stats) for i, n in enumerate(["terms", "products in the last R", "unique propagators", "energies", "multiplicity of a pole", "order of derivative"])},
                "probes": {n: sum(s["probes"][i] for s in stats) for i, n in enumerate(["overflow indicator expected set", "call completed although an allocation failed", "device fault fired inside a report", "report compared in full"])},
                "real_components": REAL, "stubbed_components": STUB,
            },
            "assumptions": info.get("assumptions", []) + [
                "g++ 13 -O1 code with ThreadSanitizer instrumentation behaves like the shipped code; the reference for values is the same code run alone in a fresh process",
                "problems are drawn from seeded pools: up to 4 integrations, up to 6 lines"],
            "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        print("%s: %d runs of %d seeded histories (%d distinct non-trivial), %d steps, %d switches, faults %s, %.1f s" % (
            prop, S("runs"), S("plans"), len(plans), S("steps"), S("switches"), {k: v for k, v in faults.items() if v}, time.time() - t0))
        if violation:
            print("%s: %s" % (violation["kind"], violation["message"]))
            print("found with run seed %s (VERIF_SEED=%d), minimised; replay with: python3 sim/run.py --replay %s" % (violation["run_seed"], seed, path))
            if same != "exactly":
                print("NOTE: the violation comes back on replay, but not bit by bit: the code under test depends on something outside the simulation")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            sys.exit(1)
        if S("nondeterministic"):
            print("NOTE: %d repeated runs differed from the first in their execution, not in their results: the code under test depends on something outside the simulation" % S("nondeterministic"))
        if S("runs") == 0 or len(plans) < 20 or S("skipped") > S("runs") * 0.2 or S("rejected") > S("plans") * 0.2:
            fail("the search did not explore enough to answer")
        sys.exit(0)
    finally:
        for p in procs:
            if p[0].poll() is None:
                p[0].kill()
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    main()
