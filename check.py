#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: builds from /repo's working tree, searches seeded simulated runs of the
families that exercise the property, writes evidence/<property>.json. Exit 0 held, 1 violation, 2 error."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B
from plan import PLAN, QUICK_SECONDS, THOROUGH_SECONDS

RULE = ("A case is one simulated run: a workload, process layout and swarm of scheduler/fault probabilities drawn from the run's "
        "seed, executed under the seeded scheduler. Distinct means a distinct fingerprint of the whole execution (every decision, "
        "every message, all results); non-trivial means the run executed the real code with at least one non-default scheduling, "
        "delivery or fault decision or an explicit fault.")

REAL = ("All of /repo/src (ProcessManager, ProcessGroupManager/Worker, SparseGridWorker, TaskWorker, distributed full and sparse grids, "
        "hierarchization, CombiCom, MPISystem, file and socket layers, boost serialization) compiled from the working tree, one private "
        "copy of all globals per simulated rank; for C08 also the third_level_manager broker executable.")
STUB = ("MPI library (own implementation of the MPI calls used, incl. MPI-IO), OpenMP runtime (own libgomp entry points), sockets, "
        "select/poll, sleep and clocks (virtual), solver (SimTask: pseudo-random update per grid point), terminal output discarded.")


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = float(os.environ.get("VP_SCALE", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    budget = (QUICK_SECONDS if tier == "quick" else THOROUGH_SECONDS) * plan.get("factor", 1.0) * scale
    fams = plan["families"]
    total = sum(f[1] for f in fams)
    flavors = sorted(set(f[2] if len(f) > 2 else "norm" for f in fams))
    dirs = {}
    for fl in flavors:
        d = B.build(fl)
        if d is None:
            print("build failed", file=sys.stderr)
            return 2
        dirs[fl] = d
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    build_s = time.time() - t0
    results, violation = [], None
    for i, f in enumerate(fams):
        fam, share = f[0], f[1]
        fl = f[2] if len(f) > 2 else "norm"
        replay = os.path.join(VERIF, "replays", f"{prop}-{fam}-{seed}.replay")
        res = os.path.join(dirs[fl], f"result-{prop}-{fam}.json")
        for attempt in range(3):
            # a violation that does not repeat in a fresh process is not reported: search again from other seeds
            for p in (replay, res):
                if os.path.exists(p):
                    os.unlink(p)
            cmd = [dirs[fl] + "/simrun", "run", f"--family={fam}", f"--prop={prop}", f"--seed={seed * 1000003 + 17 * i + 7919 * attempt}",
                   f"--seconds={budget * share / total:.1f}", f"--replay={replay}", f"--result={res}",
                   f"--known={VERIF}/known_findings.txt", "--minimise=40"]
            cmd += list(f[3]) if len(f) > 3 else []
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            sys.stderr.write(r.stderr[-3000:])
            if r.returncode in (0, 1):
                break
        if r.returncode not in (0, 1) or not os.path.exists(res):
            sys.stderr.write(r.stdout[-3000:])
            print(f"simulation of family {fam} failed with status {r.returncode}", file=sys.stderr)
            return 2
        d = json.load(open(res))
        d["flavor"] = fl
        d["label"] = fam + ("" if fl == "norm" else "@" + fl) + ("" if len(f) < 4 else " " + " ".join(f[3]))
        results.append(d)
        if r.returncode == 1:
            violation = replay
            sys.stderr.write(r.stdout[-2000:])
            break
    wall = time.time() - t0
    S = lambda k: sum(d.get(k, 0) for d in results)
    def merge(k):
        m = {}
        for d in results:
            for a, b in d.get(k, {}).items():
                m[a] = m.get(a, 0) + b
        return m
    simwall = max(0.001, S("wall"))
    known = sorted(set(x for d in results for x in d.get("known", [])))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": plan["level"], "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": S("runs"), "distinct_nontrivial": S("distinct_executions"), "rule": RULE,
            "samples": [s for d in results for s in d.get("samples", [])[:2]][:8],
            "families": {d["label"]:
                         {k: d.get(k) for k in ("runs", "wall", "distinct_executions", "distinct_orders", "fault_runs")} for d in results},
            "simulated_runs_per_hour": round(S("runs") * 3600 / simwall),
            "seeds_per_hour": round(S("runs") * 3600 / simwall),
            "simulated_seconds": round(S("sim_seconds"), 1),
            "distinct_interleavings": S("distinct_orders"),
            "distinct_interleavings_measure": "hash of the sequence of (entity switched to, network action delivered) of a run",
            "scheduling_points": S("yields"), "context_switches": S("switches"), "deliveries": S("net_actions"),
            "mpi_calls": S("mpi_calls"), "messages": S("messages"), "collectives": S("collectives"),
            "decisions": S("decisions"), "nondefault_decisions": S("nondefault"), "file_operations": S("file_ops"),
            "omp_regions": S("omp_regions"), "socket_operations": S("sock_ops"), "clock_jumps": S("time_jumps"),
            "faults_injected": merge("faults"), "runs_with_faults": S("fault_runs"), "probes_reached": merge("probes"),
            "determinism_repeats": S("repeats"), "determinism_mismatches": S("repeat_mismatch"),
            "real_code": REAL, "stubs": STUB, "build_seconds": round(build_s, 1),
        },
        "assumptions": plan.get("assumptions", []) + [
            "bounded workloads: up to 4 groups, 12 worker ranks, 4 dimensions, a few thousand grid points, 3 systems",
            "the solver is deterministic and the combination weights are those of the scheme",
        ],
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    if S("repeat_mismatch") and not violation:
        print("nondeterministic simulation", file=sys.stderr)
        return 2
    print(f"{prop} {tier}: {S('runs')} simulated runs, {S('distinct_orders')} interleavings, {wall:.0f} s")
    if violation:
        print(f"VIOLATION property={prop} replay={violation}")
        return 1
    return 0


sys.exit(main())
