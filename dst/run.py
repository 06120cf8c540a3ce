"""Command line of the simulator.

  run.py C01 --tier quick            run the check of one property
  run.py C01 --replay FILE           replay one execution exactly
  run.py C01 --determinism N         run N seeds twice (and compare digests)
  run.py C01 --one SEED              run a single seed and print its record
Exit codes: 0 held, 1 VIOLATION, 2 harness error.
"""
import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from dst import boot  # noqa: E402

boot.ensure()

from dst import harness  # noqa: E402

PROPS = {
    "C01": "p_history", "C02": "p_threads", "C03": "p_faults", "C04": "p_isolation", "C05": "p_lazy",
    "C06": "p_containers", "C07": "p_storage", "C08": "p_session", "C09": "p_convert", "C10": "p_keys",
    "C11": "p_progress",
}


def load_prop(pid):
    return importlib.import_module(f"dst.{PROPS[pid]}")


def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: ") and f"property={pid} " in line:
                    parts = dict(x.split("=", 1) for x in line.split() if "=" in x)
                    out.append((parts["sig"], line.strip().split(" what=", 1)[1]))
    return out


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    harness.prepare()
    res = harness.run_scenario(prop, d["scenario"], timeout=300)
    want = d["violation"]
    print(json.dumps({"replayed": path, "expected": want["cls"], "got": res["v"], "digest": res["digest"],
                      "same_digest": res["digest"] == d["digest"]}))
    if res.get("error") or res.get("timeout"):
        print(res.get("error", "timeout"))
        return 2
    if res["v"]:
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    return 0


def run_check(prop, tier, seed0, args):
    t0 = time.monotonic()
    nlines = harness.prepare()
    nruns = args.runs or prop.RUNS[tier]
    wall = args.wall or {"quick": 240, "thorough": 3000}[tier]
    base = (seed0 - 1) * 10_000_000 + (5_000_000 if tier == "thorough" else 0) if not args.base else args.base
    seeds = [base + i for i in range(nruns)]
    agg = collections.Counter()
    faults, ops, probes = collections.Counter(), collections.Counter(), collections.Counter()
    sigs, states, samples = set(), set(), []
    bad, errors, timeouts = [], [], []
    ans = {}
    known = known_findings(prop.ID)
    known_hits = collections.Counter()

    def on_record(rec):
        agg["runs"] += 1
        st = rec["st"]
        for k in ("lines", "calls", "steps", "ops", "checks", "switches"):
            agg[k] += st.get(k, 0)
        faults.update(st.get("faults", {}))
        ops.update(st.get("opnames", {}))
        probes.update(st.get("probes", {}))
        if st.get("nontrivial"):
            sigs.add(rec["digest"])
        states.update(st.get("states", ()))
        if "ans" in rec:
            ans[rec["seed"]] = rec["ans"]
        if len(samples) < 3 and st.get("sample"):
            samples.append({"seed": rec["seed"], "case": st["sample"]})
        if rec.get("error"):
            errors.append(rec)
        elif rec.get("timeout"):
            timeouts.append(rec)
        elif rec["v"]:
            for sig, what in known:
                if rec["v"]["cls"] == sig:
                    known_hits[sig] += 1
                    break
            else:
                bad.append(rec)
        return bool(bad) or len(errors) > 20

    harness.pool(prop, seeds, args.workers, wall, on_record)
    extra = {}
    if hasattr(prop, "hash_pass") and not bad and not errors:
        differ, n = prop.hash_pass(tier, seeds, ans, max(60, wall / 3))
        extra = {"hash_seed_runs": n, "hash_seeds": list(prop.HASHSEEDS[tier])}
        for seed, h in differ[:1]:
            bad.append({"seed": seed, "hashseed": h, "v": {"cls": "hash-seed-changes-answer", "msg": f"hash seed {h}"}})
    t_run = time.monotonic() - t0
    rc = 0
    for rec in timeouts[:3]:
        scn = harness.gen_scenario(prop, rec["seed"])
        res = harness.run_scenario(prop, scn, timeout=240)
        if res.get("timeout"):
            if prop.ID == "C11":
                bad.append({"seed": rec["seed"], "v": {"cls": "hang", "msg": "no answer within 240 s"}})
            else:
                print(f"ERROR: seed {rec['seed']} gives no answer within 240 s")
                rc = 2
        elif res["v"]:
            bad.append({"seed": rec["seed"], "v": res["v"]})
    if errors:
        rc = 2
        for rec in errors[:3]:
            print(f"ERROR: harness error at seed {rec['seed']}: {rec['error']}")
    nviol = 0
    if bad:
        bad.sort(key=lambda r: r["seed"])
        for rec in bad[:6]:
            whole = harness.gen_scenario(prop, rec["seed"])
            if "hashseed" in rec:
                whole["hashseed"] = rec["hashseed"]
            forms = [whole]
            if hasattr(prop, "explicit"):
                # the failing part with every decision written out, unless it needs what was executed before it
                try:
                    forms.insert(0, harness.sub(prop.explicit, whole))
                except harness.Crash:
                    pass
            for scn in forms:
                first = harness.run_scenario(prop, scn)
                if first["v"]:
                    break
            if first["v"]:
                break
        cls = (first["v"] or rec["v"])["cls"]
        if first["v"]:
            small, res, steps = harness.shrink(prop, scn, cls, wall=args.shrink)
        else:
            small, res, steps = scn, first, 0
        if not res["v"]:
            print(f"ERROR: seed {rec['seed']} failed with {rec['v']} and did not fail again")
            rc = 2
        else:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", f"{prop.ID}-{rec['seed']}.json")
            with open(path, "w") as f:
                json.dump({"property": prop.ID, "seed": rec["seed"], "tier": tier, "scenario": small,
                           "violation": res["v"], "digest": res["digest"], "original_scenario": scn,
                           "shrink_steps": steps}, f, indent=1)
            # replay it in a fresh process: it must fail the same way
            p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), prop.ID, "--replay", path],
                               capture_output=True, text=True)
            same = p.returncode == 1 and '"same_digest": true' in p.stdout
            print(f"violation at seed {rec['seed']} (of {len(bad)} failing seeds seen): {res['v']['cls']}: {res['v']['msg']}")
            print(f"minimised in {steps} steps; fresh-process replay {'reproduces it exactly' if same else 'DIFFERS: ' + p.stdout[-500:]}")
            print(f"scenario: {json.dumps(small)[:1500]}")
            print(f"VIOLATION property={prop.ID} replay={path}")
            nviol = 1
            rc = 1
    for sig, what in known:
        print(f"KNOWN-FINDING: property={prop.ID} {what}" + ("" if known_hits[sig] else " (not met in this run)"))
    wall_s = time.monotonic() - t0
    ev = {
        "property": prop.ID, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(sigs),
            "rule": prop.RULE,
            "samples": samples or [{"note": "no run finished"}],
            "runs_planned": nruns,
            "seeds_per_hour": round(agg["runs"] / max(t_run, 1e-9) * 3600),
            "simulated_steps": {"repository_lines": agg["lines"], "engine_calls": agg["calls"],
                                "operations": agg["ops"], "thread_switches": agg["switches"],
                                "oracle_checks": agg["checks"]},
            "simulated_time": "logical: one tick per repository source line or engine call; no wall clock is read",
            "faults_injected": dict(sorted(faults.items())),
            "operations": dict(sorted(ops.items())),
            "probes": dict(sorted(probes.items())),
            **extra,
            "distinct_states": len(states),
            "states_measure": getattr(prop, "STATES", "hash of the run's event log"),
            "instrumented_functions": nlines,
            "components_real": ["graphblas_algorithms (working tree)", "python-graphblas", "SuiteSparse:GraphBLAS", "networkx"],
            "components_stubbed": getattr(prop, "STUBS", ["failure results of engine calls", "interrupt delivery"]),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall_s, 2),
        "violations": nviol,
    }
    evdir = os.environ.get("DST_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, f"{prop.ID}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print(f"{prop.ID} {tier}: {agg['runs']}/{nruns} runs, {agg['ops']} operations, {agg['checks']} checks, "
          f"{agg['lines']} lines, {agg['calls']} engine calls, {len(sigs)} distinct, faults {dict(faults)}, "
          f"{wall_s:.1f} s -> {'VIOLATION' if rc == 1 else 'error' if rc else 'held'}")
    if args.verbose:
        print(json.dumps(ev["coverage"]["operations"]), json.dumps(ev["coverage"]["probes"]))
        for r in sorted(bad, key=lambda r: r["seed"])[:20]:
            print("  ", r["seed"], r["v"])
    return rc


def determinism(prop, n, args):
    harness.prepare()
    recs = []

    def on(rec):
        recs.append(rec)

    for w in (args.workers, 3):
        harness.pool(prop, list(range(n)), w, 3000, on)
    d = collections.defaultdict(set)
    for r in recs:
        d[r["seed"]].add((r["digest"], json.dumps(r["v"])))
    diff = [s for s, x in d.items() if len(x) > 1]
    err = [r for r in recs if r.get("error") or r.get("timeout")]
    h = harness.digest_of(sorted((s, sorted(map(str, x))) for s, x in d.items()))
    print(json.dumps({"property": prop.ID, "seeds": n, "runs": len(recs), "diverging": diff[:10], "errors": len(err), "digest": h}))
    return 1 if diff or err else 0


def answers(prop, what, args):
    """Print the answers (or their digests) that this process gives, for comparison by another process."""
    harness.prepare()
    if what == "-":
        print(json.dumps(harness.sub(prop.answers, json.load(sys.stdin))))
        return 0
    start, n = map(int, what.split(":"))
    out = {}

    def on(rec):
        if "ans" in rec:
            out[rec["seed"]] = rec["ans"]

    harness.pool(prop, list(range(start, start + n)), args.workers, args.wall or 3000, on)
    print(json.dumps(out))
    return 0


def setup():
    n = harness.prepare()
    print(f"simulator ready: {n} instrumented functions of {boot.REPO}")
    return 0


def main():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--workers", type=int, default=max(2, min(8, os.cpu_count() or 2)))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--answers")
    ap.add_argument("--one", type=int)
    ap.add_argument("--base", type=int)
    ap.add_argument("--shrink", type=float, default=60.0)
    ap.add_argument("-v", "--verbose", action="store_true")
    args = ap.parse_args()
    try:
        prop = load_prop(args.prop)
        if args.replay:
            return replay(prop, args.replay)
        if args.answers:
            return answers(prop, args.answers, args)
        if args.determinism:
            return determinism(prop, args.determinism, args)
        if args.one is not None:
            harness.prepare()
            scn = harness.gen_scenario(prop, args.one)
            print(json.dumps(scn))
            print(json.dumps(harness.run_scenario(prop, scn), default=str))
            return 0
        seed0 = int(os.environ.get("VERIF_SEED", "1") or "1")
        return run_check(prop, args.tier, seed0, args)
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
