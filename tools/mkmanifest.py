"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PROPS = {"C01": "p_history", "C02": "p_threads", "C03": "p_faults", "C04": "p_isolation", "C05": "p_lazy",
         "C06": "p_containers", "C07": "p_storage", "C08": "p_session", "C09": "p_convert", "C10": "p_keys", "C11": "p_progress"}
T = {
 "C01": ("deterministic simulation: seeded histories of calls and property reads, checked against fresh graphs in isolated processes and NetworkX",
         "Seeded search, no exhaustive bound. Trusts NetworkX as the reference in the compared domain and fresh graphs elsewhere; graphs are small."),
 "C02": ("deterministic simulation: seeded scheduler over caller threads (switch points at every source line and engine call), linearizability against serial answers",
         "Seeded search over schedules. Engine calls are atomic steps in the simulation; switches between bytecodes of one line are not explored."),
 "C03": ("deterministic simulation with fault injection: seeded fault at the k-th engine call, source line or client iterator item, then comparison with a history without it",
         "Seeded search over fault points and histories. An engine call that is failed has no effect on its outputs."),
 "C04": ("deterministic simulation: seeded histories with client mutations of results, earlier results and arguments re-checked after every step",
         "Seeded search. Bare engine objects (matrices returned by linear-algebra functions) are checked for stability, not for client writes."),
 "C05": ("deterministic simulation: seeded scheduler interleaving the steps of live iterators, closes, faults and calls; eager reference",
         "Seeded search over interleavings and batch sizes."),
 "C06": ("deterministic simulation with fault injection: seeded operation histories on containers against Python dict/set models, faults inside operations",
         "Seeded search; the model is Python's dict and set."),
 "C07": ("deterministic simulation: seeded changes of the engine's storage representation and of its free choices during histories, compared with an undisturbed run",
         "Seeded search. Free choices are simulated by replacing any-operators by first/last/min/max choices that the engine could make."),
 "C08": ("deterministic simulation: seeded sessions of graph changes, conversions and calls through every public route (dispatch, backend keyword, converted graphs, direct calls), refinement against NetworkX",
         "Seeded search within the compared domain listed in DESIGN.md; trusts NetworkX 3.2.1."),
 "C09": ("deterministic simulation with fault injection: seeded histories of changes, conversions and failed conversions against a reference model",
         "Seeded search; the model is a plain Python dict of nodes, edges and weights."),
 "C10": ("deterministic simulation: the same seeded history replayed under other simulated hash functions, key types and insertion orders",
         "Seeded search; hash order is decided by simulated keys and by hash seeds of child processes."),
 "C11": ("deterministic simulation with fault injection: logical-clock deadlines in source lines and engine calls over adversarial histories",
         "Seeded search; the bound is generous (a constant times the cube of the size), so it shows non-termination and lost budgets, not slowness."),
}
NA = {
 "N01": "Parsing a string is a stateless function of one input with no schedule, time, I/O or fault to simulate; batch sizes themselves are explored in C05.",
 "N02": "A static fact about the set of functions in the package; no execution nondeterminism takes part in it.",
 "N03": "The threads are inside the C library (OpenMP), beyond any seam of this repository; they cannot be put under the simulator's scheduler here.",
 "N04": "Real time and memory growth are not properties of schedules or faults; the simulator has a logical clock only.",
}
checks, na = [], []
for pid, mod in PROPS.items():
    if os.path.exists(os.path.join(V, "dst", mod + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check {pid} --tier quick", "thorough_cmd": f"./check {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json", "technique": T[pid][0], "level": "exploration", "level_note": T[pid][1]})
    else:
        na.append({"property": pid, "reason": "check not built yet"})
na += [{"property": k, "reason": v} for k, v in NA.items()]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: every seam is installed from outside (sys.monitoring line events, the engine's call function, lock factories). See DESIGN.md."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
