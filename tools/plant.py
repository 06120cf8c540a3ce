"""Turn a draft of a planted bug into /verif/seeded/<id>/ after checking it in a scratch copy.

usage: plant.py DRAFT.py [--no-tests] [--check]
A draft defines PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (a Python program).
"""
import json, os, runpy, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def main():
    draft = sys.argv[1]
    pid = os.path.basename(draft)[:-3]
    d = runpy.run_path(draft)
    W = f"/tmp/pl_{pid}"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    try:
        return work(pid, d, W)
    finally:
        shutil.rmtree(W, ignore_errors=True)


def work(pid, d, W):
    for f, old, new in d["EDITS"]:
        p = os.path.join(W, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(pid, "EDIT does not match once:", s.count(old), repr(old)[:80])
            return 1
        open(p, "w").write(s.replace(old, new))
    rc, patch = sh("git diff", W)
    out = os.path.join(V, "seeded", pid)
    tmp = f"/tmp/pd_{pid}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(f"{tmp}/patch.diff", "w").write(patch)
    open(f"{tmp}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    open(f"{tmp}/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexport PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{tmp}/demo.sh", 0o755)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(f"{tmp}/meta.json", "w"), indent=1)
    # only lines of the original repository may change
    for f, old, _ in d["EDITS"]:
        base = sh(f"git show 8bdb257:{f}", W)[1]
        rem = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        bad = [l for l in rem if l.strip() and l not in base]
        if bad:
            print(pid, "NOTE: changes lines that are not original:", bad[:3])
    rc0, o0 = sh(f"{tmp}/demo.sh", "/repo")
    rc1, o1 = sh(f"{tmp}/demo.sh", W)
    print(f"{pid}: demo clean {rc0}, patched {rc1}")
    if rc0 != 0 or rc1 == 0:
        print(o0[-1500:], "\n-----\n", o1[-1500:])
        return 1
    print("   ", (o1.strip().splitlines() or [""])[-1][:200])
    if "--no-tests" not in sys.argv:
        t = time.time()
        NX = "/opt/venv/lib/python3.12/site-packages/networkx"
        base = f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2"
        sh(f"{base} --continue-on-collection-errors --check-structure --junitxml={tmp}/own.xml", W, {"PYTHONPATH": W})
        sh(f"{base} --pyargs networkx -n 8 --dist worksteal --ignore={NX}/algorithms/isomorphism/tests/test_tree_isomorphism.py --junitxml={tmp}/nx.xml",
           W, {"PYTHONPATH": W, "NETWORKX_GRAPH_CONVERT": "graphblas", "NETWORKX_TEST_BACKEND": "graphblas", "NETWORKX_FALLBACK_TO_NX": "True"})
        rc, o = sh(f"python3 /opt/vp/results.py {tmp}/t.json 'junit:{tmp}/*.xml'", W)
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base["stable"]
        got = json.load(open(f"{tmp}/t.json"))
        miss = sorted(set(names) - set(got["passed"]))
        print(f"    tests: {len(got['passed'])} passed, {len(miss)} of the baseline missing ({time.time() - t:.0f} s)", miss[:5])
        if miss:
            return 1
        for x in ("own.xml", "nx.xml", "t.json"):
            if os.path.exists(f"{tmp}/{x}"):
                os.remove(f"{tmp}/{x}")
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(tmp)
    if "--check" in sys.argv:
        t = time.time()
        rc, o = sh(f"{V}/check {d['PROP']} --tier quick", V, {"DST_REPO": W, "DST_EVIDENCE": "/tmp/plants/ev", "VERIF_SEED": "1"})
        lines = [l for l in o.splitlines() if l.startswith("VIOLATION") or "->" in l or "minimal" in l]
        print(f"    check {d['PROP']}: rc {rc} ({time.time() - t:.0f} s)", "; ".join(lines)[:500])
    return 0


sys.exit(main())
