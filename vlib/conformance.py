"""Thorough tier: tests the trusted part of the verifier (translation of MIR, models of the libraries) against the real libraries.

/verif/conform has small functions over constants; `cargo test` runs them for real, mirvc judges the same functions on their MIR (see conform/run.py)."""
import json
import os
import shutil
import subprocess
import build
import prove

SRC = os.path.join(build.VERIF, "conform")


def run(workers=4):
    try:
        return run_(workers)
    except Exception as e:
        return {"error": str(e)[-1000:]}


def run_(workers):
    md, w = prove.dumper()
    target = os.path.join(build.OUT, "conform")
    out = os.path.join(target, "mir")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    man = ["--offline", "--manifest-path", os.path.join(SRC, "Cargo.toml")]
    t = subprocess.run(["cargo", "test", "-q"] + man, env=build.env(os.path.join(target, "real")), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    e = build.env(os.path.join(target, "check"))
    e.update(RUSTC=w, RUSTC_WORKSPACE_WRAPPER=md, MIRDUMP_OUT=out, LD_LIBRARY_PATH=prove.NIGHTLY + "/lib")
    e.pop("RUSTC_WRAPPER", None)
    shutil.rmtree(os.path.join(target, "check", "debug", ".fingerprint"), ignore_errors=True)
    r = subprocess.run(["cargo", "check"] + man, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode:
        raise RuntimeError("conform: no MIR: " + r.stdout[-800:])
    ps = []
    for k in range(workers):
        ps.append(subprocess.Popen([prove.PY, os.path.join(SRC, "run.py"), out, os.path.join(out, "r%d.json" % k), "%d/%d" % (k, workers)]))
    for p in ps:
        p.wait(600)
    v = {}
    for k in range(workers):
        with open(os.path.join(out, "r%d.json" % k)) as f:
            v.update(json.load(f))
    ps = [subprocess.Popen([prove.PY, os.path.join(SRC, "pairs.py"), out, os.path.join(out, "p%d.json" % k), "%d/%d" % (k, workers)]) for k in range(workers)]
    pairs = {"pairs": 0, "equal": 0, "unsound": []}
    for k, p in enumerate(ps):
        p.wait(400)
        with open(os.path.join(out, "p%d.json" % k)) as f:
            x = json.load(f)
        pairs["pairs"] += sum(y[2] for y in x["stat"])
        pairs["equal"] += sum(y[2] for y in x["stat"] if y[0] == "ok")
        pairs["unsound"] += [y for y in x["bad"] if y[0] == "unsound"]
    n = {}
    for x in v.values():
        n[x[0]] = n.get(x[0], 0) + 1
    return {"what": "functions over constants with the value the real libraries give, judged by mirvc", "real_run": "passed" if t.returncode == 0 else "failed: " + t.stdout[-300:],
            "expressions_compared": pairs, "functions": len(v), "proved": n.get("proved", 0), "no_verdict": n.get("unknown", 0) + n.get("unsupported", 0), "panic_imprecise": n.get("panic", 0),
            "wrong": sorted(k for k, x in v.items() if x[0] == "wrong"), "errors": n.get("error", 0)}
