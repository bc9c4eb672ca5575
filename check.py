#!/usr/bin/env python3
"""check.py <property>: decides one property for /repo's current tree.

exit 0: held; exit 1 + `VIOLATION property=.. replay=..`: broken; exit 2: error of the check.
"""
import json
import multiprocessing
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vlib"))
import bounded  # noqa: E402
import build    # noqa: E402

mp = multiprocessing.get_context("spawn")     # the proof runs in a thread of this process
QUICK_S, THOROUGH_S = 20.0, 420.0
MORE_S = 200.0           # further bounded search when the proof is not complete (quick tier)


def worker(binary, prop, wid, seed, secs, q, stop, first):
    env = bounded.Env(binary)
    t0 = time.time()
    n = nt = 0
    samples = []
    try:
        while time.time() - t0 < secs and not stop.is_set():
            cs = (seed * 1000003 + wid) * 1000003 + first + n
            case = bounded.make_case(prop, cs)
            n += 1
            size = sum(len(v) for v in case.values() if isinstance(v, str)) + sum(len(d) for d in case.get("docs", []))
            if size > 20:
                nt += 1
            if len(samples) < 1 and 40 < size < 600:
                samples.append(case)
            r = bounded.run_case(env, prop, case)
            if r is not None:
                stop.set()
                q.put(("fail", case, r))
                break
    except Exception:
        q.put(("error", traceback.format_exc(), None))
    finally:
        env.close()
        q.put(("done", n, (nt, samples)))


def bounded_run(binary, prop, seed, secs, workers=8, first=0):
    q = mp.Queue()
    stop = mp.Event()
    ps = [mp.Process(target=worker, args=(binary, prop, w, seed, secs, q, stop, first)) for w in range(workers)]
    for p in ps:
        p.start()
    out = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "fails": [], "errors": []}
    done = 0
    while done < workers:
        k, a, b = q.get()
        if k == "done":
            done += 1
            out["evaluations"] += a
            out["distinct_nontrivial"] += b[0]
            out["samples"] += b[1]
        elif k == "fail":
            out["fails"].append((a, b))
        else:
            out["errors"].append(a)
    for p in ps:
        p.join()
    out["samples"] = out["samples"][:2]
    return out


def confirm(binary, prop, case):
    """a mismatch counts only if it reproduces on a fresh server"""
    for _ in range(3):
        env = bounded.Env(binary, timeout=40.0)
        try:
            r = bounded.run_case(env, prop, case)
            if r is not None:
                try:
                    c2, r2 = bounded.shrink(env, prop, case)
                    if r2 is not None:
                        return c2, r2
                except Exception:
                    pass
                return case, r
        finally:
            env.close()
    return None


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for ln in f:
            if ln.startswith("known: property=%s " % prop):
                out.append(ln.split(" ", 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    state = {}

    def do_build():
        try:
            state["binary"] = build.build_server()
        except Exception as e:
            state["build_error"] = str(e)
    tb = threading.Thread(target=do_build)
    tb.start()

    import prove
    tp = threading.Thread(target=lambda: state.update(proof=prove.run(prop, tier)))
    tp.start()
    tb.join()
    if "build_error" in state:
        tp.join()
        print(state["build_error"])
        print("ERROR: /repo does not build")
        return 2
    binary = state["binary"]
    secs = THOROUGH_S if tier == "thorough" else QUICK_S
    violation = None

    def search(secs, first):
        b = bounded_run(binary, prop, seed, secs, workers=7 if tp.is_alive() else 8, first=first)
        for case, r in b["fails"]:
            c = confirm(binary, prop, case)
            if c:
                return b, c
        return b, None
    b, violation = search(secs, 0)
    tp.join()
    proof = state["proof"]
    conf = None
    if tier == "thorough":
        import conformance
        conf = conformance.run()
        if conf.get("wrong"):
            print("the verifier itself is wrong about: %s" % conf["wrong"][:5])
            proof["level"] = "exploration"
    if not violation and not b["errors"] and any(o["status"] != "discharged" for o in proof["obligations"]) and tier != "thorough":
        # what is not proved gets a longer search
        more = max(20.0, min(MORE_S, 640.0 - (time.time() - t0)))
        b2, violation = search(more, 1 << 20)
        secs += more
        for k in ("evaluations", "distinct_nontrivial", "samples", "errors"):
            b[k] += b2[k]
        b["samples"] = b["samples"][:2]
    if b["errors"]:
        print(b["errors"][0])
        return 2
    rep_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    failed = [o for o in proof["obligations"] if o["status"] == "failed"]
    undecided = [o for o in proof["obligations"] if o["status"] == "undecided"]
    rc = 0
    line = None
    if violation:
        path = os.path.join(rep_dir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": "input", "case": violation[0], "mismatch": violation[1],
                       "failed_obligations": failed, "replay_with": "python3 /verif/replay.py " + path}, f, indent=1, ensure_ascii=False)
        print(json.dumps(violation[1], ensure_ascii=False)[:2000])
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        rc = 1
    elif failed:
        path = os.path.join(rep_dir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": "obligation", "failed_obligations": failed}, f, indent=1, ensure_ascii=False)
        for o in failed[:5]:
            print("failed obligation: %s\n%s" % (o["name"], o.get("detail", "")[:1500]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
        rc = 1
    known = []
    for k in known_findings(prop):
        import known as kf
        if kf.still_fails(binary, k):
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
            known.append(k)
    cov = {"obligations": len(proof["obligations"]),
           "discharged": sum(1 for o in proof["obligations"] if o["status"] == "discharged"),
           "undecided": len(undecided),
           "failed": len(failed),
           "checker_cmd": proof["checker_cmd"], "trusted_base": proof["trusted_base"],
           "functions_under_contract": proof["functions"],
           "obligation_list": [{k: o[k] for k in ("name", "status", "backend", "time_s") if k in o} for o in proof["obligations"]],
           "undecided_detail": [{"name": o["name"], "reason": o.get("detail", "")[:400]} for o in undecided],
           "solver_time_s": round(proof["solver_s"], 3),
           "vacuity": proof["vacuity"],
           "bounded_standin": {"label": "bounded", "what": "the real server, driven over LSP with generated documents, against the executable contracts (vlib/ref.py)",
                               "evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"],
                               "bound": "documents of at most about 60 lines generated by vlib/gen.py, seed %d, %g s x 8 workers" % (seed, secs),
                               "samples": b["samples"]},
           "known_findings": known}
    if conf:
        cov["verifier_tested"] = conf
    if proof["level"] != "proof":
        cov.update({"evaluations": b["evaluations"], "distinct_nontrivial": b["distinct_nontrivial"],
                    "rule": "a case is a generated document (or history of documents) plus requests derived from it; non-trivial: more than 20 characters of text",
                    "samples": b["samples"], "explanation": proof["explanation"]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": proof["level"], "coverage": cov, "assumptions": proof["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s: %d obligations, %d discharged, %d undecided, %d failed; %d bounded cases; %.1fs" % (
        prop, cov["obligations"], cov["discharged"], cov["undecided"], cov["failed"], b["evaluations"], time.time() - t0))
    if line:
        print(line)
    return rc


if __name__ == "__main__":
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
