"""Runs the deductive verifier (mirvc) on the MIR of /repo's current tree."""
import fcntl
import glob
import json
import os
import shutil
import subprocess
import time
import build

OUT = build.OUT
HERE = build.VERIF
PY = "/opt/veriftools/pyvenv/bin/python3"
NIGHTLY = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu"
RUSTCW = """#!/bin/bash
R=%s/bin/rustc
case " $* " in *" -vV "*|*" --version "*|*" -V "*) $R "$@" | sed -e 's/-nightly//g'; exit ${PIPESTATUS[0]};; esac
exec $R "$@"
""" % NIGHTLY

BASE = ["rustc nightly: MIR of the current source (the server itself is built with 1.74.1)",
        "mirvc: the translation of MIR to logic, written for this task",
        "z3"]


def dumper():
    src = os.path.join(HERE, "mirdump", "main.rs")
    dst = os.path.join(OUT, "mirdump")
    if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
        e = build.env(OUT)
        e.pop("RUSTUP_TOOLCHAIN", None)
        r = subprocess.run([NIGHTLY + "/bin/rustc", "-O", src, "--edition", "2021", "-o", dst + ".tmp"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("mirdump does not compile: " + r.stdout[-2000:])
        os.rename(dst + ".tmp", dst)
    w = os.path.join(OUT, "rustcw")
    with open(w + ".tmp", "w") as f:
        f.write(RUSTCW)
    os.chmod(w + ".tmp", 0o755)
    os.rename(w + ".tmp", w)
    return dst, w


def dump():
    """-> directory with the MIR of /repo's working tree"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "mir.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        md, w = dumper()
        target = os.path.join(OUT, "mirtarget")
        os.makedirs(target, exist_ok=True)
        h = build.source_hash()
        out = os.path.join(OUT, "mir-" + h[:16])
        if os.path.isdir(out):
            shutil.rmtree(out)
        for old in glob.glob(os.path.join(OUT, "mir-*")):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out)
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "hyper-ir-lsp-*")):
            shutil.rmtree(d, ignore_errors=True)
        e = build.env(target)
        e.update(RUSTC=w, RUSTC_WORKSPACE_WRAPPER=md, MIRDUMP_OUT=out, LD_LIBRARY_PATH=NIGHTLY + "/lib")
        e.pop("RUSTC_WRAPPER", None)
        r = subprocess.run(["cargo", "check", "--offline", "--manifest-path", os.path.join(build.REPO, "Cargo.toml")], env=e, cwd=build.REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode or not os.path.exists(os.path.join(out, "hyper_ir_lsp.bin.json")):
            raise RuntimeError("MIR dump failed:\n" + r.stdout[-2000:])
        return out


def empty(why):
    return {"obligations": [{"name": "verifier", "status": "undecided", "backend": "mirvc", "time_s": 0.0, "detail": why}], "functions": [], "solver_s": 0.0,
            "vacuity": {}, "trusted": [], "assumed": []}


def run(prop, tier):
    t0 = time.time()
    res = os.path.join(OUT, "proof-%s.json" % prop)
    try:
        d = dump()
        t1 = time.time()
        if os.path.exists(res):
            os.remove(res)
        p = subprocess.run([PY, os.path.join(HERE, "mirvc", "run.py"), d, prop, res, tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=400 if tier == "quick" else 1500)
        if not os.path.exists(res):
            r = empty("the verifier ended without a result: " + p.stdout[-1500:])
        else:
            with open(res) as f:
                r = json.load(f)
        r["dump_s"], r["verify_s"] = round(t1 - t0, 2), round(time.time() - t1, 2)
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        r = empty(str(e))
    obl = r["obligations"]
    r["level"] = "proof" if obl and all(o["status"] == "discharged" for o in obl) else "exploration"
    r["checker_cmd"] = "python3 /verif/check.py %s (mirdump -> mirvc/run.py -> z3)" % prop
    r["trusted_base"] = BASE + r.get("trusted", [])
    r["assumptions"] = r.get("assumed", [])
    r["explanation"] = "obligations of mirvc plus a bounded run of the real server against executable contracts"
    return r
