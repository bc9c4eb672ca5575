"""Builds the real server from /repo's working tree (never from a copy)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, ".build")


def source_hash():
    h = hashlib.sha256()
    fs = []
    for d, ds, ns in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
        fs += [os.path.join(d, n) for n in ns if n.endswith((".rs", ".toml", ".lock"))]
    for f in sorted(fs):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read() + b"\0")
    return h.hexdigest()


def env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.74.1", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=target)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin"
    for k in ("RUSTC", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        if k in e and k != "RUSTC_WRAPPER":
            del e[k]
    return e


def forget(target, stamp, h):
    """cargo trusts time stamps; we do not"""
    p = os.path.join(target, stamp)
    old = open(p).read() if os.path.exists(p) else None
    if old != h:
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", "hyper-ir-lsp-*")):
            shutil.rmtree(d, ignore_errors=True)
    return p


def build_server():
    """-> path of the binary; raises RuntimeError if /repo does not build"""
    os.makedirs(OUT, exist_ok=True)
    # reuse the dependencies which were already compiled for /repo, if any
    target = os.path.join(REPO, "target") if os.path.isdir(os.path.join(REPO, "target", "debug", "deps")) else os.path.join(OUT, "target")
    os.makedirs(target, exist_ok=True)
    h = source_hash()
    with open(os.path.join(OUT, "server.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = forget(target, ".verif-stamp", h)
        r = subprocess.run(["cargo", "build", "--offline", "--bin", "hyper-ir-lsp", "--manifest-path", os.path.join(REPO, "Cargo.toml")],
                           env=env(target), cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("cargo build failed:\n" + r.stdout[-3000:])
        with open(stamp, "w") as f:
            f.write(h)
        # a private copy: the check must not see a rebuild of somebody else
        dst = os.path.join(OUT, "server-" + h[:16])
        if not os.path.exists(dst):
            for old in glob.glob(os.path.join(OUT, "server-*")):
                if os.path.isfile(old) and old != dst:
                    os.remove(old)
            shutil.copy2(os.path.join(target, "debug", "hyper-ir-lsp"), dst + ".tmp")
            os.rename(dst + ".tmp", dst)
        else:
            shutil.copy2(os.path.join(target, "debug", "hyper-ir-lsp"), dst + ".tmp")
            os.rename(dst + ".tmp", dst)
    return dst
