"""Compile /repo's current sources with the driver and return the dump directory.

Nothing is kept in /repo; the dump is cached under /verif/.build keyed by the
content of every source file, so a changed tree is always analysed afresh.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HPLSA_REPO", "/repo")
BUILD = os.environ.get("HPLSA_BUILD", os.path.join(VERIF, ".build"))


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in fs:
            if f.endswith((".rs", ".toml", ".lock", ".proto")):
                files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    for f in sorted(glob.glob(os.path.join(VERIF, "driver", "src", "*.rs")) + [os.path.join(VERIF, "driver", "Cargo.toml"), os.path.abspath(__file__)]):
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24], len(files)


def run(cmd, env, cwd, what):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit("analysis error: %s failed" % what)
    return r.stdout


def ensure():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    h, nfiles = source_hash()
    out = os.path.join(BUILD, "dump-" + h)
    if os.path.exists(os.path.join(out, "complete")):
        return out, nfiles
    for d in glob.glob(os.path.join(BUILD, "dump-*")):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    denv = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    run(["cargo", "build", "--release", "--offline", "-q"], denv, os.path.join(VERIF, "driver"), "driver build")
    sysroot = run(["rustc", "--print", "sysroot"], env, VERIF, "rustc").strip()
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    tgt = os.path.join(BUILD, "target")
    for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "hpl*")) + glob.glob(os.path.join(tgt, "debug", "build", "hpl*")):
        shutil.rmtree(d, ignore_errors=True)
    lockf = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lockf) and os.path.exists("/opt/vp/Cargo.lock.made"):
        shutil.copy("/opt/vp/Cargo.lock.made", lockf)
    env.update({
        "DOCS_RS": "1", "CARGO_TARGET_DIR": tgt,
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Awarnings",
        "LD_LIBRARY_PATH": sysroot + "/lib",
        "RUSTC_WORKSPACE_WRAPPER": os.path.join(BUILD, "driver", "release", "hplsa-driver"),
        "HPLSA_OUT": tmp,
    })
    run(["cargo", "check", "--offline", "--workspace", "--lib", "--bins", "--exclude", "hpl-tests"], env, REPO, "cargo check with driver")
    n = len(glob.glob(os.path.join(tmp, "*.json")))
    if n < 20:
        raise SystemExit("analysis error: only %d crates analysed" % n)
    open(os.path.join(tmp, "complete"), "w").write(str(n))
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out, nfiles


if __name__ == "__main__":
    print(ensure())
