#!/usr/bin/env python3
"""Quietness tests: behaviour-preserving rewrites of /repo that every check has to stay quiet on.

usage: refactor.py [FILE...]   each file under tools/refactors defines EDITS = [(path, old, new), ...];
all of them are applied together to a scratch copy, which is analysed with every check."""
import os, sys, subprocess, shutil, glob
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
W = os.environ.get("REFACTOR_DIR", "/tmp/hplsa-refactor")
repo = W + "/repo"

def run(name, edits):
    if not os.path.isdir(repo):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        shutil.copy("/repo/Cargo.lock", repo)
    subprocess.check_call("git fetch -q origin; git reset -q --hard origin/HEAD", shell=True, cwd=repo)
    for f, o, n in edits:
        if o is None:  # the whole file
            open(repo + "/" + f, "w").write(n)
            continue
        s = open(repo + "/" + f).read()
        assert s.count(o) == 1, (name, f, s.count(o), o)
        open(repo + "/" + f, "w").write(s.replace(o, n))
    env = dict(os.environ, HPLSA_REPO=repo, HPLSA_BUILD=W + "/build")
    p = subprocess.run([sys.executable, "check.py", "all"], cwd=verif, env=env, capture_output=True, text=True)
    out = (p.stdout + p.stderr).splitlines()
    bad = [l[:400] for l in out if l.startswith("VIOLATION") or "rror" in l[:12] or l.startswith("  ")]
    print("%-28s rc=%d %s" % (name, p.returncode, "quiet" if p.returncode == 0 else ""))
    if p.returncode:
        if any(l.startswith("error") for l in out):
            out = [l for i, l in enumerate(out) if any(x.startswith("error") for x in out[max(0, i - 12):i + 1])]
        print("\n".join(l[:600] for l in out if not l.startswith("KNOWN") and "obligations," not in l)[:6000])
    subprocess.check_call("git checkout -q -- .", shell=True, cwd=repo)

if __name__ == "__main__":
    files = sys.argv[1:] or sorted(glob.glob(here + "/refactors/*.py"))
    for f in files:
        g = {}
        exec(open(f).read(), g)
        run(os.path.basename(f)[:-3], g["EDITS"])
