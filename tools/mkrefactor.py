#!/usr/bin/env python3
"""mkrefactor.py <spec.py> [id...]: makes /verif/refactor/<id>.diff from CHANGES = [dict(id, edits=[(file, old, new)])],
behaviour preserving edits; confirms each builds and passes the tests in a scratch copy.  Not used by any check."""
import os, shutil, subprocess, sys, tempfile
import concurrent.futures as cf
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "refactor")
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]

def one(s):
    d = tempfile.mkdtemp(prefix="refa.")
    r = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("incremental"))
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=r + "/target", CARGO_INCREMENTAL="0")
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src", f)
            t = open(p).read()
            if t.count(old) != 1:
                return "BAD %s: edit matches %d times in %s: %r" % (s["id"], t.count(old), f, old[:80])
            open(p, "w").write(t.replace(old, new))
        t = subprocess.run("git diff -- src > ../p.diff; cargo test --offline 2>&1", shell=True, cwd=r, capture_output=True, text=True, env=env)
        if t.returncode:
            return "BAD %s: %s" % (s["id"], "\n".join(l for l in t.stdout.splitlines() if "error" in l or "-->" in l or "FAILED" in l or "^" in l or " | " in l)[-2500:])
        shutil.copy(d + "/p.diff", os.path.join(OUT, s["id"] + ".diff"))
        return "ok " + s["id"]
    finally:
        shutil.rmtree(d, ignore_errors=True)

os.makedirs(OUT, exist_ok=True)
with cf.ThreadPoolExecutor(4) as ex:
    for m in ex.map(one, [s for s in ns["CHANGES"] if not want or s["id"] in want]):
        print(m)
