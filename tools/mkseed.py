#!/usr/bin/env python3
"""mkseed.py <spec.py> [id...]: makes /verif/seeded/<id>/ from SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
and confirms each in a scratch copy of /repo: it builds, the existing tests pass, the demonstration
exits 0 without and non-zero with the change.  Not used by any check."""
import json, os, shutil, subprocess, sys, tempfile

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
HEAD = "#[macro_use]\nextern crate dynparser;\n#[allow(unused_imports)]\nuse dynparser::*;\n"
SH = """#!/bin/bash
# cwd: the repository after its build; exit 0 when the property holds on the example
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
RUSTUP_TOOLCHAIN=stable rustc --edition 2018 -A warnings -o "$t/demo" "$d/demo.rs" --extern dynparser=target/debug/libdynparser.rlib -L target/debug/deps || exit 3
ulimit -v 4000000
timeout 60 "$t/demo"
"""


def sh(cmd, cwd, **kw):
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(cwd, "target"))
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns["SEEDS"]:
        if want and s["id"] not in want:
            continue
        d = tempfile.mkdtemp(prefix="seed.")
        r = os.path.join(d, "repo")
        try:
            shutil.copytree("/repo", r, symlinks=True)
            for f in (".fingerprint",):
                pass
            o = os.path.join(OUT, s["id"])
            os.makedirs(o, exist_ok=True)
            demo = HEAD + s["demo"]
            open(os.path.join(o, "demo.rs"), "w").write(demo)
            open(os.path.join(o, "demo.sh"), "w").write(SH)
            sh("rm -rf target/debug/.fingerprint/dynparser-*; cargo build --offline", r)
            a = sh("bash %s/demo.sh" % o, r)
            msg = []
            if a.returncode != 0:
                msg.append("demo fails without the change (%d): %s" % (a.returncode, (a.stdout + a.stderr)[-1500:]))
            for f, old, new in s["edits"]:
                p = os.path.join(r, "src", f)
                t = open(p).read()
                if t.count(old) != 1:
                    msg.append("edit matches %d times in %s: %r" % (t.count(old), f, old[:60]))
                    continue
                open(p, "w").write(t.replace(old, new))
            diff = sh("git diff -- src", r).stdout
            open(os.path.join(o, "patch.diff"), "w").write(diff)
            b = sh("cargo build --offline 2>&1", r)
            if b.returncode:
                msg.append("does not build: " + b.stdout[-1500:])
            t = sh("timeout -s KILL 300 cargo test --offline 2>&1", r)
            if t.returncode:
                msg.append("tests fail: " + "\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "failed" in l)[-800:])
            b = sh("bash %s/demo.sh" % o, r)
            if b.returncode == 0:
                msg.append("demo passes with the change")
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
            if msg:
                print("BAD", s["id"], *msg, sep="\n   ")
                shutil.rmtree(o)
            else:
                print("ok", s["id"], (b.stdout + b.stderr).strip().splitlines()[-1:][0][:100] if (b.stdout + b.stderr).strip() else "")
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
