#!/usr/bin/env python3
"""corpus.py [-q] <dir of patches or seeded dir> [filter]: applies each patch to a scratch copy of /repo and
runs every check on it (VERIF_DUMP).  Development tool, not used by any check."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(H, "..")
sys.path.insert(0, os.path.join(V, "rules"))
import registry

def patches(d):
    out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isdir(p) and os.path.exists(p + "/patch.diff"):
            out.append((n, p + "/patch.diff", json.load(open(p + "/meta.json"))["property"]))
        elif n.endswith(".diff"):
            out.append((n, p, None))
    return out

def one(x):
    n, p, prop = x
    d = tempfile.mkdtemp(prefix="corpus.")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        a = subprocess.run(["patch", "-p1", "-s", "-i", os.path.abspath(p)], cwd=r, capture_output=True, text=True)
        if a.returncode:
            return n, prop, {"patch": (9, a.stdout + a.stderr)}
        subprocess.run(["bash", os.path.join(H, "dump.sh"), r, d + "/out"], capture_output=True)
        res = {}
        dump = d + "/out/dynparser.json"
        if not os.path.exists(dump):
            return n, prop, {"dump": (9, "no dump")}
        for c in sorted(registry.CHECKS):
            if ONLY and c not in ONLY:
                continue
            env = dict(os.environ, VERIF_DUMP=dump, VERIF_REPO=r, VERIF_EVIDENCE=d + "/ev")
            q = subprocess.run([sys.executable, os.path.join(V, "check.py"), c, "quick"], cwd=V, env=env, capture_output=True, text=True)
            res[c] = (q.returncode, q.stdout + q.stderr)
        return n, prop, res
    finally:
        shutil.rmtree(d, ignore_errors=True)

args = sys.argv[1:]
quiet = "-q" in args
args = [a for a in args if a != "-q"]
ONLY = set()
for a in list(args):
    if a.startswith("--only="):
        ONLY = set(a[7:].split(",")); args.remove(a)
ps = patches(args[0])
if len(args) > 1:
    ps = [p for p in ps if args[1] in p[0]]
with cf.ThreadPoolExecutor(8) as ex:
    for n, prop, res in ex.map(one, ps):
        v = [c for c, (rc, o) in res.items() if rc == 1]
        na = [c for c, (rc, o) in res.items() if rc not in (0, 1)]
        und = [c for c, (rc, o) in res.items() if "UNDECIDED" in o]
        if prop:
            print("%-8s %-28s %s  violated: %s%s%s" % ("CAUGHT" if prop in v else "MISSED", n, prop, ",".join(v), "  no answer: " + ",".join(na) if na else "", "  undecided: " + ",".join(und) if und else ""))
        else:
            print("%-8s %-28s violated: %s%s%s" % ("QUIET" if not v and not na else "ALARM", n, ",".join(v), "  no answer: " + ",".join(na) if na else "", "  undecided: " + ",".join(und) if und else ""))
        if not quiet:
            for c in res:
                rc, o = res[c]
                if rc == 9 or (prop is None and rc != 0) or (prop == c and rc != 1) or rc not in (0, 1):
                    print("    %s: %s" % (c, "\n        ".join(o.strip().splitlines()[-12:])[:3000]))
        sys.stdout.flush()
