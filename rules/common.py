"""Context of a run, reports, evidence."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

import interp
import mir
import refine
from refine import GiveUp
from terms import *


class Late(BaseException):
    """out of time"""


class NoAnchor(Exception):
    """something public the property speaks about is not there"""


def build_dir():
    return os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))


def ensure_driver():
    d = build_dir()
    drv = os.path.join(d, "mirdump")
    src = os.path.join(VERIF, "mirdump", "src", "main.rs")
    if not os.path.exists(drv) or os.path.getmtime(drv) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(prefix="mirdump.")
        try:
            subprocess.run(["bash", os.path.join(VERIF, "mirdump", "build.sh"), tmp], check=True, stdout=subprocess.DEVNULL)
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(tmp):
                s = os.path.join(tmp, f)
                if os.path.isfile(s):
                    shutil.copy2(s, os.path.join(d, f + ".new"))
                    os.replace(os.path.join(d, f + ".new"), os.path.join(d, f))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], check=True, capture_output=True, text=True).stdout.strip()


def cargo_env(target, flags, **kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC")) and k not in ("CARGO_HOME",):
            del e[k]
    e["CARGO_TARGET_DIR"] = target
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    e.update(kw)
    return e


FLAGS = "-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings -Coverflow-checks=on -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums"


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.tmp = tempfile.mkdtemp(prefix="dynparser-check.")
        self.graphs = {}
        self.edges = 0
        self.funcs = {}
        self._kit = None
        self.opaque = {}

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def dump(self, args=("--lib",), crate="dynparser", cwd=None, flags=FLAGS, out="out", extra=None):
        d = ensure_driver()
        o = os.path.join(self.tmp, out)
        os.makedirs(o, exist_ok=True)
        env = cargo_env(
            os.path.join(self.tmp, "target"),
            flags,
            LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"),
            MIRDUMP_OUT=o,
            MIRDUMP_CRATES=crate,
            CARGO_INCREMENTAL="0",
            MIRDUMP_MODELS=os.path.join(d, "libmodels.rlib"),
            RUSTC_WORKSPACE_WRAPPER=os.path.join(d, "mirdump"),
        )
        env.update(extra or {})
        r = subprocess.run(
            ["cargo", "+nightly", "check", "--offline"] + list(args), cwd=cwd or REPO, env=env, capture_output=True, text=True
        )
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            x = RuntimeError("cannot compile %s" % (cwd or REPO))
            x.output = r.stderr
            raise x
        p = os.path.join(o, crate + ".json")
        if not os.path.exists(p):
            raise RuntimeError("no dump of %s was written" % crate)
        return p

    def load(self):
        f = os.environ.get("VERIF_DUMP")
        self.prog = mir.Prog(f or self.dump())
        return self.prog

    @property
    def kit(self):
        if self._kit is None:
            from parserspec import ParserKit

            self._kit = ParserKit(self.prog)
        return self._kit

    def public(self, path):
        """key of the function with this path, which is part of the interface"""
        ks = self.prog.by_path(path)
        if len(ks) != 1:
            raise NoAnchor("function %s (%d found)" % (path, len(ks)))
        return ks[0]

    def graph(self, key, cut=(), **kw):
        k = (key, tuple(sorted(cut)), tuple(sorted((a, id(b) if isinstance(b, dict) else b) for a, b in kw.items())))
        if k not in self.graphs:
            it = interp.Interp(self.prog, cut=list(cut), **kw)
            g = it.analyse(key)
            g.opaque = dict(it.opaque_calls)
            for n, c in it.opaque_calls.items():
                self.opaque[n] = self.opaque.get(n, 0) + c
            self.graphs[k] = g
            n = len(list(g.edges()))
            self.edges += n
            path = self.prog.raw[key]["path"]
            self.funcs[path] = self.funcs.get(path, 0) + n
            for p in getattr(it, "inlined", ()):
                self.funcs.setdefault(p, 0)
        return self.graphs[k]


class Finding:
    def __init__(self, key, text, where, detail=""):
        self.key, self.text, self.where, self.detail = key, text, where, detail


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.rules = []
        self.samples = []
        self.counts = {}
        self.lost = None
        self.assumptions = []

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def violate(self, key, text, where, detail=""):
        self.obligations += 1
        for f in self.findings:
            if f.key == key:
                return
        self.findings.append(Finding(key, text, where, detail))

    def undec(self, text):
        self.obligations += 1
        if text not in self.undecided:
            self.undecided.append(text)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)


def where_str(w):
    """('file', line) chains -> file:line < file:line"""
    if not w:
        return "?"
    return " < ".join("%s:%s" % (f, l) for f, l in reversed(list(w)))


def pretty(t, prog=None):
    s = str(t)
    import re

    def fn(m):
        n = m.group(0)
        if prog is not None and n in prog.raw:
            return prog.raw[n]["path"]
        return n

    s = re.sub(r"_RN\w+", fn, s)
    return s if len(s) < 700 else s[:700] + "…"


def known_findings():
    p = os.path.join(VERIF, "known-findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                r.append(json.loads(l))
    return r


def finish(ctx, rep, info, wall):
    known = {(k["property"], k["key"]): k for k in known_findings() if k.get("status") == "known"}
    viol = []
    for f in rep.findings:
        k = known.get((rep.pid, f.key))
        if k:
            print("KNOWN-FINDING: property=%s %s" % (rep.pid, k["what"]))
            rep.discharged += 1
        else:
            viol.append(f)
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    cov = {
        "explanation": info["rule"],
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "checker_cmd": "python3 check.py %s %s" % (rep.pid, ctx.tier),
        "trusted_base": [
            "rustc nightly MIR of the library as built by cargo check (overflow checks on)",
            "engine/: abstract interpreter over MIR and refinement checker",
            "engine/models.py: meaning of the standard library operations used",
            "rules/: the specification of the property",
        ],
        "functions_analysed": {k: v for k, v in sorted(ctx.funcs.items())},
        "paths_analysed": ctx.edges,
        "undecided": rep.undecided[:40],
        "samples": rep.samples,
        "counts": rep.counts,
        "opaque_calls": ctx.opaque,
    }
    out = {
        "property": rep.pid,
        "tier": ctx.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": info["level"],
        "coverage": cov,
        "assumptions": info.get("assumptions", []) + rep.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    replay = os.path.join(ev, rep.pid + ".replay.txt")
    if viol:
        with open(replay, "w") as f:
            for v in viol:
                f.write("property %s\n  %s\n  at %s\n  key %s\n%s\n\n" % (rep.pid, v.text, v.where, v.key, v.detail))
    elif os.path.exists(replay):
        os.remove(replay)
    with open(os.path.join(ev, rep.pid + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    print(
        "%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %d paths, %.1f s"
        % (rep.pid, rep.obligations, rep.discharged, len(rep.undecided), len(viol), len(ctx.funcs), ctx.edges, wall)
    )
    for u in rep.undecided[:10]:
        print("UNDECIDED %s" % u)
    if viol:
        for v in viol[:10]:
            print("  %s\n    at %s" % (v.text, v.where))
        print("VIOLATION property=%s replay=%s" % (rep.pid, replay))
        return 1
    if rep.lost:
        print("NO-ANSWER property=%s %s" % (rep.pid, rep.lost))
        return 2
    return 0
