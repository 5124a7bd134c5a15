"""C14: what can reach a result besides the arguments.

A flow-insensitive taint analysis over the MIR of everything reachable from the
public functions: sources are global mutable state, clock, environment,
randomness, addresses and the iteration order of hash maps; sinks are the
results of public functions.  Data flow (through calls, closures, references)
and control flow (what is assigned depending on a branch) are followed."""
import re

from common import *
from mir import term_succ

SRC, SEQ, ITEM, ORD, UNS = "source", "ordered", "item", "iterator", "unsure"

SOURCES = [
    (r"^std::time::(SystemTime|Instant)::", "the clock"),
    (r"^std::env::", "the environment"),
    (r"^std::fs::", "the file system"),
    (r"^std::io::(stdin|Stdin|Read|BufRead)", "standard input"),
    (r"^std::net::", "the network"),
    (r"^std::process::(id|Command)", "processes"),
    (r"^std::thread::(current|Thread|ThreadId|available_parallelism|panicking|LocalKey)", "the thread"),
    (r"^std::hash::(RandomState|random::)|RandomState as |^std::hash::BuildHasher::", "randomness"),
    (r"^std::backtrace::", "the stack"),
    (r"<std::hash::RandomState as", "randomness"),
    (r"::new_pointer$", "an address"),
]
UNSURE = [(r"^std::ptr::(eq|addr_eq)$", "an address"), (r"::(addr|expose_provenance)$", "an address")]
SOURCES = [(re.compile(a), b) for a, b in SOURCES]
UNSURE = [(re.compile(a), b) for a, b in UNSURE]
HASH = ("std::collections::HashMap", "std::collections::HashSet")
ORDERLESS = HASH + ("std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::BinaryHeap")
LAZY = ("std::sync::OnceLock", "std::sync::LazyLock", "std::cell::OnceCell", "std::cell::LazyCell", "std::sync::Once")
CELLS = re.compile(r"std::cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|core::cell|std::sync::(atomic::|Mutex|RwLock|OnceLock|LazyLock|Condvar)|std::sync::mpsc")
PUSH = {"push", "push_str", "push_back", "push_front", "extend", "append", "insert", "insert_str", "write_str", "write_fmt", "add_assign", "extend_from_slice", "write_char"}
SORTS = {"sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"}


class Types:
    def __init__(self, prog):
        self.p = prog
        self.ol = {}
        self.hm = {}

    def t(self, i):
        return self.p.types[self.p.strip(i)]

    def orderless(self, i, depth=0):
        """values of the type do not depend on the order things were put in"""
        i = self.p.strip(i)
        if i in self.ol:
            return self.ol[i]
        self.ol[i] = True
        t = self.p.types[i]
        k = t["k"]
        if k in ("int", "bool", "never"):
            r = True
        elif k == "tuple":
            r = all(self.orderless(x) for x in t["es"])
        elif k == "adt":
            if t["path"] in ORDERLESS:
                r = True
            elif t["krate"] in ("core", "alloc", "std", "hashbrown"):
                r = t["path"] in ("std::option::Option", "std::result::Result") and all(self.orderless(a) for a in t["args"])
            else:
                r = bool(t["variants"]) and all(self.orderless(f[1]) for v in t["variants"] for f in v["fields"]) and any(v["fields"] for v in t["variants"])
        else:
            r = False
        self.ol[i] = r
        return r

    def has_hash(self, i):
        """printing a value of the type prints a hash map"""
        i = self.p.strip(i)
        if i in self.hm:
            return self.hm[i]
        self.hm[i] = False
        t = self.p.types[i]
        r = False
        if t["k"] == "adt":
            if t["path"] in HASH:
                r = True
            elif t["krate"] in ("core", "alloc", "std"):
                r = any(self.has_hash(a) for a in t["args"])
            else:
                r = any(self.has_hash(f[1]) for v in t["variants"] for f in v["fields"])
        elif t["k"] in ("tuple",):
            r = any(self.has_hash(x) for x in t["es"])
        elif t["k"] in ("slice", "array"):
            r = self.has_hash(t["e"]) if "e" in t else False
        self.hm[i] = r
        return r

    def is_iter(self, i):
        t = self.t(i)
        return t["k"] == "adt" and (
            t["path"].startswith(("std::iter::", "core::iter::", "std::collections::hash", "std::slice::", "std::vec::IntoIter", "std::option::IntoIter"))
            or t["path"].startswith(("hashbrown::", "std::array::", "std::str::"))
        )

    def is_seq(self, i):
        t = self.t(i)
        return t["k"] in ("slice", "str") or (t["k"] == "adt" and t["path"] in ("std::string::String", "std::vec::Vec", "std::collections::VecDeque", "std::collections::LinkedList"))

    def is_hash(self, i):
        t = self.t(i)
        return t["k"] == "adt" and t["path"] in HASH

    def hash_iter(self, i):
        t = self.t(i)
        return t["k"] == "adt" and ("hash_map" in t["path"] or "hash_set" in t["path"] or t["path"].startswith(("hashbrown::map", "hashbrown::set")))

    def mutref(self, i, depth=0):
        t = self.p.types[i]
        if t["k"] in ("ref", "raw"):
            return bool(t["mut"]) or self.mutref(t["e"], depth)
        if depth > 4:
            return False
        if t["k"] == "closure":
            return any(self.mutref(u, depth + 1) for u in t["ups"])
        if t["k"] == "tuple":
            return any(self.mutref(u, depth + 1) for u in t["es"])
        if t["k"] == "adt":
            return any(self.mutref(u, depth + 1) for u in t["args"])
        return False

    def anyref(self, i):
        return self.p.types[i]["k"] in ("ref", "raw")


class Body:
    """what the analysis needs of a function"""

    def __init__(self, key, d):
        self.key, self.d = key, d
        self.blocks = d["blocks"]
        n = len(self.blocks)
        self.succ = [term_succ(b["t"]) for b in self.blocks]
        reach = set()
        w = [0]
        while w:
            x = w.pop()
            if x not in reach:
                reach.add(x)
                w.extend(self.succ[x])
        self.reach = reach
        # which blocks can reach themselves
        self.cyc = set()
        for b in reach:
            seen = set()
            w = list(self.succ[b])
            while w:
                x = w.pop()
                if x not in seen:
                    seen.add(x)
                    w.extend(self.succ[x])
            if b in seen:
                self.cyc.add(b)
        self._pd = None
        self._region = {}

    def postdom(self):
        if self._pd is None:
            # only blocks from which the function returns take part
            ret = [b for b in self.reach if self.blocks[b]["t"][0] == "return"]
            live = set(ret)
            ch = True
            while ch:
                ch = False
                for b in self.reach:
                    if b not in live and any(s in live for s in self.succ[b]):
                        live.add(b)
                        ch = True
            pd = {b: (set(live) if b not in ret else {b}) for b in live}
            ch = True
            while ch:
                ch = False
                for b in live:
                    if b in ret:
                        continue
                    ss = [pd[s] for s in self.succ[b] if s in live]
                    n = set.intersection(*ss) | {b} if ss else {b}
                    if n != pd[b]:
                        pd[b] = n
                        ch = True
            self._pd = pd
        return self._pd

    def region(self, b):
        """blocks run or not depending on the branch at the end of b"""
        r = self._region.get(b)
        if r is None:
            pd = self.postdom()
            stop = pd.get(b, set()) - {b}
            seen = set()
            w = [s for s in self.succ[b] if s not in stop]
            while w:
                x = w.pop()
                if x not in seen and x in pd:
                    seen.add(x)
                    w.extend(s for s in self.succ[x] if s not in stop)
            self._region[b] = r = seen
        return r


class Effects:
    def __init__(self, prog, skip=()):
        self.p = prog
        self.T = Types(prog)
        self.lab = {}  # (fn, local) -> {label: where}
        self.bodies = {}
        self.rev = {}
        self.changed = False
        self.sources = {}
        self.sites = 0
        self.sorted = set()
        self.skip = skip
        self.escapes = []

    OWN = ("dynparser", "idata")

    def own(self, key):
        d = self.p.raw.get(key)
        return d is not None and d["krate"] in self.OWN

    def closure_keys(self, ti):
        """bodies of the closures and functions a value of the type carries"""
        out = []
        seen = set()
        w = [ti]
        while w:
            i = w.pop()
            if i in seen:
                continue
            seen.add(i)
            t = self.p.types[i]
            k = t["k"]
            if k in ("closure", "fndef"):
                if t.get("inst"):
                    out.append((t["inst"], k))
                w.extend(t.get("ups", ()))
            elif k in ("ref", "raw"):
                w.append(t["e"])
            elif k == "adt":
                w.extend(t["args"])
            elif k == "tuple":
                w.extend(t["es"])
        return out

    def operands_fns(self, d):
        out = set()

        def op(o):
            if o[0] == "k":
                t = self.p.types[o[1][1]]
                if t["k"] in ("fndef", "closure") and t.get("inst"):
                    out.add(t["inst"])

        for b in d["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] == "use" or r[0] == "repeat":
                        op(r[1])
                    elif r[0] == "cast":
                        op(r[2])
                    elif r[0] == "agg":
                        for o in r[2]:
                            op(o)
            t = b["t"]
            if t[0] == "call":
                for a in t[2]:
                    op(a)
        for l in d["locals"]:
            for k, kind in self.closure_keys(l):
                out.add(k)
        return out

    def closure(self, roots):
        """everything reachable from the roots"""
        seen = set()
        w = list(roots)
        while w:
            k = w.pop()
            if k in seen or k not in self.p.raw:
                continue
            d = self.p.raw[k]
            if d["path"].startswith(self.skip):
                continue
            seen.add(k)
            for b in d["blocks"]:
                t = b["t"]
                if t[0] == "call" and t[1].get("inst"):
                    w.append(t[1]["inst"])
            w.extend(self.operands_fns(d))
        return seen

    # ---------------------------------------------------------------- labels
    def get(self, k, l):
        return self.lab.get((k, l), {})

    def put(self, k, l, labs, ti=None):
        if not labs:
            return
        cur = self.lab.setdefault((k, l), {})
        ty = self.p.raw[k]["locals"][l] if l < len(self.p.raw[k]["locals"]) else None
        dropk = set()
        if ty is not None and self.T.orderless(ty):
            dropk = {ORD, ITEM}
        if (k, l) in self.sorted:
            dropk = dropk | {SEQ, ITEM, ORD}
        for x, w in labs.items():
            if x not in cur and x[0] not in dropk:
                cur[x] = w
                self.changed = True

    def where(self, d, line):
        return "%s:%s" % (d["file"], line)

    def run(self, roots):
        self.keys = sorted(k for k in self.closure(roots) if self.own(k))
        for k in self.keys:
            self.bodies[k] = Body(k, self.p.raw[k])
        self.find_sorted()
        for _ in range(200):
            self.changed = False
            for k in self.keys:
                self.step(k)
            if not self.changed:
                break
        else:
            raise GiveUp("no fixpoint")

    def find_sorted(self):
        """sequences put in order after being filled: the order they were
        filled in does not matter"""
        for k in self.keys:
            d = self.p.raw[k]
            al = {}  # local -> locals it borrows from
            for b in d["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "ref":
                        al.setdefault(s[1][0], set()).add(s[2][2][0])
                    elif s[0] == "=" and s[2][0] in ("use", "cast"):
                        o = s[2][1] if s[2][0] == "use" else s[2][2]
                        if o[0] in "cm" and self.T.mutref(d["locals"][s[1][0]]):
                            al.setdefault(s[1][0], set()).add(o[1][0])
                t = b["t"]
                if t[0] == "call" and t[2] and t[2][0][0] in "cm" and self.T.mutref(d["locals"][t[3][0]]):
                    al.setdefault(t[3][0], set()).add(t[2][0][1][0])
            for b in d["blocks"]:
                t = b["t"]
                if t[0] == "call" and t[1].get("name") in SORTS and t[2] and t[2][0][0] in "cm":
                    w = [t[2][0][1][0]]
                    seen = set()
                    while w:
                        l = w.pop()
                        if l not in seen:
                            seen.add(l)
                            w.extend(al.get(l, ()))
                    self.sorted |= {(k, l) for l in seen}

    def const_labels(self, k, o, line):
        """what a constant operand brings: references to statics"""
        c = o[1][0]
        if c and c[0] == "unk" and len(c) > 1 and not str(c[1]).startswith("fn"):
            return self.static_labels(str(c[1]), o[1][1], k, line)
        return {}

    def static_labels(self, name, ti, k, line):
        d = self.p.raw[k]
        st = self.statics.get(name)
        w = self.where(d, line)
        t = self.T.t(ti)
        if st is None:
            return {}
        if st["mutable"]:
            return {(SRC, "the static mut %s" % name): w}
        ty = st.get("ty", "")
        if any(ty.startswith(x) or ("::" + x.split("::")[-1] + "<") in ty for x in LAZY):
            inner = re.sub(r"^.*?(OnceLock|LazyLock|OnceCell|LazyCell)<", "", ty)
            if CELLS.search(inner.split(", fn(")[0]):
                return {(SRC, "the state kept in static %s" % name): w}
            return {("lazy", name): w}
        if st["tls"]:
            return {(SRC, "thread local state"): w}
        if not st["constant"] or CELLS.search(ty):
            return {(SRC, "the state kept in static %s" % name): w}
        return {}

    def op(self, k, o, line=0):
        if o[0] in "cm":
            r = dict(self.get(k, o[1][0]))
            for e in o[1][1]:
                if e[0] == "i":
                    r.update(self.get(k, e[1]))
            return r
        return self.const_labels(k, o, line)

    def place_labels(self, k, p):
        r = dict(self.get(k, p[0]))
        for e in p[1]:
            if e[0] == "i":
                r.update(self.get(k, e[1]))
        return r

    def back(self, k, o, labs):
        """the place behind a mutable reference got these"""
        if o[0] in "cm":
            self.put(k, o[1][0], labs)

    def step(self, k):
        d = self.p.raw[k]
        B = self.bodies[k]
        L = d["locals"]
        # blocks under a branch that depends on a source
        ctrl = {}
        for b in B.reach:
            t = B.blocks[b]["t"]
            if t[0] == "switch" and t[1][0] in "cm":
                ls = {x: w for x, w in self.op(k, t[1]).items() if x[0] in (SRC, SEQ, UNS)}
                if ls:
                    for r in B.region(b):
                        ctrl.setdefault(r, {}).update(ls)
        for b in sorted(B.reach):
            blk = B.blocks[b]
            cl = ctrl.get(b, {})
            for s in blk["s"]:
                if s[0] != "=":
                    if cl:
                        self.put(k, s[1][0], cl)
                    continue
                dst, r, line = s[1], s[2], s[-1]
                labs = dict(cl)
                kind = r[0]
                if kind == "use":
                    labs.update(self.op(k, r[1], line))
                    ops = [r[1]]
                elif kind == "ref":
                    labs.update(self.place_labels(k, r[2]))
                    ops = [["c", r[2]]]
                elif kind in ("discr", "len"):
                    labs.update(self.place_labels(k, r[1]))
                    ops = []
                elif kind in ("bin", "cbin"):
                    labs.update(self.op(k, r[2], line))
                    labs.update(self.op(k, r[3], line))
                    ops = []
                elif kind in ("un", "cast"):
                    labs.update(self.op(k, r[2], line))
                    ops = [r[2]]
                    if kind == "cast" and "Expose" in str(r[1]):
                        labs[(SRC, "an address")] = self.where(d, line)
                elif kind == "repeat":
                    labs.update(self.op(k, r[1], line))
                    ops = [r[1]]
                elif kind == "agg":
                    ops = r[2]
                    for o in ops:
                        labs.update(self.op(k, o, line))
                else:
                    ops = []
                    if kind == "unk" and str(r[1]).startswith("thread local"):
                        labs[(SRC, "thread local state")] = self.where(d, line)
                self.put(k, dst[0], labs)
                # references: what is written behind them
                if kind == "ref" or (dst[0] < len(L) and self.T.mutref(L[dst[0]])):
                    back = self.get(k, dst[0])
                    if kind == "ref" and r[1] != "m":
                        back = None
                    if back:
                        for o in ops:
                            if o[0] in "cm" and (kind == "ref" or self.T.mutref(L[o[1][0]])):
                                self.put(k, o[1][0], back)
                if kind == "agg" and r[1] == "closure":
                    ty = self.p.types[r[3]] if len(r) > 3 and isinstance(r[3], int) else self.p.types[L[dst[0]]]
                    ck = ty.get("inst")
                    if ck in self.bodies:
                        self.put(ck, 1, labs)
                        if self.T.mutref(L[dst[0]]):
                            bl = self.get(ck, 1)
                            self.put(k, dst[0], bl)
                            for o in ops:
                                if o[0] in "cm" and self.T.mutref(L[o[1][0]]):
                                    self.put(k, o[1][0], bl)
            t = blk["t"]
            if t[0] == "call":
                self.call(k, d, b, t, cl)
            elif t[0] == "return" and cl:
                self.put(k, 0, cl)

    def call(self, k, d, b, t, cl):
        f, args, dst = t[1], t[2], t[3]
        line = t[5]
        L = d["locals"]
        w = self.where(d, line)
        al = [self.op(k, a, line) for a in args]
        if "dyn" in f:
            al.append(self.op(k, f["dyn"], line))
        inst = f.get("inst")
        path = f.get("path") or ""
        rpath = f.get("rpath") or ""
        name = f.get("name") or path.split("::")[-1]
        B = self.bodies[k]
        dty = t[6] if len(t) > 6 else L[dst[0]]

        def aty(i):
            a = args[i]
            if a[0] in "cm":
                return L[a[1][0]] if not a[1][1] else None
            return a[1][1]

        allabs = {}
        for x in al:
            allabs.update(x)
        if inst in self.bodies:
            cd = self.p.raw[inst]
            if cd["spread"] is None and len(args) == cd["nargs"]:
                for i, x in enumerate(al):
                    y = dict(x)
                    y.update(cl)
                    self.put(inst, i + 1, x)
                    if cl and aty(i) is not None and self.T.mutref(aty(i)):
                        self.back(k, args[i], cl)
                    if aty(i) is not None and self.T.mutref(aty(i)):
                        self.back(k, args[i], self.get(inst, i + 1))
            else:
                for i in range(cd["nargs"]):
                    self.put(inst, i + 1, allabs)
                for i in range(len(args)):
                    if aty(i) is not None and self.T.mutref(aty(i)):
                        for j in range(cd["nargs"]):
                            self.back(k, args[i], self.get(inst, j + 1))
            res = dict(self.get(inst, 0))
            res.update(cl)
            self.put(k, dst[0], res)
            return
        self.sites += 1
        res = dict(cl)
        clos = []
        for i in range(len(args)):
            if aty(i) is not None:
                clos += [(c, kind) for c, kind in self.closure_keys(aty(i)) if c in self.bodies]
        new = {}
        # sources
        for rx, what in SOURCES:
            if rx.search(path) or rx.search(rpath):
                # HashMap::new and the like take random keys: only the order of
                # iteration shows them, and that is a source of its own
                if what == "randomness" and path.startswith(("std::collections", "std::default")):
                    continue
                self.sources[(what, w)] = 1
                new[(SRC, what)] = w
        for rx, what in UNSURE:
            if rx.search(path):
                new[(UNS, what)] = w
        if name in ("new_debug", "new_lower_hex") and any(self.T.has_hash(a) for a in f.get("targs", ())):
            new[(SEQ, "the order in which a hash map is printed")] = w
        lazy = [x for x in allabs if x[0] == "lazy"]
        if lazy:
            for x in lazy:
                allabs.pop(x)
                if name in ("get_or_init", "get_or_try_init"):
                    cts = [c for i in range(1, len(args)) if aty(i) is not None for c in [self.p.types[aty(i)]]]
                    if all(c["k"] == "fndef" or (c["k"] == "closure" and not c["ups"]) for c in cts):
                        continue
                    if all(c["k"] == "closure" for c in cts):
                        new[(SRC, "the arguments of the call that filled the static %s" % x[1])] = w
                        continue
                if name in ("deref", "force"):
                    continue
                new[(UNS, "the static %s" % x[1])] = w
        # iteration over hash maps
        hashed = any(aty(i) is not None and self.T.is_hash(aty(i)) for i in range(len(args)))
        if hashed and self.T.hash_iter(dty) and name not in ("entry",) and "Entry" not in self.T.t(dty)["path"]:
            new[(ORD, "the order of a hash map")] = w
            self.sources[("iteration of a hash map", w)] = 1
        # closures called by what is not ours get the elements
        elem = {}
        for x, y in allabs.items():
            elem[(ITEM, x[1]) if x[0] == ORD else x] = y
        for c, kind in clos:
            cd = self.p.raw[c]
            first = 2 if kind == "closure" else 1
            for i in range(first, cd["nargs"] + 1):
                e = dict(elem)
                if cl:
                    e.update(cl)
                e.update({x: y for x, y in new.items() if x[0] == SRC})
                self.put(c, i, e)
            res.update(self.get(c, 0))
        res.update(new)
        has_ord = [x for x in allabs if x[0] == ORD]
        has_item = [x for x in allabs if x[0] == ITEM]
        rest = {x: y for x, y in allabs.items() if x[0] not in (ORD, ITEM)}
        res.update(rest)
        incyc = b in B.cyc
        for x in has_ord:
            y = allabs[x]
            if self.T.orderless(dty) and not self.T.is_iter(dty):
                pass
            elif name in ("last", "nth", "next_back", "nth_back") or (name == "next" and not incyc):
                res[(SEQ, "the element that comes first in " + x[1])] = y
            elif name in ("find", "find_map", "position", "rfind") and not self.by_key(clos):
                res[(SEQ, "the element found first in " + x[1])] = y
            elif name in ("next",):
                res[(ITEM, x[1])] = y
            elif name in ("collect", "fold", "try_fold", "reduce", "unzip", "partition"):
                if self.T.is_seq(dty) or (self.T.t(dty)["k"] == "adt" and name == "collect"):
                    res[(SEQ, x[1])] = y
                else:
                    res[(ITEM, x[1])] = y
            elif name in ("max", "min", "count", "sum", "all", "any", "len", "size_hint", "product"):
                pass
            elif self.T.is_iter(dty):
                res[x] = y
            else:
                res[(ITEM, x[1])] = y
        for x in has_item:
            y = allabs[x]
            if name == "add" and incyc and self.T.is_seq(dty) and x in (al[1] if len(al) > 1 else {}):
                res[(SEQ, x[1])] = y
            else:
                res[x] = y
        self.put(k, dst[0], res)
        # what a mutable argument gets
        for i in range(len(args)):
            ti = aty(i)
            if ti is None or not self.T.mutref(ti):
                continue
            others = {}
            for j, x in enumerate(al):
                if j != i:
                    others.update(x)
            others = {x: y for x, y in others.items() if x[0] != "lazy"}
            others.update(cl)
            put = {}
            seq = self.T.is_seq(ti) and name in PUSH
            for x, y in others.items():
                if x[0] in (ORD, ITEM):
                    if seq and (x[0] == ORD or incyc or self.in_fold(k)):
                        put[(SEQ, x[1])] = y
                    else:
                        put[(ITEM, x[1])] = y
                else:
                    put[x] = y
            put.update({x: y for x, y in new.items() if x[0] == SRC and i > 0})
            self.back(k, args[i], put)

    def by_key(self, clos):
        """the predicates are comparisons of names: they hold for one element"""
        for c, kind in clos:
            d = self.p.raw[c]
            defs = [s[2] for b in d["blocks"] for s in b["s"] if s[0] == "=" and s[1] == [0, []]]
            calls = [b["t"] for b in d["blocks"] if b["t"][0] == "call" and b["t"][3] == [0, []]]
            if len(defs) + len(calls) != 1 or not calls or calls[0][1].get("name") != "eq":
                return False
        return bool(clos)

    def in_fold(self, k):
        """the body of a closure runs again and again"""
        return "{closure" in self.p.raw[k]["path"]


def roots_of(prog, skip):
    out = []
    for r in prog.roots:
        if r["pub"] and r["reach"] and " as std::fmt::Debug>" not in r["path"] and not r["path"].startswith(skip):
            out.append(r["inst"])
    return [k for k in out if k in prog.raw]


def c14(ctx, rep):
    prog = ctx.prog
    skip = ("peg::gcode", "peg::peg2code")
    E = Effects(prog, skip)
    E.statics = {s["path"]: s for s in prog.statics}
    roots = roots_of(prog, skip)
    if len(roots) < 20:
        raise NoAnchor("public functions (%d found)" % len(roots))
    for p in ("parse", "peg::rules_from_peg", "ast::Node::prune"):
        ctx.public(p)
    E.run(roots)
    n = 0
    for k in roots:
        d = prog.raw[k]
        bad = E.get(k, 0)
        outs = [("result", bad)]
        for i in range(1, d["nargs"] + 1):
            if E.T.mutref(d["locals"][i]):
                outs.append(("argument %d" % i, E.get(k, i)))
        clean = True
        for what, labs in outs:
            for x, w in sorted(labs.items()):
                if x[0] in (SRC, SEQ):
                    clean = False
                    rep.violate("%s|%s|%s" % (x[1], what, w), "%s: the %s depends on %s" % (d["path"], what, x[1]), w, "  source %s at %s" % (x[1], w))
                elif x[0] in (ITEM, UNS, ORD):
                    clean = False
                    rep.undec("%s: the %s may depend on %s, used at %s" % (d["path"], what, x[1], w))
        if clean:
            rep.ok()
        n += 1
    for k in E.keys:
        ctx.funcs[prog.raw[k]["path"]] = ctx.funcs.get(prog.raw[k]["path"], 0)
    ctx.edges += E.sites
    rep.count("public functions", n)
    rep.count("functions analysed", len(E.keys))
    rep.count("calls out of the library", E.sites)
    rep.count("sources found", len(E.sources))
    for s in sorted(E.sources):
        rep.sample({"source": s[0], "at": s[1]})
    types(ctx, rep, E, roots)


def types(ctx, rep, E, roots):
    """shared freely between threads, changed only through &mut, no borrow in
    results"""
    prog = ctx.prog
    for a in prog.adts:
        if not a["reach"]:
            continue
        for m, what in (("send", "moved to"), ("sync", "shared with")):
            if a[m]:
                rep.ok()
            else:
                rep.violate("%s not %s" % (a["path"], m), "values of %s cannot be %s another thread" % (a["path"], what), "type %s" % a["path"], "  fields %s" % a["fields"])
        inner = [f for f in a["fields"] if CELLS.search(f[1])]
        if inner or not a["freeze"]:
            rep.violate("%s interior" % a["path"], "values of %s can change while they are shared: %s" % (a["path"], [f[:2] for f in inner] or "interior mutability"), "type %s" % a["path"])
        else:
            rep.ok()
        if a["lifetimes"]:
            rep.undec("%s has lifetime parameters" % a["path"])
        else:
            rep.ok()
    for k in E.keys:
        d = prog.raw[k]
        for b in d["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and s[1][1] and any(e[0] == "*" for e in s[1][1]):
                    t = prog.types[d["locals"][s[1][0]]]
                    if t["k"] == "raw" and t["mut"]:
                        rep.undec("%s writes through a raw pointer" % d["path"])
