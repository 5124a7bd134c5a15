"""Compares the transition system of a function with a specification machine.

A specification is a small abstract machine: locations with variables, whose
steps branch on conditions over terms.  The comparison walks both in lockstep.
After every edge of the implementation the specification runs on as far as the
facts of that edge decide its branches; at a return it is run to the end, for
every outcome the facts leave open, and the results have to agree.  What a
specification variable is at a loop head, in terms of what the implementation
holds there, is found by anti-unification over all arrivals, as for the heads
themselves.  Loops that are peeled, rotated, split or written as folds or
recursion in tail position meet the same specification.
"""
import itertools
import re
from terms import *


class Block(Exception):
    pass


class GiveUp(Exception):
    pass


GHOST = [0]


def ghost():
    GHOST[0] += 1
    return mk("atom", "ghost%d" % GHOST[0])


def is_ghost(x):
    return x.op == "atom" and str(x.args[0]).startswith("ghost")


def has_ghost(t):
    return any(is_ghost(x) for x in walk(t))


# functions of std that leave some texts as they are and change others: what
# they give is neither equal to what they were given nor different from it
CONTINGENT = re.compile(
    r"^std:.*<impl (str|char|std::string::String)>::"
    r"(trim\w*|to_(ascii_)?(lower|upper)case|replacen?|is_(ascii|alpha|numeric|alphanumeric|whitespace|control|lowercase|uppercase)\w*|eq_ignore_ascii_case)$"
    r"|^std:std::vec::Vec::<T, A>::dedup\w*#mut0$"
)


def vague(t, allow=()):
    """does the term hold something the analysis knows nothing about?"""
    for x in walk(t):
        if is_ghost(x) or x.op in ("undef", "bot", "mref"):
            return True
        if x.op == "app":
            n = x.args[0]
            if n.startswith(("fn:", "map:", "spec:", "display", "debug", "str.", "contains", "starts_with", "ends_with", "trimmed", "op:Rem", "op:Div", "boundary", "trunc1", "trunc2")) or n in allow or CONTINGENT.match(n):
                continue
            return True
    return False


CALC = re.compile(r"op:(BitAnd|BitOr|BitXor|Shl|Shr|Rem|Div)$|trunc\d+$")


def is_calc(t):
    return t.op == "app" and isinstance(t.args[0], str) and CALC.match(t.args[0]) is not None


def calc(t, m):
    """the term with numbers put in, computed where all is known"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = m[x] if x in m else rebuild(x, go)
            if is_calc(r) and all(k.op == "int" for k in r.args[1:] if isinstance(k, T)):
                v = [k.args[0] for k in r.args[1:] if isinstance(k, T)]
                n = r.args[0]
                try:
                    if n[:5] == "trunc":
                        r = I(v[0] & (1 << 8 * int(n[5:])) - 1)
                    elif min(v) >= 0:
                        r = I({"BitAnd": lambda: v[0] & v[1], "BitOr": lambda: v[0] | v[1], "BitXor": lambda: v[0] ^ v[1], "Shl": lambda: v[0] << (v[1] & 63) & (1 << 64) - 1, "Shr": lambda: v[0] >> (v[1] & 63), "Rem": lambda: v[0] % v[1], "Div": lambda: v[0] // v[1]}[n[3:]]())
                except ZeroDivisionError:
                    pass
            memo[x] = r
        return r

    return go(t)


class Mach:
    """branch decisions of one run of a step; `trail` replays those already
    taken in earlier segments"""

    def __init__(self, kit, facts, force, pre=(), trail=(), er=None):
        self.kit, self.facts, self.force = kit, facts, force
        self.er = er or (lambda t: t)
        self.pre = list(pre)
        self.trail = list(trail)
        self.seen = []
        self.taken = []
        self.open = []
        self.listish = False

    def br(self, c):
        if c.op == "and":
            return self.br(c.args[0]) and self.br(c.args[1])
        if c.op == "not":
            return not self.br(c.args[0])
        if erased(c, self.er):
            raise GiveUp("the specification looks at something forgotten")
        c = self.er(c)
        n = len(self.seen)
        if n < len(self.trail):
            v = self.trail[n]
            self.seen.append(v)
            f = self.facts.assume(c, v)
            if f is None:
                raise GiveUp("infeasible")
            self.facts = f
            return v
        v = self.br1(c)
        self.seen.append(v)
        return v

    def known(self, c):
        """what the facts say about a condition, if anything"""
        return self.facts.eval(self.er(c))

    def br1(self, c):
        e = self.facts.eval(c)
        if e is not None:
            return e
        if not self.force:
            raise Block()
        k = len(self.taken)
        v = self.pre[k] if k < len(self.pre) else True
        f = self.facts.assume(c, v)
        if f is None:
            if k < len(self.pre):
                raise GiveUp("infeasible")
            v = False
            f = self.facts.assume(c, v)
            if f is None:
                raise GiveUp("infeasible")
            self.taken.append(v)
            self.facts = f
            return v
        self.taken.append(v)
        self.listish = self.listish or any(x.op in ("nth", "len", "blen", "drop") for x in walk(c))
        if k >= len(self.pre):
            self.open.append(k)
        self.facts = f
        return v

    def variant(self, t, path):
        """name of the variant t has"""
        names = [v["name"] for v in self.kit.adt(path)["variants"]]
        if t.op == "agg":
            return names[t.args[1]]
        d = self.er(discr(t))
        f = self.facts.assume(le(ZERO, d))
        f = f and f.assume(le(d, I(len(names) - 1)))
        if f is None:
            raise GiveUp("infeasible")
        self.facts = f
        for i, n in enumerate(names[:-1]):
            if self.br(eqi(d, I(i))):
                return n
        return names[-1]

    def is_ok(self, t):
        if t.op == "agg":
            return t.args[1] == 0
        return self.br2(t, 0, 2)

    def is_some(self, t):
        if t.op == "agg":
            return t.args[1] == 1
        return not self.br2(t, 0, 2)

    def br2(self, t, k, n):
        d = self.er(discr(t))
        f = self.facts.assume(le(ZERO, d))
        f = f and f.assume(le(d, I(n - 1)))
        if f is None:
            raise GiveUp("infeasible")
        self.facts = f
        return self.br(eqi(d, I(k)))


class Kit:
    """builds the terms specifications talk about"""

    def __init__(self, prog):
        self.p = prog

    def adt(self, path):
        t = self.p.adt(path)
        if t is None:
            raise GiveUp("type %s not found" % path)
        return t

    def adt_of(self, t):
        """the enum or struct a term is of, as far as its type is known"""
        if isinstance(t.ty, int) and not isinstance(t.ty, bool):
            x = self.p.types[self.p.strip(t.ty)]
            if x["k"] == "adt":
                return self.p.adt(x["path"])
        if t.op == "fld":
            a = self.p.adt(t.args[3])
            if a is not None:
                fs = a["variants"][t.args[1]]["fields"]
                x = self.p.types[self.p.strip(fs[t.args[2]][1])] if t.args[2] < len(fs) else None
                if x and x["k"] == "adt":
                    return self.p.adt(x["path"])
        return None

    def dom(self, a):
        """bounds of an atom known from its type"""
        if a.op == "discr":
            x = self.adt_of(a.args[0])
            if x:
                return 0, len(x["variants"]) - 1
        return None

    def vix(self, path, variant):
        for i, v in enumerate(self.adt(path)["variants"]):
            if v["name"] == variant:
                return i
        raise GiveUp("no variant %s in %s" % (variant, path))

    def f(self, t, path, field, variant=None):
        """field of a struct or enum variant"""
        a = self.adt(path)
        vi = 0 if variant is None else self.vix(path, variant)
        fs = a["variants"][vi]["fields"]
        for i, x in enumerate(fs):
            if x[0] == field or i == field:
                return fld(t, vi, i, path, len(fs), ty=self.p.tag(x[1]))
        raise GiveUp("no field %s in %s" % (field, path))

    def new(self, path, variant=None, *fields, **kw):
        a = self.adt(path)
        vi = 0 if variant is None else self.vix(path, variant)
        if kw:
            fs = [kw.get(x[0]) for x in a["variants"][vi]["fields"]]
        else:
            fs = list(fields)
        return agg(path, vi, fs)

    def upd(self, t, path, **kw):
        """struct t with some fields replaced"""
        fs = self.adt(path)["variants"][0]["fields"]
        return agg(path, 0, [kw[x[0]] if x[0] in kw else self.f(t, path, i) for i, x in enumerate(fs)])

    def tupf(self, t, i, n, ty=None):
        return fld(t, 0, i, "tuple", n, ty=ty)

    def okv(self, t, ty=None):
        return fld(t, 0, 0, "std::result::Result", 1, ty=ty)

    def errv(self, t, ty=None):
        return fld(t, 1, 0, "std::result::Result", 1, ty=ty)

    def somev(self, t, ty=None):
        return fld(t, 1, 0, "std::option::Option", 1, ty=ty)

    def ok(self, x):
        return agg("std::result::Result", 0, [x])

    def err(self, x):
        return agg("std::result::Result", 1, [x])

    def some(self, x):
        return agg("std::option::Option", 1, [x])

    NONE = agg("std::option::Option", 0, [])


def ret(v, tag=None):
    return ("ret", (v,), tag)


class Spec:
    """steps: location -> function(mach, *vars) -> (location, vars[, tag]) """

    def __init__(self, name, steps, start="start"):
        self.name, self.steps, self.start = name, steps, start


# ------------------------------------------------------------------ erasing
class Eraser:
    """forgets fields of structs a property does not speak about"""

    def __init__(self, fields, descr=None):
        self.fields = fields  # {path: set(index)}
        self.memo = {}
        self.dot = mk("sym", "•")
        self.hook = descr

    def __call__(self, t):
        if t is None:
            return None
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.go(t)
        self.memo[t] = r
        return r

    def go(self, t):
        if self.hook:
            h = self.hook(self, t)
            if h is not None:
                return h
        if t.op == "fld":
            if t.args[2] in self.fields.get(t.args[3], ()):
                return self.dot
        if t.op == "agg" and t.args[0] in self.fields:
            er = self.fields[t.args[0]]
            fs = [self.dot if i in er else (None if x is None else self(x)) for i, x in enumerate(t.args[2])]
            base = None
            n = len(fs)
            for i, x in enumerate(fs):
                if i in er:
                    continue
                if x is None or x.op != "fld" or x.args[2] != i or x.args[1] != t.args[1] or x.args[3] != t.args[0]:
                    base = None
                    break
                if base is None:
                    base = x.args[0]
                elif base is not x.args[0]:
                    base = None
                    break
            else:
                if base is not None:
                    return base
            return agg(t.args[0], t.args[1], fs, ty=t.ty)
        r = rebuild(t, self)
        if r.op in ("fld", "nth", "drop") and r.args[0] is DOT:
            return DOT
        return r


DOT = mk("sym", "•")


def erased(t, er):
    """does the condition compare something forgotten?"""
    if t.op in ("not", "and"):
        return any(erased(x, er) for x in t.args)
    if t.op in ("le0", "eq0"):
        return erased(t.args[0], er)
    if t.op == "int" or t.op == "bool":
        return False
    if t.op == "lin":
        return any(erased(a, er) for a, _ in lin_parts(t)[1])
    if er(t) is DOT:
        return True
    if t.op in ("discr", "len", "blen", "chlen", "nth", "drop", "eq", "app"):
        return any(erased(a, er) for a in t.args if isinstance(a, T)) if t.op != "app" or not t.args[0].startswith("fn:") else False
    return False


def map_facts(f, er):
    r = Facts()
    for form, (lo, hi) in f.bnd.items():
        o = lin(0, list(form))
        t = er(o)
        if t.op == "int" or erased(o, er):
            continue
        if lo != -INF:
            r = r.assume(le(I(int(lo)), t)) or r
        if hi != INF:
            r = r.assume(le(t, I(int(hi)))) or r
    for form, s in f.ne.items():
        o = lin(0, list(form))
        t = er(o)
        if t.op == "int" or erased(o, er):
            continue
        for x in s:
            r = r.assume(eqi(t, I(x)), False) or r
    for b, v in f.boo.items():
        t = er(b)
        if not erased(b, er):
            r = r.assume(t, v) or r
    return r


class VEdge:
    __slots__ = ("kind", "target", "guards", "binds", "value", "cells", "facts", "where", "msg", "src")


class View:
    """a transition system seen through an eraser"""

    fresh = 0

    def __init__(self, graph, er=None):
        self.fn = graph.fn
        self.params = graph.params
        self.stuck = graph.stuck
        e = er or (lambda t: t)
        self.er = e

        def conv(x):
            v = VEdge()
            v.kind, v.target, v.where, v.msg, v.src = x.kind, x.target, x.where, x.msg, x.src
            # a condition on something erased says nothing: there is one • for all
            v.guards = tuple((e(c), b) for c, b in x.guards if not er or not erased(c, er))
            v.binds = {p: e(t) for p, t in (x.binds or {}).items()}
            v.value = e(x.value) if x.value is not None else None
            v.cells = {c: e(t) if t is not None else None for c, t in x.cells.items() if isinstance(c, str)}
            v.facts = map_facts(x.facts, e) if er else x.facts
            return v

        self.edges = {"entry": [conv(x) for x in graph.entry]}
        self.line = {}
        for u, h in graph.heads.items():
            self.edges[u] = [conv(x) for x in h.edges]
            self.line[u] = (h.fn, h.line)


    # ------------------------------------------------------- copying loops
    def accelerate(self):
        """Loops that only copy a sequence element by element become one step:
        a self edge `0 < len r: acc := acc ++ [r[0]], r := r[1..]` of a head all
        of whose other edges need r empty is left out, and the head holds
        acc ++ r in place of the two."""
        while True:
            self.contract()
            for u in list(self.line):
                if self.copying(u):
                    break
            else:
                return self

    def contract(self):
        for u in list(self.line):
            es = self.edges[u]
            if len(es) != 1 or es[0].guards or es[0].kind != "head" or es[0].target == u:
                continue
            o = es[0]
            if any(p.args[0] == u for n, es2 in self.edges.items() if n != u for e in es2 for p in self.phis_read(e)):
                continue
            for es2 in self.edges.values():
                for e in es2:
                    if e.kind == "head" and e.target == u:
                        e.target = o.target
                        e.binds = {p: subst(t, e.binds) for p, t in o.binds.items()}
                        e.cells = {c: subst(t, e.binds) if t is not None else None for c, t in o.cells.items()}
            del self.edges[u], self.line[u]

    def phis_read(self, e):
        out = set()
        for t in [e.value] + list(e.cells.values()) + [c for c, _ in e.guards] + list(e.binds.values()):
            if t is not None:
                out |= set(phis(t))
        return out

    def copying(self, u):
        es = self.edges[u]
        for e in es:
            if e.kind != "head" or e.target != u or len(e.guards) != 1:
                continue
            for a, t in e.binds.items():
                ps = parts_of(t)
                if len(ps) != 2 or ps[0] != ("S", a) or ps[1][0] != "E" or ps[1][1].op != "nth":
                    continue
                v, i = ps[1][1].args[:2]
                r = sdrop(v, i)
                some = lt(ZERO, slen(r))
                f = Facts().assume(*e.guards[0])
                if f is None or f.eval(some) is not True:
                    continue
                if a in walk(r) or subst(r, e.binds) is not sdrop(r, I(1)):
                    continue
                mine = {p for p in e.binds if p is not a and e.binds[p] is not p}
                if not all(any(x is p for x in walk(r)) for p in mine):
                    continue
                others = [o for o in es if o is not e]
                if any(o.facts.eval(some) is not False for o in others):
                    continue
                self.copied(u, e, others, a, r, v, i)
                return True
        return False

    def copied(self, u, e, others, a, r, v, i):
        w = mk("phi", u, "w%d" % self.fresh, ty=a.ty)
        View.fresh += 1
        sub = {a: w}
        if r is v:
            sub[v] = EMPTY
        elif i in e.binds:
            sub[i] = slen(v)
        else:
            sub[r] = EMPTY
        new = lambda t: None if t is None else subst(t, sub)
        kept = lambda t: None if t is None else rejoin(t)
        for o in [x for n, xs in self.edges.items() for x in (others if n == u else xs)]:
            gs = []
            for c, b in o.guards:
                x = new(c)
                if not (x.op == "bool"):
                    gs.append((x, b))
            o.guards = tuple(gs)
            o.facts = map_facts(o.facts, new)
            o.binds = {p: new(t) for p, t in o.binds.items()}
            o.value = new(o.value)
            o.cells = {c: new(t) for c, t in o.cells.items()}
        self.edges[u] = others
        for es in self.edges.values():
            for o in es:
                if o.kind == "head" and o.target == u:
                    o.binds[w] = kept(concat(subst(a, o.binds), subst(r, o.binds)))
        # what nothing reads any more is forgotten
        while True:
            used = set()
            for es in self.edges.values():
                for o in es:
                    for t in [o.value] + list(o.cells.values()) + [c for c, _ in o.guards]:
                        if t is not None:
                            used |= set(phis(t))
                    for p, t in o.binds.items():
                        used |= {x for x in phis(t) if not (o.target == u and x is p)}
            dead = {p for es in self.edges.values() for o in es if o.target == u for p in o.binds} - used
            if not dead:
                break
            for es in self.edges.values():
                for o in es:
                    if o.target == u:
                        for p in dead:
                            o.binds.pop(p, None)


def rejoin(t):
    """[v[0]] ++ v[1..] is v"""
    ps = list(parts_of(t))
    for k in range(len(ps) - 1, 0, -1):
        (ka, x), (kb, y) = ps[k - 1], ps[k]
        if ka == "E" and kb == "S" and x.op == "nth" and sdrop(sdrop(x.args[0], x.args[1]), I(1)) is y:
            ps[k - 1 : k + 1] = [("S", sdrop(x.args[0], x.args[1]))]
    return seq(ps)


class Mismatch:
    def __init__(self, path, impl, spec, edge, tag, facts, definite):
        self.path, self.impl, self.spec, self.edge, self.tag = path, impl, spec, edge, tag
        self.facts, self.definite = facts, definite
        self.top = (None, None)

    def key(self):
        return (self.path, self.impl, self.spec, self.edge.where[-1:] if self.edge else None)


class Refine:
    def __init__(self, kit, view, spec, args, final=None, er=None, max_pairs=400, fuel=60, opaque_ok=(), canon=None):
        """args: variables of the start location; final(edge) -> value compared
        with what the specification returns"""
        self.kit, self.v, self.spec, self.args = kit, view, spec, args
        self.final = final or (lambda e: e.value)
        self.canon = canon or (lambda t, f: t)
        self.er = er or view.er
        self.R = {}
        self.obl = 0
        self.mis = []
        self.notes = []
        self.pairs = 0
        self.max_pairs = max_pairs
        self.fuel = fuel
        self.tags = {}
        self.opaque_ok = opaque_ok
        self.whole = False
        self.poss = {}
        self.met = {}
        self.inside = set()
        self.kept = {}
        self.loose = False
        self.first = {}
        self.parted = {}
        self.now = (None, None)
        self.switch = {}

    # ------------------------------------------------------------- the spec
    def step(self, loc, vs, facts, force, pre=()):
        trail = ()
        if isinstance(loc, tuple):
            loc, trail = loc
        m = Mach(self.kit, facts, force, pre, trail, self.er)
        try:
            r = self.spec.steps[loc](m, *vs)
        except Block:
            m.stop = (loc, tuple(m.seen)) if m.seen else loc
            raise Block(m)
        loc2, vs2 = r[0], tuple(self.er(x) for x in r[1])
        tag = r[2] if len(r) > 2 else None
        return loc2, vs2, tag, m

    def eager(self, loc, vs, tag, facts):
        for _ in range(self.fuel):
            if loc == "ret":
                break
            try:
                loc2, vs2, tag2, m = self.step(loc, vs, facts, False)
            except Block as x:
                m = x.args[0]
                return m.stop, tuple(self.canon(x, m.facts) for x in vs), tag, m.facts
            facts = m.facts
            loc, vs = loc2, vs2
            tag = tag2 or tag
        return loc, tuple(self.canon(x, facts) for x in vs), tag, facts

    def forced(self, loc, vs, tag, facts):
        """all ways the specification can end"""
        out = []
        work = [(loc, vs, tag, facts, 0, False)]
        while work:
            loc, vs, tag, facts, n, fr = work.pop()
            if loc == "ret":
                out.append((vs[0], tag, facts, fr))
                continue
            if n > 12 or len(out) > 200:
                out.append((None, tag, facts, fr))
                continue
            todo = [()]
            while todo:
                pre = todo.pop()
                try:
                    l2, v2, t2, m = self.step(loc, vs, facts, True, pre)
                except GiveUp as x:
                    if str(x) == "infeasible":
                        continue
                    raise
                for k in m.open:
                    todo.append(tuple(m.taken[:k]) + (False,))
                work.append((l2, v2, t2 or tag, m.facts, n + 1, fr or m.listish))
        return out

    # ------------------------------------------------------------ relations
    def shape(self, v):
        if v.op == "bool":
            return v.args[0]
        if v.op == "agg" and self.kit.p.is_enum(v.args[0]):
            return v.args[1]
        if v.op == "agg" and v.args[0] == "tuple":
            return tuple(self.shape(x) for x in v.args[2])
        return "."

    def generalise(self, uid, vals, maps):
        """a term t over the head's symbols with t[maps[i]] == vals[i] for all i,
        with unknowns where there is none"""
        phi = list(maps[0])
        memo = {}

        def own(t):
            return any(p.args[0] == uid for p in phis(t))

        def g(vs):
            vs = tuple(vs)
            r = memo.get(vs)
            if r is None:
                r = memo[vs] = g1(vs)
            return r

        def g1(vs):
            v0 = vs[0]
            for p in phi:
                if all(m[p] is v for m, v in zip(maps, vs)):
                    return p
            if all(v is v0 for v in vs) and not own(v0):
                return v0
            ops = set(v.op for v in vs)
            if ops & {"int", "lin"} or (len(ops) > 1 and ops <= {"int", "lin", "phi", "len", "nth", "fld", "sym", "blen"}):
                for p in phi:
                    if p.ty not in ("uint", "int", None, "char"):
                        continue
                    ds = [sub(v, m[p]) for v, m in zip(vs, maps)]
                    if all(d is ds[0] for d in ds) and not own(ds[0]):
                        return add(p, ds[0])
                    ds = [add(v, m[p]) for v, m in zip(vs, maps)]
                    if all(d is ds[0] for d in ds) and not own(ds[0]):
                        return sub(ds[0], p)
                return ghost()
            if "agg" in ops:
                x = next(v for v in vs if v.op == "agg")
                k = len(x.args[2])
                cols = []
                for v in vs:
                    if v.op == "agg":
                        if v.args[:2] != x.args[:2] or len(v.args[2]) != k:
                            return ghost()
                        cols.append(v.args[2])
                    elif not self.kit.p.is_enum(x.args[0]) and v.op in ("sym", "fld", "nth", "phi", "app"):
                        cols.append([fld(v, x.args[1], i, x.args[0], k) for i in range(k)])
                    else:
                        return ghost()
                out = []
                for c in zip(*cols):
                    out.append(None if any(y is None for y in c) else g(c))
                return agg(x.args[0], x.args[1], out, ty=x.ty)
            bo = [base_off(v) for v in vs]
            if "drop" in ops and all(q[0] is bo[0][0] for q in bo):
                return sdrop(bo[0][0], g([q[1] for q in bo]))
            # a sequence around one of the head's own
            if "seq" in ops:
                r = gseq(vs)
                if r is not None:
                    return r
            if len(ops) > 1:
                return ghost()
            if v0.op in ("nth", "take") and all(v.args[0] is v0.args[0] for v in vs):
                i = g([v.args[1] for v in vs])
                return nth(v0.args[0], i, ty=v0.ty) if v0.op == "nth" else stake(v0.args[0], i)
            if v0.op == "app" and all(v.args[0] == v0.args[0] and len(v.args) == len(v0.args) for v in vs):
                out = []
                for c in zip(*[v.args[1:] for v in vs]):
                    out.append(g(c) if isinstance(c[0], T) else c[0])
                return mk("app", v0.args[0], *out, ty=v0.ty)
            if v0.op == "fld" and all(v.args[1:] == v0.args[1:] for v in vs):
                return fld(g([v.args[0] for v in vs]), *v0.args[1:], ty=v0.ty)
            if v0.op in ("len", "blen", "discr", "not", "le0", "eq0", "nth"):
                r = [g(c) for c in zip(*[v.args for v in vs])]
                if not any(vague(x) for x in r):
                    return rebuild(mk(v0.op, *v0.args), lambda x, it=iter(r): next(it))
            if v0.op == "seq" and all(
                len(v.args[0]) == len(v0.args[0]) and all(a[0] == b[0] for a, b in zip(v.args[0], v0.args[0])) for v in vs
            ):
                ps = []
                for c in zip(*[v.args[0] for v in vs]):
                    k = c[0][0]
                    if k == "L":
                        if any(x[1] != c[0][1] for x in c):
                            return ghost()
                        ps.append(c[0])
                    else:
                        ps.append((k, g([x[1] for x in c])))
                return seq(ps)
            return ghost()

        def gseq(vs):
            pv = [parts_of(v) for v in vs]
            for p in phi:
                mv = [m[p] for m in maps]
                if any(x.op in ("int", "lin", "agg", "bool") for x in mv):
                    continue
                mp = [parts_of(x) for x in mv]
                # vs = pre ++ p ++ post with the same pre and post everywhere
                n0 = len(pv[0]) - len(mp[0])
                for i in range(0, n0 + 1):
                    pre, post = pv[0][:i], pv[0][i + len(mp[0]) :]
                    ok = True
                    for v, m in zip(pv, mp):
                        if tuple(v) != tuple(pre) + tuple(m) + tuple(post):
                            ok = False
                            break
                    if ok and not any(own(x) for k, x in tuple(pre) + tuple(post) if k != "L"):
                        return seq(list(pre) + [("S", p)] + list(post))
            return None

        return g(vals)

    def fits(self, kk, i, n, uid):
        if self.switch.get((kk, i), 0) > 3 or any(p.args[0] == uid for p in phis(n)):
            return False
        ps = phis(n)
        for b, v in self.kept.get(kk, ()):
            if not ps <= set(b) or subst(n, b) is not v[i]:
                return False
        return True

    # ----------------------------------------------------------------- walk
    def sample(self):
        """a few unrolled walks, to guess what the variables are at loop heads"""
        start = tuple(self.er(x) for x in self.args)
        self.samples = {}
        self.peeled = 0
        self.met = {}
        self.inside = set()
        self.tied = set()
        self.unroll([("entry", {}, None, self.spec.start, start, None, 0, ())], self.samples)

    def unroll(self, work, samples, maxdepth=6, at=(None, None)):
        """follows the code and the specification through some iterations and
        compares where the code returns"""
        expanded = {}
        guess = {}
        n = 0
        complete = work[0][0] == "entry"
        while work and n < 4000:
            node, sg, fx, loc, vs, tag, depth, trace = work.pop(0)
            for e in self.v.edges[node]:
                if e.kind not in ("head", "ret"):
                    continue
                n += 1
                if fx is None:
                    f = e.facts
                    b = e.binds
                    if depth == 0 and node != "entry":
                        e = self.special(e, at[1])
                        f = e and self.holds(e.facts, at[0])
                        if f is None:
                            continue
                        b = e.binds
                else:
                    f = fx
                    for c, v in e.guards:
                        f = f.assume(subst(c, sg), v)
                        if f is None:
                            break
                    if f is None:
                        continue
                    b = {p: subst(t, sg) for p, t in e.binds.items()}
                if e.kind == "ret":
                    if depth:
                        ce = VEdge()
                        ce.kind, ce.where, ce.src, ce.facts = "ret", e.where, e.src, f
                        ce.target = ce.msg = None
                        ce.guards = trace + tuple((subst(c, sg), v) for c, v in e.guards)
                        ce.value = subst(e.value, sg)
                        ce.cells = {c: subst(t, sg) if t is not None else None for c, t in e.cells.items()}
                        ce.binds = {}
                        f, ix = self.settle(f)
                        if ix:
                            ce.facts = f
                            ce.value = ix(ce.value)
                            vs = tuple(ix(x) for x in vs)
                        try:
                            l2, v2, t2, f2 = self.eager(loc, vs, tag, f)
                            outs = self.forced(l2, v2, t2, f2)
                        except GiveUp:
                            continue
                        iv = self.final(ce)
                        for sv, t3, f3, fr in outs:
                            self.peeled += 1
                            if sv is not None:
                                self.now = (iv, sv)
                                self.loose = fr and not complete
                                self.whole = complete
                                self.compare(self.canon(iv, f3), self.canon(sv, f3), (), ce, t3, f3)
                                self.loose = self.whole = False
                    continue
                try:
                    l2, v2, t2, f2 = self.eager(loc, vs, tag, f)
                except GiveUp:
                    continue
                kk = (e.target, l2, tuple(self.shape(x) for x in v2))
                sm = samples.setdefault(kk, [])
                full = dict(sg)
                full.update(b)
                # own symbols first, then those of the loops around
                mp = dict(b)
                for p, t in sg.items():
                    mp.setdefault(p, t)
                if len(sm) < 8:
                    sm.append((mp, v2, t2))
                x = expanded.setdefault(kk, 0)
                odd = False
                if x >= 3 and depth < maxdepth:
                    # an arrival unlike the first ones may be where the two part
                    y = expanded.setdefault((kk, "odd"), 0)
                    if y < 12:
                        gen = guess.get(kk)
                        if gen is None:
                            ss = [q for q in sm[:3] if set(q[0]) >= set(b)]
                            cm = set.intersection(*[set(q[0]) for q in ss]) if ss else set()
                            ss = [({p: q[0][p] for p in q[0] if p in cm}, q[1]) for q in ss]
                            gen = guess[kk] = (
                                [self.generalise(e.target, [q[1][i] for q in ss], [q[0] for q in ss]) for i in range(len(v2))] if ss else []
                            )
                        odd = any(subst(o, mp) is not n_ for o, n_ in zip(gen, v2))
                        if odd:
                            expanded[(kk, "odd")] = y + 1
                if (x < 3 or odd) and depth < maxdepth:
                    expanded[kk] = x + 1
                    gs = trace + tuple((subst(c, sg), v) for c, v in e.guards)
                    work.append((e.target, full, f2, l2, v2, t2, depth + 1, gs))

    def settle(self, f):
        """facts with elements at an index known on this path named by it"""
        mp = {}

        def note(t):
            for x in walk(t):
                if x.op == "nth" and x.args[1].op != "int" and x not in mp:
                    v = f.val(x.args[1])
                    if v is not None and v >= 0:
                        mp[x] = nth(x.args[0], I(int(v)), ty=x.ty)

        for form in list(f.bnd) + list(f.ne):
            for a, _ in form:
                note(a)
        for b in f.boo:
            note(b)
        if not mp:
            return f, None
        memo = {}

        def ix(t):
            if t is None:
                return None
            r = mp.get(t) or memo.get(t)
            if r is None:
                r = memo[t] = rebuild(t, ix)
            return r

        return map_facts(f, ix), ix

    def diverge(self, kk, e, l2, v2, tag, facts):
        """the relation guessed for a head fails on this arrival: follow it to
        the returns, what it leads to there is what counts"""
        n = self.parted.setdefault(kk, set())
        k = (e.where, e.src)
        if k in n or len(n) >= 8:
            return
        n.add(k)
        self.tied = set().union(*[phis(x) for x in self.src_rel]) if self.src_rel else set()
        self.unroll([(e.target, dict(e.binds), facts, l2, v2, tag, 1, tuple(e.guards))], {}, 3)

    # --------------------------------- what is known at a head besides
    def holds(self, facts, inv):
        """facts, and that the symbols of inv are not empty or not below"""
        for p in inv or ():
            if isinstance(p, tuple):
                facts = facts.assume(le(I(p[1]), p[0]))
                if facts is None:
                    return None
                continue
            for n in (slen(p), blen(p)):
                facts = facts.assume(le(I(1), n))
                if facts is None:
                    return None
        return facts

    def nonempty(self, t, facts, inv):
        for k, x in parts_of(t):
            if k != "S" or x in (inv or ()):
                return True
            for n in (slen(x), blen(x)):
                if facts.eval(le(I(1), n)) is True:
                    return True
        return False

    def inductive(self, arrivals):
        """of the heads, with the specification at its location: symbols that
        are never empty, and symbols that always have the same value"""
        inv, con = {}, {}
        for k, kk, e in arrivals:
            ps = {p for p, t in e.binds.items() if t.op in ("seq", "phi", "sym", "app", "fld")}
            ps |= {(p, 1) for p, t in e.binds.items() if p.ty == "uint" or t.op in ("int", "lin")}
            inv[kk] = inv[kk] & ps if kk in inv else ps
        seen = {}
        for k, kk, e in arrivals:
            here = con.setdefault(kk, {})
            first = kk not in seen
            seen[kk] = True
            for p, t in e.binds.items():
                if phis(t) or has_ghost(t):
                    continue
                if first:
                    here[p] = t
        change = True
        while change:
            change = False
            for k, kk, e in arrivals:
                e = self.special(e, con.get(k))
                f = e and self.holds(e.facts, inv.get(k))
                if f is None:
                    continue
                bad = {p for p in inv[kk] if not isinstance(p, tuple) and not self.nonempty(e.binds[p], f, inv.get(k))}
                bad |= {p for p in inv[kk] if isinstance(p, tuple) and f.eval(le(I(p[1]), e.binds[p[0]])) is not True}
                if bad:
                    inv[kk] = inv[kk] - bad
                    change = True
                bad = {p for p, t in con[kk].items() if e.binds.get(p) is not t}
                if bad:
                    con[kk] = {p: t for p, t in con[kk].items() if p not in bad}
                    change = True
        return {k: v for k, v in inv.items() if v}, {k: v for k, v in con.items() if v}

    def special(self, e, con):
        """the edge where some symbols have known values, None if it cannot
        be taken then"""
        if not con:
            return e
        f = lambda t: subst(t, con)
        v = VEdge()
        v.kind, v.target, v.where, v.msg, v.src = e.kind, e.target, e.where, e.msg, e.src
        for b, x in e.facts.boo.items():
            b = f(b)
            if b.op == "bool" and b.args[0] != x:
                return None
        gs = []
        fs = map_facts(e.facts, f)
        for c, b in e.guards:
            c = f(c)
            if c.op == "bool":
                if c.args[0] != b:
                    return None
                continue
            gs.append((c, b))
            fs = fs.assume(c, b)
            if fs is None:
                return None
        v.guards = tuple(gs)
        v.binds = {p: f(t) for p, t in e.binds.items()}
        v.value = f(e.value) if e.value is not None else None
        v.cells = {c: f(t) if t is not None else None for c, t in e.cells.items()}
        v.facts = fs
        return v

    def run(self):
        self.inv, self.con = {}, {}
        self.run1()
        if self.mis or self.notes:
            inv, con = self.inductive(self.arrivals)
            if inv or con:
                r = Refine(self.kit, self.v, self.spec, self.args, self.final, self.er, self.max_pairs, self.fuel, self.opaque_ok, self.canon)
                r.inv, r.con = inv, con
                r.run1()
                inv2, con2 = r.inductive(r.arrivals)
                ok = True
                for k in {a[1] for a in r.arrivals}:
                    ok = ok and inv.get(k, set()) <= inv2.get(k, set())
                    ok = ok and all(con2.get(k, {}).get(p) is t for p, t in con.get(k, {}).items())
                if ok:
                    self.__dict__.update(r.__dict__)
        return self

    def run1(self):
        self.arrivals = []
        work = []
        start = tuple(self.er(x) for x in self.args)
        k0 = ("entry", self.spec.start, ())
        self.R[k0] = (start, None)
        self.sample()
        work.append(k0)
        rounds = {}
        results = {}
        while work:
            k = work.pop(0)
            rounds[k] = rounds.get(k, 0) + 1
            if rounds[k] > 30 or len(self.R) > self.max_pairs:
                self.notes.append("comparison with %s does not stabilise" % self.spec.name)
                return self
            node, loc, _ = k
            vs, tag = self.R[k]
            res = []
            for e in self.v.edges[node]:
                if e.kind in ("panic", "stuck"):
                    if e.kind == "stuck":
                        self.notes.append("not analysed: %s" % e.msg)
                    continue
                e0 = e
                e = self.special(e, self.con.get(k))
                f0 = e and self.holds(e.facts, self.inv.get(k))
                if f0 is None:
                    continue
                try:
                    con = self.con.get(k)
                    l2, v2, t2, facts = self.eager(loc, tuple(subst(x, con) for x in vs) if con else vs, tag, f0)
                except GiveUp as x:
                    if str(x) != "infeasible":
                        self.notes.append(str(x))
                    continue
                if e.kind == "head":
                    sh = tuple(self.shape(x) for x in v2)
                    kk = (e.target, l2, sh)
                    self.arrivals.append((k, kk, e0))
                    old = self.R.get(kk)
                    idm = {p: p for p in e.binds}
                    if old is None:
                        sm = self.samples.get(kk) or []
                        sm = [(b, v) for b, v, _ in sm if set(e.binds) <= set(b)]
                        if not sm:
                            sm = [(e.binds, v2)]
                        common = set.intersection(*[set(b) for b, _ in sm])
                        sm = [({p: t for p, t in b.items() if p in common}, v) for b, v in sm]
                        self.kept[kk] = sm
                        nv = tuple(self.generalise(e.target, [v[i] for _, v in sm], [b for b, _ in sm]) for i in range(len(v2)))
                        old = self.R[kk] = (nv, t2)
                        self.first[kk] = (nv, t2)
                        work.append(kk)
                    nv = []
                    if not any(has_ghost(x) for x in vs + old[0]) and any(self.canon(subst(o, e.binds), facts) is not n for o, n in zip(old[0], v2)):
                        self.src_rel = vs
                        self.diverge(kk, e, l2, v2, t2, facts)
                    for i, (o, n) in enumerate(zip(old[0], v2)):
                        if self.canon(subst(o, e.binds), facts) is n:
                            nv.append(o)
                        elif self.fits(kk, i, n, e.target):
                            # the samples did not tell two symbols of the
                            # loops around apart
                            self.switch[(kk, i)] = self.switch.get((kk, i), 0) + 1
                            nv.append(n)
                        else:
                            nv.append(self.generalise(e.target, [o, n], [idm, e.binds]))
                    nv = tuple(nv)
                    if nv != old[0] and [deghost(x) for x in nv] != [deghost(x) for x in old[0]]:
                        self.R[kk] = (nv, t2 or old[1])
                        if kk not in work:
                            work.append(kk)
                else:
                    res.append((e, l2, v2, t2, facts))
            results[k] = res
        for k, res in results.items():
            self.tied = set().union(*[phis(x) for x in self.R[k][0]])
            for e, l2, v2, t2, facts in res:
                try:
                    outs = self.forced(l2, v2, t2, facts)
                except GiveUp as x:
                    self.notes.append(str(x))
                    continue
                iv = self.final(e)
                for sv, tag, f, fr in outs:
                    self.obl += 1
                    if tag:
                        self.tags[tag] = self.tags.get(tag, 0) + 1
                    if sv is None:
                        self.notes.append("specification %s runs on where the code returns" % self.spec.name)
                        continue
                    self.now = (iv, sv)
                    # the specification had to guess about elements of a list:
                    # the code may have gone through it in another way
                    self.loose = fr and k[0] != "entry"
                    self.whole = k[0] == "entry"
                    self.compare(self.canon(iv, f), self.canon(sv, f), (), e, tag, f)
                    self.loose = self.whole = False
        # relations that did not last: a few more iterations from where they held
        for k, (vs, tag) in self.first.items():
            if not any(has_ghost(x) for x in vs) and any(has_ghost(x) for x in self.R[k][0]):
                self.tied = set().union(*[phis(x) for x in vs])
                con = self.con.get(k)
                if con:
                    vs = tuple(subst(x, con) for x in vs)
                self.unroll([(k[0], {}, None, k[1], vs, tag, 0, ())], {}, 4, (self.inv.get(k), con))
        self.pairs = len(self.R)
        return self

    # -------------------------------------------------------------- compare
    def compare(self, a, b, path, e, tag, f):
        if a is b:
            return
        if a is None or b is None:
            self.miss(path, a, b, e, tag, f)
            return
        if b.op == "sym" and b.args[0] in ("•", "*") or a.op == "sym" and a.args[0] == "•":
            return
        if a.op == "agg" and b.op == "agg":
            if a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
                for i, (x, y) in enumerate(zip(a.args[2], b.args[2])):
                    self.compare(x, y, path + ((a.args[0], a.args[1], i),), e, tag, f)
                return
            self.miss(path, a, b, e, tag, f, shape=a.args[0] == b.args[0] and a.args[1] != b.args[1])
            return
        if a.op == "agg" or b.op == "agg":
            x, y = (a, b) if a.op == "agg" else (b, a)
            enum = self.kit.p.is_enum(x.args[0])
            k = len(x.args[2])
            if y.op in ("sym", "fld", "nth", "phi", "app"):
                same = (not enum) or f.val(discr(y)) == discr(x).args[0]
                if enum and f.val(discr(y)) is None:
                    dd = f.eval(eqi(discr(y), discr(x)))
                    if dd is None:
                        self.miss(path, a, b, e, tag, f, definite=not vague(y))
                        return
                if same:
                    ex = [fld(y, x.args[1], i, x.args[0], k) for i in range(k)]
                    for i, (p, q) in enumerate(zip(x.args[2], ex)):
                        if x is a:
                            self.compare(p, q, path + ((x.args[0], x.args[1], i),), e, tag, f)
                        else:
                            self.compare(q, p, path + ((x.args[0], x.args[1], i),), e, tag, f)
                    return
            self.miss(path, a, b, e, tag, f)
            return
        num = ("int", "lin")
        if a.op in num or b.op in num or is_calc(a) or is_calc(b):
            r = f.eval(eqi(a, b))
            if r is True:
                return
            if any(is_calc(x) for t in (a, b) for x in walk(t)):
                r = self.tried(a, b, e, f)
                if r is not None:
                    self.miss(path, a, b, e, tag, f, definite=r, shape=r)
                    return
            self.miss(path, a, b, e, tag, f)
            return
        if f.val(a) is not None and f.val(a) == f.val(b) and (a.ty in ("uint", "char", "int")):
            return
        if f.eval(eqs(a, b)) is True:
            return
        if a.op == b.op == "app" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            n = len(self.mis)
            for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
                if isinstance(x, T) and isinstance(y, T):
                    # the same two values, met again inside of the same part
                    k = next((j for j, c in enumerate(path) if c[1] == "arg"), len(path))
                    at = (x, y, path[:k], id(e), id(f))
                    if x is y or at in self.met:
                        continue
                    self.met[at] = (e, f)
                    self.compare(x, y, path + ((a.args[0], "arg", i),), e, tag, f)
                elif x != y:
                    self.miss(path, a, b, e, tag, f)
            return
        if a.op == b.op == "fld" and a.args[1:3] == b.args[1:3]:
            self.compare(a.args[0], b.args[0], path + (("of", a.args[3], a.args[2]),), e, tag, f)
            return
        if a.op == b.op == "nth":
            self.compare(a.args[0], b.args[0], path + (("of", "nth", 0),), e, tag, f)
            self.compare(a.args[1], b.args[1], path + (("of", "index", 0),), e, tag, f)
            return
        if a.op == b.op == "drop":
            self.compare(a.args[0], b.args[0], path + (("of", "drop", 0),), e, tag, f)
            self.compare(a.args[1], b.args[1], path + (("of", "offset", 0),), e, tag, f)
            return
        if a.op == "drop" or b.op == "drop":
            (ba, oa), (bb, ob) = base_off(a), base_off(b)
            if ba is bb:
                self.compare(oa, ob, path + (("of", "offset", 0),), e, tag, f)
                return
        if a.op == b.op == "seq" and len(a.args[0]) == len(b.args[0]) and all(x[0] == y[0] for x, y in zip(a.args[0], b.args[0])):
            for i, ((k, x), (_, y)) in enumerate(zip(a.args[0], b.args[0])):
                if k == "L":
                    if x != y:
                        self.miss(path, a, b, e, tag, f)
                        return
                else:
                    self.compare(x, y, path + (("seq", k, i),), e, tag, f)
            return
        if a.op == "seq" or b.op == "seq":
            pa, pb = self.spread(a, f), self.spread(b, f)
            if pa is not None and pb is not None:
                while pa and pb and pa[0] == pb[0]:
                    pa, pb = pa[1:], pb[1:]
                while pa and pb and pa[-1] == pb[-1]:
                    pa, pb = pa[:-1], pb[:-1]
                if len(pa) == len(pb) and all(x[0] == y[0] for x, y in zip(pa, pb)):
                    for i, ((k, x), (_, y)) in enumerate(zip(pa, pb)):
                        if k == "S" and not (x.op != "seq" and y.op != "seq"):
                            self.miss(path, a, b, e, tag, f)
                            return
                        self.compare(x, y, path + (("seq", k, i),), e, tag, f)
                    return
            # one of them has all parts of the other and more
            xs, ys = list(parts_of(a)), list(parts_of(b))
            for x in list(xs):
                if x in ys:
                    xs.remove(x)
                    ys.remove(x)
            if (not xs) != (not ys) and any(k != "S" for k, _ in xs + ys):
                self.miss(path, a, b, e, tag, f, shape=True)
                return
        # lists of a length known on this path
        la, lb = slen(a), slen(b)
        k = f.val(la)
        if k is not None and k == f.val(lb) and k <= 8 and (la is not lb or la.op == "int"):
            if k == 0:
                return
            if (not path or path[-1][0] != "elem") and (a, b) not in self.inside:
                self.inside.add((a, b))
                for i in range(k):
                    x, y = nth(a, I(i), ty=a.ty if False else None), nth(b, I(i))
                    self.compare(x, y, path + (("elem", "nth", i),), e, tag, f)
                self.inside.discard((a, b))
                return
        self.miss(path, a, b, e, tag, f)

    def tried(self, a, b, e, f):
        """two numbers computed with more than sums: are there numbers for what
        they are made of under which they differ?  None: not found out"""
        xs, cs = [], {0, 1, 2, 3, 7, 10}
        ts = [a, b] + [c for c, _ in e.guards if any(is_calc(x) for x in walk(c))]

        def atoms(t):
            if t.op == "int":
                cs.update(t.args[0] + d for d in (-1, 0, 1))
                cs.add(2 * t.args[0])
            elif t.op in ("lin", "le0", "eq0", "not", "and") or is_calc(t):
                for k in kids(t):
                    atoms(k)
            elif t not in xs:
                xs.append(t)

        for t in ts:
            atoms(t)
        xs = [x for x in xs if x.op not in ("bool",)]
        if not xs or len(xs) > 3 or any(x.op not in ("sym", "fld", "phi", "nth") or vague(x, self.opaque_ok) for x in xs):
            return None
        cs = sorted(c for c in cs if 0 <= c < 1 << 32)[:40]
        n = 0
        for vs in itertools.product(cs, repeat=len(xs)):
            n += 1
            if n > 4000:
                return None
            m = {x: I(v) for x, v in zip(xs, vs)}
            x, y = calc(a, m), calc(b, m)
            if x.op != "int" or y.op != "int" or x is y:
                continue
            if any(calc(c, m) is B(not v) for c, v in e.guards):
                continue
            g = f
            for k, v in m.items():
                g = g.assume(eqi(k, v))
                if g is None:
                    break
            if g is not None and feasible(g, self.kit.dom):
                return True
        return False

    def spread(self, t, f):
        """parts of a list, those of known length element by element"""
        r = []
        for k, x in parts_of(t):
            if k == "L":
                r += [("E", I(ord(c))) for c in x]
                continue
            if k == "E":
                r.append((k, x))
                continue
            n = f.val(slen(x))
            if n is not None and n <= 8:
                r += [("E", nth(x, I(i))) for i in range(n)]
            else:
                r.append((k, x))
        return r

    def miss(self, path, a, b, e, tag, f, definite=True, shape=False):
        # two variants differ whatever they hold
        if definite and not shape:
            definite = not (a is not None and vague(a, self.opaque_ok)) and not (b is not None and vague(b, self.opaque_ok))
        if definite and any(vague(c, self.opaque_ok) for c, _ in e.guards):
            definite = False
        if self.loose:
            definite = False
        if definite and not shape and a is not None and not phis(a) <= self.tied:
            # built up by a loop in a way not related to the specification:
            # only unrolled walks can show that it differs
            definite = False
        if not self.possible(f, e):
            return
        if a is not None and b is not None:
            m = placed((a, b), f)
            if m and subst(a, m) is subst(b, m):
                return
        self.mis.append(Mismatch(path, a, b, e, tag, f, definite))
        self.mis[-1].top = self.now
        # followed from the arguments to the end, nothing summed up
        self.mis[-1].whole = self.whole and not self.loose


    def possible(self, f, e):
        """can the path be taken at all?"""
        k = (id(f), e.where)
        r = self.poss.get(k)
        if r is None:
            r = self.poss[k] = (feasible(f, self.kit.dom), f)
        return r[0]


def deghost(t):
    memo = {}
    g = mk("atom", "ghost")

    def go(x):
        if is_ghost(x):
            return g
        r = memo.get(x)
        if r is None:
            r = memo[x] = rebuild(x, go)
        return r

    return go(t)


def graph_spec(name, view):
    """a transition system as a specification of another one: the
    specification and the variables of its start location"""
    live = {n: set() for n in view.edges}

    def reads(n, e):
        out = set()
        for t in [e.value] + [c for c, _ in e.guards]:
            if t is not None:
                out |= phis(t)
        if e.kind == "head":
            for p in live.get(e.target, ()):
                out |= phis(e.binds[p]) if p in e.binds else {p}
        return out

    change = True
    while change:
        change = False
        for n, es in view.edges.items():
            new = set().union(*[reads(n, e) for e in es]) if es else set()
            if not new <= live[n]:
                live[n] |= new
                change = True
    order = {n: tuple(view.params) + tuple(sorted(live[n], key=lambda x: x.id)) for n in view.edges}

    def stepper(node):
        syms = order[node]

        def go(m, *vs):
            sub_ = dict(zip(syms, vs))
            for e in view.edges[node]:
                if e.kind == "stuck":
                    continue
                if not all(m.br(subst(c, sub_)) == v for c, v in e.guards):
                    continue
                if e.kind == "panic":
                    raise GiveUp("infeasible")
                if e.kind == "ret":
                    return ret(subst(e.value, sub_), "%s" % (node,))
                return (e.target, tuple(subst(e.binds.get(p, p), sub_) for p in order[e.target]))
            raise GiveUp("infeasible")

        return go

    return Spec(name, {n: stepper(n) for n in view.edges}, "entry"), order["entry"]
