"""The operations on sets of rules, decided by probing the resulting map with
an arbitrary name: what it yields has to be the specified rule, for every
combination of the maps involved having the name or not."""
import itertools
from common import *
from parserspec import RULES
from refine import GiveUp, vague
import evalrules
from evalrules import no_kit

OPT = "std::option::Option"


class Unknown(Exception):
    pass


class Probe:
    """a name: equal to some key terms, present in some maps"""

    def __init__(self, same, has):
        self.same, self.has = same, has  # set of key terms equal to it; {map: bool}

    def eq(self, k):
        return k in self.same

    def look(self, m, loops):
        """outcomes of looking the name up in map term m: a set of
        ("of", map) | ("is", value) | None"""
        if m.op == "app":
            n = m.args[0]
            if n == "map:new":
                return {None}
            if n in ("map:insert", "map:insert_absent"):
                if self.eq(m.args[2]):
                    old = self.look(m.args[1], loops)
                    if n == "map:insert":
                        return {("is", m.args[3])}
                    return {o if o is not None else ("is", m.args[3]) for o in old}
                return self.look(m.args[1], loops)
            if n == "map:remove":
                return {None} if self.eq(m.args[2]) else self.look(m.args[1], loops)
            if n == "map:union":
                over = self.look(m.args[2], loops)
                r = set()
                for o in over:
                    r |= {o} if o is not None else self.look(m.args[1], loops)
                return r
            raise Unknown(n)
        if m.op == "phi":
            if m in loops:
                return loops[m](self)
            raise Unknown("loop")
        if m in self.has:
            return {("of", m)} if self.has[m] else {None}
        raise Unknown(str(m))


def sources(t):
    """maps the term is made of"""
    out = set()
    for x in walk(t):
        if x.op == "app" and x.args[0] in ("map:entries", "map:get"):
            out |= base(x.args[1])
    return out | base(t)


def base(t):
    if t.op == "app" and t.args[0].startswith("map:"):
        if t.args[0] == "map:new":
            return set()
        r = base(t.args[1])
        if t.args[0] == "map:union":
            r |= base(t.args[2])
        return r
    if t.op == "phi":
        return set()
    return {t}


def keys(t):
    return {x.args[2] for x in walk(t) if x.op == "app" and x.args[0] in ("map:insert", "map:insert_absent", "map:remove", "map:get")}


def cond(c, b, pr, loops):
    """does the guard hold for this probe?  None: it does not speak about it"""
    # is a name in a map?
    if c.op in ("eq0", "le0"):
        cc, ps = lin_parts(c.args[0])
        if len(ps) == 1:
            a, co = ps[0]
            if a.op == "discr" and a.args[0].op == "app" and a.args[0].args[0] == "map:get":
                g = a.args[0]
                if pr.eq(g.args[2]):
                    res = set()
                    for o in pr.look(g.args[1], loops):
                        v = co * (0 if o is None else 1) + cc
                        res.add((v == 0 if c.op == "eq0" else v <= 0) == b)
                    return True if res == {True} else False if res == {False} else None
            if a.op == "len" and a.args[0].op == "app" and a.args[0].args[0] == "map:entries" and a.args[0].args[1] in pr.has:
                # an empty map has no name
                empty = (c.op == "le0" and co == 1 and cc == 0 and b) or (c.op == "eq0" and cc == 0 and b)
                if empty and pr.has[a.args[0].args[1]]:
                    return False
    return None


def loop_of(g, h):
    """a loop over the entries of one map that builds another one"""
    head = g.heads[h]
    over = mvar = ivar = None
    for e in head.edges:
        if e.kind != "head" or e.target != h:
            continue
        for p, t in e.binds.items():
            if t.op == "app" and t.args[0].startswith("map:"):
                mvar = p
            elif t is add(p, I(1)):
                ivar = p
        for x in [y for t in e.binds.values() for y in walk(t)] + [y for c, _ in e.guards for y in walk(c)]:
            if x.op == "nth" and x.args[0].op == "app" and x.args[0].args[0] == "map:entries" and x.args[1] is ivar:
                over = x.args[0].args[1]
    return over, mvar, ivar


def map_function(ctx, rep, path, want, what):
    """want(graph) -> (maps, keys, outcome(probe)); compares lookups"""
    key = ctx.public(path)
    g = ctx.graph(key)
    for s in g.stuck[:5]:
        rep.undec("%s: not analysed: %s" % (path, s))
    kit = refine.Kit(ctx.prog)
    maps, ks, outcome = want(kit, g.params)

    def inner(v):
        return kit.f(v, RULES, 0)

    loops = {}
    inits = {}
    for u, h in g.heads.items():
        over, mvar, ivar = loop_of(g, u)
        if over is None or mvar is None:
            continue
        for x in g.edges():
            if x.kind == "head" and x.target == u and x not in h.edges:
                inits.setdefault(mvar, []).append((x.binds.get(mvar), x.binds.get(ivar)))
        loops[mvar] = (u, over, ivar)

    def run_loop(mvar):
        u, over, ivar = loops[mvar]
        i0 = inits.get(mvar, [])
        if len(i0) != 1 or i0[0][0] is None or i0[0][1] is not ZERO:
            raise Unknown("start of loop")
        m0 = i0[0][0]
        # reads every entry: the loop ends only at the end of the entries
        h = g.heads[u]
        left = False
        for e in h.edges:
            if not (e.kind == "head" and e.target == u) and e.facts.eval(lt(ivar, slen(app("map:entries", over)))) is not False:
                if e.kind != "ret" or any(vague(c) for c, _ in e.guards):
                    raise Unknown("way out of the loop")
                left = True

        def go(pr):
            before = pr.look(m0, {})
            if over not in pr.has:
                raise Unknown("map gone through")
            if not pr.has[over]:
                return before
            # left before the end: the entry may be one not reached
            out = set(before) if left else set()
            ent = nth(app("map:entries", over), ivar)
            kk = fld(ent, 0, 0, "tuple", 2)
            vv = fld(ent, 0, 1, "tuple", 2)
            for b in before:
                p2 = Probe(set(pr.same) | {kk}, dict(pr.has))
                lp = {mvar: lambda q, b=b: {b}}
                for e in h.edges:
                    if e.kind == "head" and e.target == u:
                        if e.binds.get(ivar) is not add(ivar, I(1)):
                            raise Unknown("step of loop")
                        ok = True
                        for c, v in e.guards:
                            r = cond(c, v, p2, lp)
                            if r is False:
                                ok = False
                            elif r is None and vague(c):
                                raise Unknown("condition in loop")
                        if ok:
                            for o in p2.look(e.binds[mvar], lp):
                                out.add(("of", over) if o == ("is", vv) else o)
                    elif e.kind == "head":
                        raise Unknown("nested loops")
            return out

        return go

    lps = {}
    for mv in loops:
        try:
            lps[mv] = run_loop(mv)
        except Unknown as x:
            rep.undec("%s: %s" % (path, x))
    n = 0
    for e in g.edges():
        if e.kind != "ret":
            continue
        m = inner(e.value)
        allmaps = set(maps)
        for t in [m] + [c for c, _ in e.guards]:
            allmaps |= {x for x in base(m)}
        if not allmaps <= set(maps):
            rep.undec("%s: result made of %s" % (path, pretty(m, ctx.prog)[:200]))
            continue
        allkeys = set(ks)
        extra = {k for k in keys(m) if k not in allkeys and not phis(k)}
        if extra:
            if any(vague(k) for k in extra):
                rep.undec("%s: names %s" % (path, sorted(map(str, extra))))
                continue
            allkeys |= extra
        for has in itertools.product((False, True), repeat=len(maps)):
            hs = dict(zip(maps, has))
            for same in [set(c) for n_ in range(0, 3) for c in itertools.combinations(sorted(allkeys, key=str), n_)]:
                pr = Probe(same, hs)
                try:
                    if any(cond(c, b, pr, lps) is False for c, b in e.guards):
                        continue
                    got = pr.look(m, lps)
                except Unknown as x:
                    rep.undec("%s: cannot look a name up in %s (%s)" % (path, pretty(m, ctx.prog)[:200], x))
                    continue
                exp = outcome(pr, hs, same)
                n += 1
                bad = [o for o in got if o != exp]
                if not bad:
                    rep.ok()
                    continue
                gs = "\n".join("    %s %s" % ("if " if b else "not", pretty(c, ctx.prog)) for c, b in e.guards)
                if any(vague(c) for c, _ in e.guards):
                    rep.undec("%s: under conditions not understood" % path)
                    continue
                show = lambda o: "no rule" if o is None else "the rule of %s" % o[1] if o[0] == "of" else "the rule %s" % pretty(o[1], ctx.prog)
                rep.violate(
                    "%s|%s|%s" % (path, sorted(map(str, same)), [str(k) for k, v in hs.items() if v]),
                    "%s: for a name %s, present in %s: the resulting set has %s, specified is %s"
                    % (path, "equal to " + ", ".join(map(str, same)) if same else "other than those added", [str(k) for k, v in hs.items() if v] or "none", show(bad[0]), show(exp)),
                    where_str(e.where[-3:]),
                    "  path conditions:\n" + gs + "\n  resulting map: %s" % pretty(m, ctx.prog),
                )
    rep.count("%s: lookups compared" % path, n)
    rep.sample({"function": path, "lookups compared": n})


def want_add(kit, ps):
    m = kit.f(ps[0], RULES, 0)

    def outcome(pr, hs, same):
        if ps[1] in same:
            return ("is", ps[2])
        return ("of", m) if hs[m] else None

    return [m], [ps[1]], outcome


def want_merge(kit, ps):
    a, b = kit.f(ps[0], RULES, 0), kit.f(ps[1], RULES, 0)

    def outcome(pr, hs, same):
        return ("of", a) if hs[a] else ("of", b) if hs[b] else None

    return [a, b], [], outcome


def want_new(kit, ps):
    def outcome(pr, hs, same):
        return ("of", ps[0]) if hs[ps[0]] else None

    return [ps[0]], [], outcome


@no_kit
def c15(ctx, rep):
    evalrules.c15_eval(ctx, rep)
    M = "parser::expression::SetOfRules::"
    for n, w in (("new", want_new), ("add", want_add), ("merge", want_merge)):
        try:
            map_function(ctx, rep, M + n, w, n)
        except GiveUp as x:
            rep.undec("%s: gave up: %s" % (n, x))
    evalrules.built(ctx, rep, r"(rules\d|ref_rule)")
