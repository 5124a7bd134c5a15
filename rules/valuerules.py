"""Comparing and copying the values of the public types: equality, order and
clones read off the MIR and held against the structure of the type.

Every return of an `eq` is asked two questions: can it say yes while some part of
the two values differs, and can it say no while all parts are the same?  The
parts are enumerated from the type (variants, fields, nested structs and enums);
texts and lists are parts, their elements being compared by the `eq` of their
own type (induction on the size of the values)."""
import itertools
import re
from common import *
from terms import feasible
from refine import Kit, GiveUp, CONTINGENT
from evalrules import no_kit

IMPL = re.compile(r"^<(?P<ty>.+?) as std::(?P<tr>cmp::PartialEq|cmp::PartialOrd|cmp::Ord|clone::Clone)>::(?P<fn>\w+)$")
PUBLIC = ("ast::Node", "ast::Error", "ast::flat::Node", "parser::Possition", "parser::Error", "parser::ErrPriority")
OPT = "std::option::Option"
ORD = "std::cmp::Ordering"


class Parts:
    def __init__(self, prog):
        self.p = prog
        self.K = Kit(prog)

    def base(self, ti):
        while True:
            ti = self.p.strip(ti)
            t = self.p.types[ti]
            if t["k"] == "adt" and t["path"] in ("std::boxed::Box", "std::rc::Rc", "std::sync::Arc"):
                ti = t["args"][0]
                continue
            return ti, t

    def variants(self, ti, t):
        if t["k"] == "tuple":
            return "tuple", [[(i, e) for i, e in enumerate(t["es"])]]
        if t["k"] == "adt" and t["variants"] and (t["path"] == OPT or t.get("krate") == self.p.crate or self.p.adt(t["path"]) is not None and not t["path"].startswith(("std::", "alloc::", "core::"))):
            return t["path"], [[(i, f[1]) for i, f in enumerate(v["fields"])] for v in t["variants"]]
        return None, None

    def eq(self, a, b, t):
        if t["k"] in ("int", "uint", "char", "bool") or t["k"] == "prim":
            return eqi(a, b)
        return None

    def differ(self, a, b, ti, depth=0):
        """[(what, assumptions)] one for each part in which they can differ"""
        ti, t = self.base(ti)
        path, vs = self.variants(ti, t)
        if vs is None or depth > 3:
            yield "", [(self.equal(a, b, t), False)]
            return
        if len(vs) > 1:
            yield "kind", [(eqi(discr(a), discr(b)), False)]
        for i, fs in enumerate(vs):
            here = [(eqi(discr(a), I(i)), True), (eqi(discr(b), I(i)), True)] if len(vs) > 1 else []
            for j, ft in fs:
                x, y = (fld(v, i, j, path, len(fs), ty=self.p.tag(ft)) for v in (a, b))
                for w, c in self.differ(x, y, ft, depth + 1):
                    yield ".".join(z for z in (self.fname(ti, t, i, j), w) if z), here + c

    def same(self, a, b, ti, depth=0):
        """assumptions, one list for each way of all parts being the same"""
        ti, t = self.base(ti)
        path, vs = self.variants(ti, t)
        if vs is None or depth > 3:
            yield [(self.equal(a, b, t), True)]
            return
        for i, fs in enumerate(vs):
            here = [(eqi(discr(a), I(i)), True), (eqi(discr(b), I(i)), True)] if len(vs) > 1 else []
            ways = []
            for j, ft in fs:
                x, y = (fld(v, i, j, path, len(fs), ty=self.p.tag(ft)) for v in (a, b))
                ways.append(list(self.same(x, y, ft, depth + 1)))
            for c in itertools.product(*ways):
                yield here + [z for w in c for z in w]

    def fname(self, ti, t, i, j):
        if t["k"] == "tuple":
            return str(j)
        v = t["variants"][i]
        return (v["name"] + "." if len(t["variants"]) > 1 else "") + str(v["fields"][j][0])

    def equal(self, a, b, t):
        if t["k"] in ("str", "slice") or t["k"] == "adt":
            return eqs(a, b)
        return eqi(a, b)


def opaque(ts):
    """is something in the terms not known to the analysis?"""
    for t in ts:
        if t is None:
            continue
        for x in walk(t):
            if x.op == "app" and not CONTINGENT.match(str(x.args[0])) and x.args[0] not in ("trimmed", "trimmed_matches") or x.op in ("undef", "phi"):
                return True
    return False


def holds(facts, dom, assumptions):
    """can all of it be true?"""
    f = facts
    for c, v in assumptions:
        if c.op == "bool":
            if c.args[0] != v:
                return False
            continue
        f = f.assume(c, v)
        if f is None:
            return False
    return feasible(f, dom)


@no_kit
def c28(ctx, rep):
    P = Parts(ctx.prog)
    dom = P.K.dom
    n = 0
    for key, f in sorted(ctx.prog.raw.items(), key=lambda x: x[1]["path"]):
        m = IMPL.match(f["path"]) if f.get("krate") == ctx.prog.crate else None
        if not m or m.group("ty") not in PUBLIC:
            continue
        fn = m.group("fn")
        ti = f["locals"][1]
        g = ctx.graph(key, cut=[key])
        n += 1
        what = "%s of %s" % (fn, m.group("ty"))
        for s in g.stuck:
            rep.undec("%s: not analysed: %s" % (what, s))
        if g.heads:
            rep.undec("%s: has loops" % what)
            continue
        a = g.params[0]
        b = g.params[1] if len(g.params) > 1 else None
        for e in g.entry:
            if e.kind != "ret":
                if e.kind != "panic":
                    rep.undec("%s: %s" % (what, e.kind))
                continue
            if fn == "clone":
                if opaque([c for c, _ in e.guards] + [e.value]):
                    rep.undec("%s: %s" % (what, pretty(e.value, ctx.prog)[:160]))
                    continue
                judge(ctx, rep, P, dom, e, what, "a copy that differs in %s", [(w, c) for w, c in P.differ(a, e.value, ti)])
            elif fn in ("eq", "ne"):
                yes = fn == "eq"
                if opaque([c for c, _ in e.guards] + [e.value]):
                    rep.undec("%s: %s" % (what, pretty(e.value, ctx.prog)[:160]))
                    continue
                judge(ctx, rep, P, dom, e, what, "takes values for the same that differ in %s", [(w, [(e.value, yes)] + c) for w, c in P.differ(a, b, ti)])
                judge(ctx, rep, P, dom, e, what, "takes values for different that are the same%s", [("", [(e.value, not yes)] + c) for c in P.same(a, b, ti)])
            elif fn in ("cmp", "partial_cmp", "lt", "le", "gt", "ge"):
                order(ctx, rep, P, dom, e, what, fn, a, b, ti)
    rep.count("functions that compare or copy", n)
    if not n:
        rep.undec("no function that compares or copies was found")


def judge(ctx, rep, P, dom, e, what, text, ways):
    for w, cs in ways:
        if any(opaque([c]) for c, _ in cs):
            rep.undec("%s: %s" % (what, pretty(cs[0][0], ctx.prog)[:160]))
            continue
        if holds(e.facts, dom, cs):
            t = text % w if "%s" in text else text
            gs = "\n".join("    %s %s" % ("if " if v else "not", pretty(c, ctx.prog)) for c, v in e.guards)
            rep.violate("%s|%s" % (what, t), "%s: %s" % (what, t), where_str(e.where[-3:]), "  path conditions:\n" + gs)
        else:
            rep.ok()


def order(ctx, rep, P, dom, e, what, fn, a, b, ti):
    """the kinds in the order they are declared; nothing else is ordered here"""
    _, t = P.base(ti)
    if t["k"] != "adt" or any(v["fields"] for v in t["variants"]):
        rep.undec("%s: order of values with parts" % what)
        return
    x, y = discr(a), discr(b)
    # a critical error is above a normal one however they are declared
    names = [v["name"] for v in t["variants"]]
    if names[::-1] == ["Normal", "Critical"]:
        x, y = y, x
    v = e.value
    if opaque([c for c, _ in e.guards] + [v]):
        rep.undec("%s: %s" % (what, pretty(v, ctx.prog)[:160]))
        return
    if fn in ("lt", "le", "gt", "ge"):
        right = {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[fn]
        judge(ctx, rep, P, dom, e, what, "does not follow the order of declaration", [("", [(v, True), (right, False)]), ("", [(v, False), (right, True)])])
        return
    if fn == "partial_cmp":
        if v.op != "agg" or v.args[0] != OPT:
            rep.undec("%s: %s" % (what, pretty(v, ctx.prog)[:160]))
            return
        if v.args[1] == 0:
            judge(ctx, rep, P, dom, e, what, "has no order for some", [("", [])])
            return
        v = v.args[2][0]
    if v.op != "agg" or v.args[0] != ORD:
        rep.undec("%s: %s" % (what, pretty(v, ctx.prog)[:160]))
        return
    right = [lt(x, y), eqi(x, y), lt(y, x)][v.args[1]]
    judge(ctx, rep, P, dom, e, what, "does not follow the order of declaration", [("", [(right, False)])])
