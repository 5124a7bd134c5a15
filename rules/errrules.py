"""Errors of the conversion of grammars: what becomes of the error of a stage,
and what an error looks like as text."""
from common import *
import conv
from conv import *

PERR = "dynparser::peg::Error"


def known(e):
    """what holds along an edge"""
    f = Facts()
    for c, v in e.guards:
        n = f.assume(c, v)
        if n is None:
            return None
        f = n
    return f


def failed(f, t):
    """True, False or None: is this result an error?"""
    if f.eval(eqi(discr(t), ZERO)) is True or f.eval(eqi(discr(t), I(1))) is False:
        return False
    if f.eval(eqi(discr(t), ZERO)) is False or f.eval(eqi(discr(t), I(1))) is True:
        return True
    return None


def payload(t):
    return fld(t, 1, 0, RES, 1)


def holds(t, what):
    return any(x is what for x in walk(t))


def entire(t, x):
    """is x in t, other than through its parts?"""
    if t is x:
        return True
    if t.op == "fld":
        return False
    todo, seen = list(t.args), set()
    while todo:
        y = todo.pop()
        if isinstance(y, tuple):
            todo.extend(y)
        elif isinstance(y, T) and y not in seen:
            seen.add(y)
            if y is x:
                return True
            if y.op not in ("fld", "discr"):
                todo.extend(y.args)
    return False


def stages_in(e, keys):
    out = []
    ts = [c for c, _ in e.guards] + ([e.value] if e.value is not None else []) + list(e.binds.values() if e.binds else [])
    seen = set()
    for t in ts:
        for x in walk(t):
            if x not in seen:
                seen.add(x)
                if x.op == "app" and isinstance(x.args[0], str) and x.args[0][:3] == "fn:" and x.args[0][3:] in keys:
                    out.append(x)
    return out


def fallible(prog, key):
    f = prog.raw[key]
    return prog.types[f["locals"][0]].get("path") == RES


def lost(p, v, x, tp):
    """what of a value (of this type) does not go into another: None, or a list of parts"""
    if entire(v, x):
        return None
    a = p.adt(tp) if tp else None
    if a is None or len(a["variants"]) != 1:
        # parts of it at most
        return ["what is inside"] if not any(y.op == "fld" and y.args[0] is x for y in walk(v)) else ["parts"]
    out = []
    for i, fl in enumerate(a["variants"][0]["fields"]):
        if not any(y.op == "fld" and y.args[0] is x and y.args[2] == i for y in walk(v)):
            out.append(fl[0])
    return out or ["parts"]


def err_type(p, key):
    f = p.raw[key]
    t = p.types[f["locals"][0]]
    if t.get("path") != RES:
        return None
    e = p.types[p.strip(t["args"][1])]
    return e.get("path")


def propagates(ctx, rep, key, g, keys, reach):
    """the error of a stage makes the result an error that has it inside"""
    p = ctx.prog
    path = p.raw[key]["path"]
    if g.stuck:
        rep.undec("%s: %s" % (path, g.stuck[0]))
    for e in g.edges():
        if e.kind not in ("ret", "head"):
            continue
        f = known(e)
        if f is None:
            continue
        for s in stages_in(e, keys):
            if failed(f, s) is not True:
                continue
            k = s.args[0][3:]
            name = p.raw[k]["path"]
            v = e.value
            where = where_str(e.where)
            swallowed = True
            if e.kind == "head":
                bad = "goes on after an error of %s" % name
            elif v is s:
                rep.ok()
                continue
            elif v.op == "agg" and v.args[0] == RES and v.args[1] == 0:
                bad = "returns Ok though %s failed" % name
            elif v.op == "agg" and v.args[0] == RES:
                l = lost(p, v, payload(s), err_type(p, k))
                if l is None:
                    rep.ok()
                    continue
                # (the parser does not record rules unless told to)
                if l == ["parts"] or l == ["parsing_rules"]:
                    rep.undec("%s returns parts of the error of %s: %s" % (path, name, pretty(v, p)[:160]))
                    continue
                bad = "drops the error of %s (%s)" % (name, ", ".join(l))
                swallowed = False
            elif v.op == "app" and v.args[0][:3] == "fn:" and failed(f, v) is not True:
                bad = "returns the result of %s though %s failed" % (p.raw[v.args[0][3:]]["path"] if v.args[0][3:] in p.raw else v.args[0], name)
            else:
                rep.undec("%s returns %s after an error of %s" % (path, pretty(v, p)[:120], name))
                continue
            if not swallowed or reach(k):
                rep.violate("%s:%s" % (path, name), "%s %s" % (path, bad), where, guards(e, p))
            else:
                rep.undec("%s %s, but no grammar text is known that makes it fail" % (path, bad))


def guards(e, p):
    return "\n".join("    %s %s" % ("if  " if v else "not ", pretty(c, p)) for c, v in e.guards)


CHANGES = ("str::trim", "str::replace", "str::to_lowercase", "str::to_uppercase", "str::lines", "str::split", "str::strip", "char::")


def other_text(t, arg):
    """True, False or None: is this a text other than the argument?"""
    if t is arg:
        return False
    for x in walk(t):
        if x.op == "ghost" or (x.op == "sym" and x is not arg):
            return None
    ps = parts_of(t)
    if ps and ps != [("S", arg)]:
        flat = []
        for k, v in ps:
            if k == "S" and v.op not in ("str",) and v is not arg:
                flat.append(None)
            else:
                flat.append(v)
        if None not in flat:
            return True
    if t.op == "app" and any(c in t.args[0] for c in ("trim", "replace", "lowercase", "uppercase")):
        return True
    if t.op in ("slice", "sub", "drop", "take", "prefix"):
        return True
    return None


def whole(ctx, rep):
    """rules are returned only from a text that parses and a tree that converts"""
    p = ctx.prog
    root = ctx.public("peg::rules_from_peg")
    names = {ctx.public(("ast::flat::<impl ast::Node>::" if n == "flatten" else "ast::Node::") + n): n for n in ("compact", "prune", "flatten")}
    parse = ctx.public("parse")
    cons = consumers_of(p)
    g = ctx.graph(root, cut=sorted(cons | set(names) | {parse}))
    arg = g.params[0]
    propagates(ctx, rep, root, g, {parse} | cons, lambda k: True)
    for e in g.returns():
        f = known(e)
        v = e.value
        if f is None or (v.op == "agg" and v.args[0] == RES and v.args[1] == 1):
            continue
        where = where_str(e.where)
        got = v.args[2][0] if v.op == "agg" and v.args[0] == RES else v
        convs = [x for x in stages_in(e, cons) if holds(got, x)]
        if not convs:
            rep.violate("made-up-rules", "rules_from_peg returns rules that are not converted from the text: %s" % pretty(got, p)[:160], where, guards(e, p))
            continue
        # as they are
        s = convs[0]
        if v is not s and got is not payload_ok(s):
            rep.undec("rules_from_peg returns %s" % pretty(got, p)[:160])
            continue
        parses = [x for x in walk(s) if x.op == "app" and x.args[0] == "fn:" + parse]
        if len(set(parses)) != 1:
            rep.undec("rules_from_peg converts the nodes of %d parses" % len(set(parses)))
            continue
        t = parses[0].args[1]
        if failed(f, parses[0]) is not False:
            rep.undec("rules_from_peg does not look at the result of the parser")
            continue
        o = other_text(t, arg)
        if o is True:
            rep.violate("other-text", "rules_from_peg parses %s instead of the text it is given" % pretty(t, p)[:160], where, guards(e, p))
        elif o is None:
            rep.undec("rules_from_peg parses %s" % pretty(t, p)[:160])
        else:
            rep.ok()


def payload_ok(s):
    return fld(s, 0, 0, RES, 1)


def leftover(ctx, rep, c):
    """the start of the conversion leaves no nodes"""
    p = ctx.prog
    sig = c.sigs[c.topkey]
    if sig.out:
        rep.undec("the nodes left over are handed to %s" % "rules_from_peg")
        return
    g = ctx.graph(c.topkey, cut=c.cut)
    for e in g.returns():
        f = known(e)
        v = e.value
        if f is None or v.op != "agg" or v.args[0] != RES or v.args[1] == 1:
            continue
        done = False
        for s in stages_in(e, c.consumers):
            sg = c.sigs[s.args[0][3:]]
            if len(sg.out) != 1 or failed(f, s) is not False:
                continue
            ok = fld(s, 0, 0, RES, 1)
            rest = fld(ok, 0, sg.out[0], "tuple", len(sg.parts)) if sg.tuple else ok
            if f.eval(eqi(slen(rest), ZERO)) is True:
                done = True
        if done:
            rep.ok()
        elif any(r == "top" for r, _ in c.results.items()) and not c.fails:
            rep.undec("%s returns rules without a check that no nodes are left; none are, as far as the grammar goes" % p.raw[c.topkey]["path"])
        else:
            rep.violate("leftover", "%s returns rules though nodes may be left" % p.raw[c.topkey]["path"], where_str(e.where), guards(e, p))


def pushed(ctx, rep):
    """public ways to make errors of errors"""
    p = ctx.prog
    key = ctx.public("peg::Error::ipush")
    g = ctx.graph(key)
    K = Kit(p)
    f = p.raw[key]
    inner, desc = g.params[0], g.params[1]
    for e in g.returns():
        v = e.value
        if known(e) is None:
            continue
        want = agg(PERR, K.vix(PERR, "Peg"), [tup(desc, agg("std::option::Option", 1, [inner]))])
        if v is want:
            rep.ok()
            continue
        f, where = known(e), where_str(e.where)
        us = used([("S", v)])
        r = shows(us, desc)
        if r is False:
            rep.violate("ipush-descr", "ipush drops the description: %s" % pretty(v, p)[:160], where, guards(e, p))
            continue
        n = len(rep.findings)
        needs(rep, p, f, us, inner, [K.vix(PERR, x) for x in ("Peg", "Parser", "Ast")], where, e, 0)
        if len(rep.findings) == n:
            rep.undec("ipush makes %s" % pretty(v, p)[:160])
    if g.stuck:
        rep.undec("ipush: %s" % g.stuck[0])
    for k, f in sorted(p.raw.items()):
        m = re.match(r"<peg::Error as std::convert::From<(parser|ast)::Error>>::from$", f["path"])
        if not m or f["krate"] != p.crate:
            continue
        g = ctx.graph(k)
        for e in g.returns():
            v = e.value
            if v is agg(PERR, K.vix(PERR, "Parser" if m.group(1) == "parser" else "Ast"), [g.params[0]]):
                rep.ok()
            elif lost(p, v, g.params[0], "dynparser::%s::Error" % m.group(1)) not in (None, ["parts"]):
                rep.violate("from-%s" % m.group(1), "the error of the %s loses %s: %s" % (m.group(1), ", ".join(lost(p, v, g.params[0], "dynparser::%s::Error" % m.group(1))), pretty(v, p)[:160]), where_str(e.where), guards(e, p))
            else:
                rep.undec("%s makes %s" % (f["path"], pretty(v, p)[:160]))


# ----------------------------------------------------------------- as text
def uses(t):
    """what a term reads: places, and whether they are taken as they are"""
    if t.op in ("fld", "sym", "param"):
        yield t, True
        return
    if t.op == "app" and t.args[0] in ("display", "debug"):
        yield t.args[1], True
        return
    if t.op == "agg":
        for x in t.args[2]:
            yield from uses(x)
        return
    for x in t.args:
        for y in x if isinstance(x, tuple) else (x,):
            if isinstance(y, T):
                for u, _ in uses(y):
                    yield u, False
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        for u, _ in uses(z):
                            yield u, False


def used(parts):
    out = set()
    for k, v in parts:
        if isinstance(v, T):
            if k == "S":
                out.update(uses(v))
            else:
                out.update((u, False) for u, _ in uses(v))
    return out


def inside(x, u):
    """is x the place u or a part of it?"""
    while True:
        if x is u:
            return True
        if x.op != "fld":
            return False
        x = x.args[0]


def shows(us, x):
    """True, False or None: is x among what is written, as it is?"""
    if any(d and u is x for u, d in us):
        return True
    return None if any(not d and inside(x, u) for u, d in us) else False


def is_shown(t):
    return t.op == "app" and isinstance(t.args[0], str) and t.args[0] == "fmt:res"


def display(ctx, rep):
    p = ctx.prog
    ks = [k for k, f in p.raw.items() if f["krate"] == p.crate and f["path"] == "<peg::Error as std::fmt::Display>::fmt"]
    if len(ks) != 1:
        raise NoAnchor("Display of peg::Error")
    g = ctx.graph(ks[0])
    if g.stuck:
        rep.undec("Display of errors: %s" % g.stuck[0])
    K = Kit(p)
    PEG, PAR, AST = (K.vix(PERR, n) for n in ("Peg", "Parser", "Ast"))
    me, fmt = g.params
    # at the head of a loop: the errors still to be shown
    curs = {None: [me]}
    for h, H in g.heads.items():
        ins = [e for e in g.edges() if e.kind == "head" and e.target == h]
        ps = [q for q in (ins[0].binds if ins else {}) if all(q in e.binds for e in ins)]
        curs[h] = [q for q in ps if any(e.binds[q] is me for e in ins if e.src is None or e.src == "entry")] or [me]
    for h in [None] + list(g.heads):
        edges = g.entry if h is None else g.heads[h].edges
        for e in edges:
            if e.kind not in ("ret", "head"):
                continue
            f = known(e)
            if f is None:
                continue
            for cur in curs[h][:1]:
                shown(ctx, rep, p, g, e, f, cur, fmt, (PEG, PAR, AST), curs)


def written(e):
    for n, t in (e.cells or {}).items():
        if n == "p1" and t is not None:
            return parts_of(t)
    return []


def shown(ctx, rep, p, g, e, f, cur, fmt, ixs, curs):
    PEG, PAR, AST = ixs
    # nothing is said of what the place written to refuses
    for c, v in e.guards:
        for x in walk(c):
            if x.op == "discr" and is_shown(x.args[0]) and failed(f, x.args[0]) is True:
                return
    if e.kind == "head":
        nxt = [e.binds.get(q) for q in curs.get(e.target, [])]
        if nxt and nxt[0] is cur:
            return
    us = used(written(e))
    if e.kind == "head":
        # left for the next turns
        us |= set((b, True) for b in e.binds.values())
    where = where_str(e.where)
    needs(rep, p, f, us, cur, ixs, where, e, 0)


def needs(rep, p, f, us, x, ixs, where, e, depth):
    """an error is shown as a whole, or all its parts are"""
    PEG, PAR, AST = ixs
    r = shows(us, x)
    if r is not False:
        verdict(rep, r, "an error", where, e, p)
        return
    is_ = lambda t, i: f.eval(eqi(discr(t), I(i)))
    for i in [i for i in (PEG, PAR, AST) if is_(x, i) is not False]:
        y = fld(x, i, 0, PERR, 1)
        if i != PEG:
            r = shows(us, y)
            if r is False and any(inside(u, y) for u, d in us):
                r = True
            verdict(rep, r, "the error of the %s" % ("parser" if i == PAR else "tree"), where, e, p)
            continue
        verdict(rep, shows(us, fld(y, 0, 0, "tuple", 2)), "a description", where, e, p)
        opt = fld(y, 0, 1, "tuple", 2)
        if is_(opt, 1) is False:
            continue
        r = shows(us, opt)
        if r is not False:
            verdict(rep, r, "a cause", where, e, p)
        elif depth > 6:
            rep.undec("causes are shown in an unknown way (%s)" % where)
        else:
            b = fld(opt, 1, 0, "std::option::Option", 1)
            if f.eval(eqi(discr(b), ZERO)) is None and not any(inside(u, b) for u, d in us):
                verdict(rep, shows(us, b), "a cause", where, e, p)
            else:
                needs(rep, p, f, us, b, ixs, where, e, depth + 1)


def verdict(rep, r, what, where, e, p):
    if r is True:
        rep.ok()
    elif r is None:
        rep.undec("%s may be changed where an error is written (%s)" % (what, where))
    else:
        rep.violate("display:%s" % what, "%s is not written where an error is shown as text" % what, where, guards(e, p))


def c20(ctx, rep):
    whole(ctx, rep)
    pushed(ctx, rep)
    display(ctx, rep)
    try:
        c = explored(ctx, rep)
    except Opaque as x:
        rep.undec("the conversion: %s" % x)
        return
    rep.count("functions of the conversion", len(c.functions))
    failing = set(c.topkey if f.root == "top" else f.root[0] for f in c.fails)
    leftover(ctx, rep, c)
    fall = set(x for x in c.consumers if fallible(ctx.prog, x))
    for k in sorted(c.consumers):
        propagates(ctx, rep, k, ctx.graph(k, cut=c.cut), fall, lambda k: k in failing)
