"""The texts of the line an error carries: what is made of them where errors
are built from a status, and that every error of the evaluator has those of
the status it speaks of."""
from common import *
from parserspec import *
from refine import *
import models
import refine

NL = S("\n")


def producers(ctx):
    """functions that make an error from a status"""
    K, p = ctx.kit, ctx.prog
    out = []
    for k, f in p.raw.items():
        if f["krate"] != "dynparser" or "{closure" in f["path"] or K.apath(f["locals"][0]) != ERR or p.types[f["locals"][0]]["k"] != "adt":
            continue
        at = [i for i in range(f["nargs"]) if K.apath(f["locals"][i + 1]) == K.ST]
        if len(at) == 1:
            out.append((k, at[0]))
    return out


def parsed(K, s):
    text, it = K.S(s, "text"), K.S(s, "it")
    return mk("bslice", text, ZERO, sub(blen(text), blen(it)))


def before(K, s):
    return nth(app("str.rsplit", parsed(K, s), NL), ZERO)


def part_of(v):
    """(text, start) of what is a part of a text, by byte offsets"""
    if v.op == "bslice":
        return v.args
    return (v, ZERO, blen(v))


def as_last_line(K, s, v, f):
    """ways to write what follows the last line feed of what has been parsed"""
    V = parsed(K, s)
    want = before(K, s)
    if v is want:
        return want
    text, n = V.args[0], V.args[2]
    has = app("contains", V, NL, ty="bool")
    found = mk("bound", V, "rfind", NL, ty="uint")
    ps = [x for x in walk(v) if x.op == "app" and x.args[0].startswith("str.")]
    if v.op == "nth" and v.args[0].op == "app":
        a = v.args[0]
        if a.args[0] == "str.split" and a.args[1:] == (V, NL) and v.args[1] is sub(slen(a), I(1)):
            return want
        if a.args[0] == "str.rsplitn" and len(a.args) == 4 and a.args[1] is V and a.args[3] is NL and f.eval(le(I(1), a.args[2])) is True and v.args[1] is ZERO:
            return want
    if v is EMPTY and f.eval(le0(slen(V))) is True:
        return want
    if v is V or v is EMPTY and f.eval(eqi(n, ZERO)) is True:
        if f.eval(has) is False or f.eval(eqi(n, ZERO)) is True:
            return want
    for t, a, b in [part_of(v)]:
        if t is V or t is text:
            if a is add(found, I(1)) and (b is n or b is blen(V)) and f.eval(has) is not False:
                return want
    return v


def line_specs(K, si):
    def start_before(m, *args):
        return ret(before(K, args[si]), "line before")

    def start_after(m, *args):
        return ("after", (K.S(args[si], "it"), EMPTY))

    def after(m, it, acc):
        if m.br(le0(slen(it))):
            return ret(acc, "line after: at end")
        ch = nth(it, ZERO, ty="char")
        if m.br(eqi(ch, I(10))) or m.br(eqi(ch, I(13))):
            return ret(acc, "line after: at its end")
        return ("after", (sdrop(it, I(1)), push_elem(acc, ch, char=True)))

    return Spec("line before", {"start": start_before}), Spec("line after", {"start": start_after, "after": after})


def linked(g, h, known):
    """facts about the symbols of head h that move in step with others:
    x + y or x - y stays what it was at first"""
    ins = [(s, e) for s, es in [("entry", g.edges["entry"])] + list(g.edges.items()) for e in es if e.kind == "head" and e.target == h]
    ins = [(s, e) for i, (s, e) in enumerate(ins) if not any(e is o for _, o in ins[:i])]
    if not ins:
        return [], set()
    ps = [x for x in ins[0][1].binds if all(x in e.binds and e.binds[x].op in ("int", "lin", "phi", "len", "blen") for _, e in ins) and x.ty not in ("char",)]
    ps = [x for x in ps if not any(e.binds[x].op == "phi" and e.binds[x].ty not in ("uint", "int") for _, e in ins)]
    facts, tied = [], set(known)
    change = True
    while change:
        change = False
        for x in ps:
            if x in tied:
                continue
            for y in [y for y in ps if y in tied]:
                for z in (add(x, y), sub(x, y)):
                    vals = set()
                    for s, e in ins:
                        w = subst(z, e.binds)
                        vals.add(z if w is z else w)
                    first = vals - {z}
                    if len(first) == 1 and not any(phis(w) and phis(w) & set(ps) for w in first):
                        facts.append(eqi(z, next(iter(first))))
                        tied.add(x)
                        change = True
                        break
                if x in tied:
                    break
    return facts, tied


def ends_early(K, R, g, e, h, it, acc, value):
    """does the code return acc here although the line goes on?"""
    if value is not acc or any(vague(c) for c, _ in e.guards):
        return None
    known = phis(it) | phis(acc)
    facts, tied = linked(g, h, known)
    if not set().union(set(), *[phis(c) for c, _ in e.guards]) <= tied:
        return None
    f = e.facts
    for c in facts:
        f = f.assume(c, True)
        if f is None:
            return None
    ch = nth(it, ZERO, ty="char")
    for c, v in ((le0(slen(it)), False), (eqi(ch, I(10)), False), (eqi(ch, I(13)), False)):
        f = f.assume(c, v)
        if f is None:
            return None
    if not feasible(f, K.dom):
        return None
    return f


def lines(ctx, rep):
    """True when every function that builds an error from a status gives it
    the texts of its line"""
    K = ctx.kit
    good = {}
    ps = producers(ctx)
    if not ps:
        rep.undec("no function makes an error from a status")
        return {}
    for k, si in ps:
        path = ctx.prog.raw[k]["path"]
        g = ctx.graph(k, cut=[K.root])
        for s in g.stuck[:3]:
            rep.undec("%s: not analysed: %s" % (path, s))
        s = g.params[si]
        okay = not g.stuck
        for spec, name in zip(line_specs(K, si), ("line_before", "line_after")):
            other = "line_after" if name == "line_before" else "line_before"
            fs = [x[0] for x in K.adt(ERR)["variants"][0]["fields"]]
            if name not in fs:
                rep.undec("errors have no %s" % name)
                return {}
            v = refine.View(g, refine.Eraser({ERR: {i for i, x in enumerate(fs) if x != name}}))
            final = lambda e: K.f(e.value, ERR, name)
            canon = (lambda t, f: as_last_line(K, s, t, f)) if name == "line_before" else None
            R = refine.Refine(K, v, spec, list(g.params), final=final, canon=canon).run()
            bad = [m for m in R.mis if m.definite and (told(K, s, m.impl, m.edge) if name == "line_before" else m.impl is not None and not opaque(m.impl, m.edge))]
            rep.count("%s texts compared" % name, R.obl)
            rep.sample({"function": path, "spec": spec.name, "returns compared": R.obl, "unrolled returns compared": R.peeled})
            if not R.mis and not R.notes:
                rep.ok(max(1, R.obl))
                continue
            okay = False
            told_n = 0
            for m in bad:
                told_n += 1
                rep.violate(
                    "%s|%s" % (path, name),
                    "%s: %s is %s, specified is %s" % (path, name, pretty(m.impl, ctx.prog)[:200], pretty(m.spec, ctx.prog)[:200]),
                    where_str(m.edge.where[-3:]),
                    "  path conditions:\n" + "\n".join("    %s %s" % ("if " if b else "not", pretty(c, ctx.prog)) for c, b in m.edge.guards),
                )
                break
            if not told_n and name == "line_after":
                for (node, loc, _), (vs, _) in R.R.items():
                    if loc != "after" or node == "entry" or told_n:
                        continue
                    if any(has_ghost(x) for x in vs):
                        continue
                    for e in v.edges[node]:
                        if e.kind != "ret":
                            continue
                        f = ends_early(K, R, v, e, node, vs[0], vs[1], final(e))
                        if f is not None:
                            told_n += 1
                            gs = "\n".join("    %s %s" % ("if " if b else "not", pretty(c, ctx.prog)) for c, b in e.guards)
                            rep.violate(
                                "%s|line_after ends early" % path,
                                "%s: the text of the line after the position ends before the line does" % path,
                                where_str(e.where[-3:]),
                                "  path conditions:\n" + gs,
                            )
                            break
            if not told_n:
                for m in R.mis[:2]:
                    rep.undec("%s: %s: not comparable: %s / %s" % (path, name, pretty(m.impl, ctx.prog)[:150], pretty(m.spec, ctx.prog)[:150]))
                for x in R.notes[:2]:
                    rep.undec("%s: %s: %s" % (path, name, x))
                if not R.mis and not R.notes:
                    rep.undec("%s: %s" % (path, name))
        if okay:
            good[k] = si
    return good


def opaque(v, e):
    """are there texts made by other means than one character at a time?"""
    return any(x.op == "app" and x.args[0].startswith("str.") for t in [v] + [c for c, _ in e.guards] for x in walk(t))


def told(K, s, v, e):
    """a text that surely is not the line before in all cases: a constant, or a
    part of the text cut at other places known for what they are"""
    for c, _ in e.guards:
        for x in walk(c):
            if x.op == "app" and not x.args[0].startswith(("contains", "boundary")):
                return False
            if x.op == "nth":
                return False
    if const_str(v) is not None:
        return True
    if v.op == "nth" and v.args[0].op == "app" and v.args[0].args[0] in ("str.rsplit", "str.split"):
        a = v.args[0]
        V = parsed(K, s)
        return a.args[1] in (V, K.S(s, "text"), K.S(s, "it")) and const_str(a.args[2]) is not None and is_int(v.args[1])
    V = parsed(K, s)
    return v in (V, K.S(s, "text"), K.S(s, "it"))


def summaries(ctx, good):
    """what those functions return, the texts of the line named"""
    K = ctx.kit
    out = {}
    fs = [x[0] for x in K.adt(ERR)["variants"][0]["fields"]]
    for k, si in good.items():
        g = ctx.graph(k, cut=[K.root])
        rets = [e for e in g.edges() if e.kind == "ret"]
        rest = None
        for e in rets:
            v = e.value
            if v is None or v.op != "agg" or v.args[0] != ERR:
                rest = None
                break
            r = tuple(x for i, x in enumerate(v.args[2]) if not fs[i].startswith("line_"))
            if rest is not None and rest != r or any(phis(x) for x in r):
                rest = None
                break
            rest = r
        if rest is None:
            continue
        out[k] = summary(K, fs, g.params, si, rest)
    return out


def line_fields(K, s):
    text, it = K.S(s, "text"), K.S(s, "it")
    return {"line_before": app("fn:line before", text, it), "line_after": app("fn:line after", it)}


def summary(K, fs, params, si, rest):
    def give(args):
        mp = dict(zip(params, args))
        lf = line_fields(K, args[si])
        r = iter(rest)
        return agg(ERR, 0, [lf[n] if n in lf else subst(next(r), mp) for n in fs])

    return give
