"""Properties of the tree transformations and of the helpers that consume
nodes."""
from common import *
from parserspec import ANY, NODE
import refine
from refine import Kit, Spec, ret, GiveUp
from evalrules import path_str, no_kit

FNODE = "dynparser::ast::flat::Node"
AERR = "dynparser::ast::Error"


def kit_of(ctx):
    k = getattr(ctx, "_akit", None)
    if k is None:
        k = ctx._akit = Kit(ctx.prog)
    return k


def findings(ctx, rep, R, what, fn, keep=None):
    n = v = 0
    for m in R.mis:
        if keep and not keep(m):
            continue
        if not m.definite:
            v += 1
            rep.undec("%s: %s at %s: not comparable: %s / %s" % (what, m.tag, path_str(m.path), pretty(m.impl, ctx.prog)[:120], pretty(m.spec, ctx.prog)[:120]))
            continue
        n += 1
        gs = "\n".join("    %s %s" % ("if " if b else "not", pretty(c, ctx.prog)) for c, b in m.edge.guards)
        rep.violate(
            "%s|%s|%s" % (what, m.tag, path_str(m.path)),
            "%s: %s, %s: the code yields %s, specified is %s"
            % (what, m.tag, path_str(m.path) or "result", pretty(m.impl, ctx.prog)[:300], pretty(m.spec, ctx.prog)[:300]),
            where_str(m.edge.where[-3:]),
            "  path conditions:\n" + gs + "\n  code: %s\n  spec: %s" % (pretty(m.impl, ctx.prog), pretty(m.spec, ctx.prog)),
        )
    rep.ok(max(0, R.obl + R.peeled - n - v))
    for x in R.notes:
        rep.undec("%s: %s" % (what, x))
    for t, c in R.tags.items():
        rep.count("%s: %s" % (what, t), c)
    rep.sample({"function": fn, "spec": R.spec.name, "returns compared": R.obl, "unrolled returns compared": R.peeled})


def refines(ctx, rep, path, spec, er=None, cut=(), order=None, final=None, keep=None):
    """public function `path` refines the machine `spec`"""
    key = ctx.public(path)
    g = ctx.graph(key, cut=list(cut))
    for s in g.stuck[:5]:
        rep.undec("%s: not analysed: %s" % (path, s))
    v = refine.View(g, refine.Eraser(er) if er else None)
    ps = list(g.params)
    if order:
        ps = [ps[i] for i in order]
    R = refine.Refine(kit_of(ctx), v, Spec(path, {"start": spec}), ps, final=final).run()
    findings(ctx, rep, R, path, path, keep)
    return R


# ------------------------------------------------------------- C27 helpers
def same_text(m, a, b):
    return m.br(eqs(a, b))


def helper_specs(K):
    """function -> (specification, family)"""
    A, F = "ast::", "ast::flat::"
    out = {}

    def fail(tag):
        return ret(K.err(ANY), tag)

    def name_of(node, path, v):
        if path == NODE:
            return fld(K.f(node, NODE, 0, "Rule"), 0, 0, "tuple", 2)
        return K.f(node, FNODE, 0, v)

    def split(nx):
        def spec(m, nodes):
            if m.br(le0(slen(nodes))):
                return fail("no node")
            return nx(m, nth(nodes, ZERO), sdrop(nodes, I(1)), nodes)

        return spec

    for pre, ty in ((A, NODE), (F, FNODE)):

        def get_val(m, node, ty=ty):
            if m.variant(node, ty) == "Val":
                return ret(K.ok(K.f(node, ty, 0, "Val")), "value")
            return fail("not a value")

        def consume_val(m, n, r, _, ty=ty):
            if m.variant(n, ty) == "Val":
                return ret(K.ok(tup(K.f(n, ty, 0, "Val"), r)), "value")
            return fail("not a value")

        def this_value(m, v, nodes, ty=ty):
            if m.br(le0(slen(nodes))):
                return fail("no node")
            n = nth(nodes, ZERO)
            if m.variant(n, ty) == "Val":
                if same_text(m, v, K.f(n, ty, 0, "Val")):
                    return ret(K.ok(sdrop(nodes, I(1))), "this value")
                return fail("other value")
            return fail("not a value")

        out[pre + "get_node_val"] = get_val
        out[pre + "consume_val"] = split(consume_val)
        out[pre + "consume_this_value"] = this_value
        out[pre + "split_first_nodes"] = split(lambda m, n, r, _: ret(K.ok(tup(n, r)), "first and rest"))
        out[pre + "peek_first_node"] = split(lambda m, n, r, _: ret(K.ok(n), "first"))

    def nn(m, node):
        if m.variant(node, NODE) == "Rule":
            t = K.f(node, NODE, 0, "Rule")
            return ret(K.ok(tup(fld(t, 0, 0, "tuple", 2), fld(t, 0, 1, "tuple", 2))), "rule")
        return fail("not a rule")

    def unique(m, nodes):
        if m.br(eqi(slen(nodes), I(1))):
            n = nth(nodes, ZERO)
            if m.variant(n, NODE) == "Val":
                return ret(K.ok(K.f(n, NODE, 0, "Val")), "unique value")
            return fail("not a value")
        return fail("not one node")

    def sub_nodes(m, name, nodes):
        if m.br(le0(slen(nodes))):
            return fail("no node")
        n = nth(nodes, ZERO)
        if m.variant(n, NODE) == "Rule":
            t = K.f(n, NODE, 0, "Rule")
            if same_text(m, name, fld(t, 0, 0, "tuple", 2)):
                return ret(K.ok(tup(sdrop(nodes, I(1)), fld(t, 0, 1, "tuple", 2))), "this rule")
            return fail("other rule")
        return fail("not a rule")

    def empty(m, nodes):
        if m.br(le0(slen(nodes))):
            return ret(K.ok(tup()), "no node")
        return fail("nodes left")

    out[A + "get_nodename_and_nodes"] = nn
    out[A + "get_nodes_unique_val"] = unique
    out[A + "consume_node_get_subnodes_for_rule_name_is"] = sub_nodes
    out[A + "check_empty_nodes"] = empty

    def mark(v):
        def spec(m, name, nodes):
            if m.br(le0(slen(nodes))):
                return fail("no node")
            n = nth(nodes, ZERO)
            if m.variant(n, FNODE) == v:
                if same_text(m, name, K.f(n, FNODE, 0, v)):
                    return ret(K.ok(sdrop(nodes, I(1))), "this mark")
                return fail("other name")
            return fail("other kind")

        return spec

    out[F + "consume_node_start_rule_name"] = mark("BeginRule")
    out[F + "consume_node_end_rule_name"] = mark("EndRule")

    def nodename(m, node):
        v = m.variant(node, FNODE)
        if v in ("BeginRule", "EndRule"):
            return ret(K.ok(K.f(node, FNODE, 0, v)), "mark")
        return fail("not a mark")

    out[F + "get_nodename"] = nodename
    return out


@no_kit
def c27(ctx, rep):
    K = kit_of(ctx)
    for path, spec in sorted(helper_specs(K).items()):
        try:
            refines(ctx, rep, path, spec)
        except GiveUp as x:
            rep.undec("%s: gave up: %s" % (path, x))

    # the error keeps what it is given
    def error(m, d, c):
        if m.is_some(c):
            return ret(K.new(AERR, None, d, K.some(K.somev(c))), "with context")
        return ret(K.new(AERR, None, d, K.NONE), "without context")

    refines(ctx, rep, "ast::error", error)
