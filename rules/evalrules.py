"""Properties of the evaluator of expressions, of parse and parse_debug."""
from common import *
from parserspec import *
import linerules
import time
import refine


def field_ix(kit, path, *names):
    fs = [x[0] for x in kit.adt(path)["variants"][0]["fields"]]
    return set(fs.index(n) for n in names if n in fs)


def erasure(kit, lines=True, descr=True, walk=True, pot=True, rowcol=True):
    r = {}
    e = set()
    if lines:
        e |= field_ix(kit, ERR, "line_before", "line_after")
    if descr:
        e |= field_ix(kit, ERR, "descr")
    s = set()
    if walk:
        e |= field_ix(kit, ERR, "parsing_rules")
        s.add(kit.sf["walk"])
    if pot:
        s.add(kit.sf["pot"])
    if e:
        r[ERR] = e
    if s:
        r[kit.ST] = s
    if rowcol:
        r[POS] = field_ix(kit, POS, "row", "col", "start_line")
    return r


RES, TUP = "std::result::Result", "tuple"


class Where:
    """what a mismatch of the evaluator is about"""

    def __init__(self, kit, m):
        self.tag = m.tag or ""
        self.kind = self.tag.split(":")[0]
        p = m.path
        self.path = p
        self.top = len(p) == 0
        self.ok = len(p) > 0 and p[0][:2] == (RES, 0)
        self.err = len(p) > 0 and p[0][:2] == (RES, 1)
        self.nodes = self.ok and len(p) > 1 and p[1][0] == TUP and p[1][2] == 1
        self.status = self.ok and len(p) > 1 and p[1][0] == TUP and p[1][2] == 0
        inv = {v: k for k, v in kit.sf.items()}
        self.roles = [inv.get(x[2]) for x in p if x[0] == kit.ST or (x[0] == "of" and x[1] == kit.ST)]
        self.role = self.roles[0] if self.roles else None
        en = [x[0] for x in kit.adt(ERR)["variants"][0]["fields"]]
        self.errfields = [en[x[2]] for x in p if x[0] == ERR and x[2] < len(en)]
        self.pos = any(x[0] == POS or (x[0] == "of" and x[1] == POS) for x in p) or "pos" in self.roles or "pos" in self.errfields

        def failed(t):
            if t is None:
                return False
            if t.op == "agg":
                return t.args[:2] == (RES, 1)
            lo, hi = m.facts.int_range(discr(t))
            return lo >= 1

        # both sides fail, only the errors differ
        self.botherr = failed(m.top[0]) and failed(m.top[1])
        self.priority = "priority" in self.errfields
        self.walk = "walk" in self.roles or "parsing_rules" in self.errfields
        self.potential = "pot" in self.roles


def path_str(p):
    out = []
    for x in p:
        if x[0] == "of":
            out.append("of %s.%s" % (str(x[1]).split("::")[-1], x[2]))
        else:
            out.append("%s.%s.%s" % (str(x[0]).split("::")[-1][:40], x[1], x[2]))
    return "/".join(out)


def report(ctx, rep, R, what, keep, fn, expect=()):
    """turns mismatches into findings; keep(Where) selects those the property is about"""
    kit = ctx.kit
    n = 0
    vague_n = 0
    for m in R.mis:
        w = Where(kit, m)
        if not keep(w):
            continue
        if not m.definite:
            vague_n += 1
            rep.undec("%s: %s at %s: not comparable: %s / %s" % (what, m.tag, path_str(m.path), pretty(m.impl, ctx.prog)[:120], pretty(m.spec, ctx.prog)[:120]))
            continue
        n += 1
        key = "%s|%s|%s" % (what, m.tag, path_str(m.path))
        gs = "\n".join("    %s %s" % ("if " if b else "not", pretty(c, ctx.prog)) for c, b in m.edge.guards)
        rep.violate(
            key,
            "%s: %s, %s: the code yields %s, specified is %s"
            % (what, m.tag, path_str(m.path) or "result", pretty(m.impl, ctx.prog)[:300], pretty(m.spec, ctx.prog)[:300]),
            where_str(m.edge.where[-3:]),
            "  path conditions:\n" + gs + "\n  code: %s\n  spec: %s" % (pretty(m.impl, ctx.prog), pretty(m.spec, ctx.prog)),
        )
    total = R.obl + R.peeled
    rep.ok(max(0, total - n - vague_n))
    for x in R.notes:
        rep.undec("%s: %s" % (what, x))
    for t in expect:
        if not any(k.startswith(t) for k in R.tags):
            rep.undec("%s: no path reaches %s" % (what, t))
    rep.count("head pairs", R.pairs)
    for t, c in R.tags.items():
        rep.count("outcome " + t, c)
    rep.sample({"function": fn, "spec": R.spec.name, "returns compared": R.obl, "unrolled returns compared": R.peeled})


def evaluator(ctx, rep, keep, er, expect=(), what="expression evaluator", **kw):
    kit = ctx.kit
    g = ctx.graph(kit.root, cut=[kit.root], **kw)
    for s in g.stuck[:5]:
        rep.undec("not analysed: %s" % (s,))
    v = refine.View(g, refine.Eraser(er))
    t0 = time.time()
    R = refine.Refine(kit, v, kit.spec(), kit.args(g)).run()
    if (R.notes or R.mis) and time.time() - t0 < 60:
        # the same language, asked in the other order
        R2 = refine.Refine(kit, v, kit.spec(True), kit.args(g)).run()
        if not R2.notes and not R2.mis:
            R = R2
    report(ctx, rep, R, what, keep, ctx.prog.raw[kit.root]["path"], expect)
    return R


def no_kit(f):
    def g(ctx, rep):
        try:
            f(ctx, rep)
        except GiveUp as x:
            rep.undec("gave up: %s" % x)

    return g


# ------------------------------------------------------------------- roots
def root_spec(kit, debug):
    def start(m, text, rules):
        s = kit.SU(
            mk("undef"),
            text=text,
            it=text,
            pos=kit.new(POS, None, ZERO, ZERO, ZERO, ZERO),
            rules=rules,
            pot=kit.NONE,
            trace=B(debug),
            walk=EMPTY,
        )
        r = kit.rule_step(m, s, S("main"))
        if r[0] == "err":
            return ret(kit.err(r[1]), r[2])
        st, node = r[1], r[2]
        if m.br(le0(slen(kit.S(st, "it")))):
            return ret(kit.ok(node), "End:all consumed")
        pot = kit.S(st, "pot")
        if m.is_some(pot):
            return ret(kit.err(kit.somev(pot)), "End:text left, repetition error")
        return ret(kit.err(kit.from_status(st, "Normal")), "End:text left")

    return Spec("parse", {"start": start})


def root(ctx, rep, path, debug, keep, er, expect=(), **kw):
    kit = ctx.kit
    k = ctx.public(path)
    g = ctx.graph(k, cut=[kit.root], **kw)
    for s in g.stuck[:5]:
        rep.undec("not analysed: %s" % (s,))
    # which argument is the text, which the rules
    f = ctx.prog.raw[k]
    ps = list(g.params)
    if kit.apath(f["locals"][1]) == RULES:
        ps.reverse()
    v = refine.View(g, refine.Eraser(er))
    R = refine.Refine(kit, v, root_spec(kit, debug), ps).run()
    report(ctx, rep, R, path, keep, path, expect)


class RootWhere:
    pass


@no_kit
def c01(ctx, rep):
    k = ctx.kit
    er = erasure(k, pot=False)
    ex = ("End:all consumed", "End:text left, repetition", "Rule:failed")
    root(ctx, rep, "parse", False, lambda w: not w.walk and w.kind in ("End", "Rule"), er, ex)
    root(ctx, rep, "parse_debug", True, lambda w: not w.walk and w.kind in ("End", "Rule"), er, ex)
    # what the final test relies on: characters are taken from the text in
    # order, and the kept repetition error is the one of the last that stopped
    evaluator(
        ctx,
        rep,
        lambda w: (w.status and w.role in ("it", "text")) or w.potential,
        erasure(k, pot=False),
    )


def built(ctx, rep, forms, **fns):
    """the expressions the macros and constructors make are those written"""
    import astrules
    import coderules

    for path, spec in sorted(fns.items()):
        path = "parser::" + path.replace("__", "::")
        if len(ctx.prog.by_path(path)) != 1:
            rep.undec("no function %s" % path)
            continue
        astrules.refines(ctx, rep, path, lambda m, *a, spec=spec: ret(spec(ctx.kit, *a), "built"))
    try:
        coderules.macros(ctx, rep, forms)
    except (RuntimeError, GiveUp) as x:
        rep.undec("macros: %s" % (str(x).splitlines() or [""])[0])


@no_kit
def c02(ctx, rep):
    evaluator(
        ctx,
        rep,
        lambda w: w.kind == "Or" and not w.botherr and w.tag != "Or:critical error",
        erasure(ctx.kit),
        ("Or:alternative matched", "Or:no alternative matched"),
    )
    built(ctx, rep, r"or\d", expression__MultiExpr__new=lambda K, v: agg(MULTI, 0, [v]))


@no_kit
def c03(ctx, rep):
    evaluator(ctx, rep, lambda w: w.kind == "And", erasure(ctx.kit), ("And:all parts matched", "And:a part failed"))
    built(ctx, rep, r"and\d", expression__MultiExpr__new=lambda K, v: agg(MULTI, 0, [v]))


@no_kit
def c04(ctx, rep):
    evaluator(
        ctx,
        rep,
        lambda w: w.kind == "Repeat" and w.tag != "Repeat:critical error" and not w.potential,
        erasure(ctx.kit),
        ("Repeat:ended", "Repeat:less than min", "Repeat:max reached"),
    )
    built(ctx, rep, r"rep\d")
    import astrules

    def rep_info(m, e, n, x):
        K = ctx.kit
        nrep = lambda v: agg(NREP, 0, [v])
        mx = K.some(nrep(K.somev(x))) if m.is_some(x) else K.NONE
        return ret(K.new(REP, None, expression=e, min=nrep(n), max=mx), "built")

    astrules.refines(ctx, rep, "parser::expression::RepInfo::new", rep_info)


@no_kit
def c05(ctx, rep):
    evaluator(
        ctx,
        rep,
        lambda w: (w.kind == "Not" and not w.tag.endswith("critical error"))
        or (w.kind == "Or" and not w.botherr and not w.tag.endswith("critical error"))
        or (w.tag == "Repeat:ended" and not w.botherr),
        erasure(ctx.kit, walk=False, pot=False, rowcol=False),
        ("Not:matched", "Not:not matched", "Or:alternative matched", "Repeat:ended"),
    )
    built(ctx, rep, r"not")


@no_kit
def c06(ctx, rep):
    def keep(w):
        return w.tag.endswith("critical error") or w.kind == "Error" or w.tag == "Rule:missing" or w.priority or w.tag in ("And:a part failed", "Rule:failed")

    er = erasure(ctx.kit, descr=False)
    ex = ("Or:critical", "Not:critical", "Repeat:critical", "Error:reached", "Rule:missing")
    evaluator(ctx, rep, lambda w: keep(w) and not ("descr" in w.errfields and w.kind not in ("Error", "Rule")), er, ex)
    for p, d in (("parse", False), ("parse_debug", True)):
        root(ctx, rep, p, d, lambda w: w.kind == "Rule", erasure(ctx.kit, descr=False, pot=False), ("Rule:missing", "Rule:failed"))
    built(ctx, rep, r"error")


TERMINALS = ("Literal", "Dot", "Match", "EOF")


@no_kit
def c07(ctx, rep):
    evaluator(
        ctx,
        rep,
        lambda w: w.kind in TERMINALS and not w.nodes and not w.pos,
        erasure(ctx.kit),
        ("Literal:matched", "Literal:other char", "Literal:at end", "Dot:any", "Dot:at end", "Match:in the list", "Match:in a range", "Match:no match", "EOF:at end", "EOF:text left"),
    )
    built(
        ctx,
        rep,
        r"(lit|dot|eof|ematch)",
        atom__MatchRules__init=lambda K, s, v: agg(MATCH, 0, [s, v]),
        atom__MatchRules__chars=lambda K, r: K.f(r, MATCH, 0),
        atom__MatchRules__ranges=lambda K, r: K.f(r, MATCH, 1),
    )


@no_kit
def c08(ctx, rep):
    k = ctx.kit
    er = erasure(k, rowcol=False)
    evaluator(ctx, rep, lambda w: w.pos and (w.ok or w.status), er, ("Literal:matched", "Dot:any", "Match:in"))
    for p, d in (("parse", False), ("parse_debug", True)):
        root(ctx, rep, p, d, lambda w: w.pos, erasure(k, rowcol=False, pot=False))


@no_kit
def c09(ctx, rep):
    k = ctx.kit
    evaluator(
        ctx,
        rep,
        lambda w: w.nodes,
        erasure(k),
        ("Literal:matched", "Dot:any", "Match:in", "EOF:at end", "Rule:matched", "And:all", "Repeat:ended", "Not:not", "Or:alt"),
    )
    for p, d in (("parse", False), ("parse_debug", True)):
        root(ctx, rep, p, d, lambda w: w.ok, erasure(k, pot=False))


@no_kit
def c10(ctx, rep):
    k = ctx.kit
    good = linerules.lines(ctx, rep)
    kw = {"summaries": linerules.summaries(ctx, good)} if good else {}
    er = erasure(k, lines=not kw, rowcol=False, walk=False, pot=False, descr=False)
    evaluator(ctx, rep, lambda w: (w.err or w.botherr or w.potential or w.walk) and not ("descr" in w.errfields and w.kind not in ("Error", "Rule")), er, **kw)
    for p, d in (("parse", False), ("parse_debug", True)):
        root(ctx, rep, p, d, lambda w: (w.err or w.botherr) and "descr" not in w.errfields, er, ("End:text left, repetition",), **kw)


@no_kit
def c15_eval(ctx, rep):
    k = ctx.kit
    er = erasure(k, descr=False)
    evaluator(ctx, rep, lambda w: w.kind == "Rule", er, ("Rule:missing", "Rule:matched", "Rule:failed"))
    er = erasure(k, descr=False, pot=False)
    for p, d in (("parse", False), ("parse_debug", True)):
        root(ctx, rep, p, d, lambda w: w.kind == "Rule" or (w.ok and not w.pos), er, ("Rule:missing", "Rule:failed"))


# ------------------------------------------------------------ debug tracing
class Mapped:
    """a transition system with its terms replaced"""

    def __init__(self, g, f):
        self.fn, self.params, self.stuck = g.fn, g.params, g.stuck
        self.entry = [x for x in (self.conv(e, f) for e in g.entry) if x]
        self.heads = {}
        for u, h in g.heads.items():
            n = type("Head", (), {})()
            n.fn, n.line = h.fn, h.line
            n.edges = [x for x in (self.conv(e, f) for e in h.edges) if x]
            self.heads[u] = n
        # what can be reached still
        seen, todo = set(), list(self.entry)
        while todo:
            e = todo.pop()
            if e.kind == "head" and e.target not in seen:
                seen.add(e.target)
                todo += self.heads[e.target].edges
        self.heads = {u: h for u, h in self.heads.items() if u in seen}

    @staticmethod
    def conv(x, f):
        for b, v in x.facts.boo.items():
            b = f(b)
            if b.op == "bool" and b.args[0] != v:
                return None
        v = refine.VEdge()
        v.kind, v.target, v.where, v.msg, v.src = x.kind, x.target, x.where, x.msg, x.src
        gs = []
        for c, b in x.guards:
            c = f(c)
            if c.op == "bool":
                if c.args[0] != b:
                    return None
                continue
            gs.append((c, b))
        v.guards = tuple(gs)
        v.binds = {p: f(t) for p, t in (x.binds or {}).items()}
        v.value = f(x.value) if x.value is not None else None
        v.cells = {c: f(t) if t is not None else None for c, t in x.cells.items() if isinstance(c, str)}
        v.facts = refine.map_facts(x.facts, f)
        return v

    def edges(self):
        for e in self.entry:
            yield e
        for h in self.heads.values():
            for e in h.edges:
                yield e


def with_trace(kit, on):
    """what terms are when tracing is switched on or off"""
    fs = [x[0] for x in kit.adt(ERR)["variants"][0]["fields"]]
    pr = fs.index("parsing_rules")
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = one(t)
        return r

    def one(t):
        if t.op == "fld" and t.args[3] == kit.ST:
            if t.args[2] == kit.sf["trace"]:
                return B(on)
            if t.args[2] == kit.sf["walk"] and not on:
                return EMPTY
        if t.op == "fld" and t.args[3] == ERR and t.args[2] == pr and not on:
            return EMPTY
        return rebuild(t, go)

    return go


def recorded(kit, t):
    """what is recorded in the statuses and errors a term holds"""
    pr = [x[0] for x in kit.adt(ERR)["variants"][0]["fields"]].index("parsing_rules")
    for x in walk(t):
        if x.op == "agg" and x.args[0] == kit.ST:
            yield "walk", x.args[2][kit.sf["walk"]]
            yield "trace", x.args[2][kit.sf["trace"]]
        if x.op == "agg" and x.args[0] == ERR:
            yield "walk", x.args[2][pr]


def untraced(ctx, rep, g, what):
    """with tracing off nothing is recorded, and it stays off"""
    kit = ctx.kit
    for e in g.edges():
        ts = [c for c, _ in e.guards] + list(e.binds.values()) + ([e.value] if e.value is not None else [])
        seen = set()
        for t in ts:
            for k, x in recorded(kit, t):
                if x is None or (k, x) in seen:
                    continue
                seen.add((k, x))
                if x is (EMPTY if k == "walk" else FALSE):
                    rep.ok()
                    continue
                w = where_str(e.where[-3:])
                msg = "%s: with tracing off %s is %s" % (what, "the list of rules" if k == "walk" else "the trace flag", pretty(x, ctx.prog)[:200])
                sure = x.op in ("seq", "cat", "bool", "str") or any(p[0] == "E" for p in (parts_of(x) if k == "walk" else []))
                if sure and refine.feasible(e.facts, kit.dom) and not refine.vague(x):
                    rep.violate("%s|off|%s|%s" % (what, k, e.where[-1:]), msg, w)
                else:
                    rep.undec(msg)


def same_but_trace(ctx, rep, ga, gb, er, what, params=None):
    """ga with tracing and gb without give the same"""
    kit = ctx.kit
    va = refine.View(Mapped(ga, with_trace(kit, True)), refine.Eraser(er))
    off = Mapped(gb, with_trace(kit, False))
    untraced(ctx, rep, off, what)
    vb = refine.View(off)
    spec, order = refine.graph_spec(what + " without tracing", vb)
    start = order
    if params is not None:
        sub = dict(zip(gb.params, params))
        start = tuple(sub.get(x, x) for x in order)
    R = refine.Refine(kit, va, spec, start).run()
    report(ctx, rep, R, what, lambda w: True, what)
    return R


@no_kit
def c13(ctx, rep):
    kit = ctx.kit
    er = {ERR: field_ix(kit, ERR, "parsing_rules"), kit.ST: {kit.sf["walk"], kit.sf["trace"]}}
    g = ctx.graph(kit.root, cut=[kit.root])
    for s in g.stuck[:5]:
        rep.undec("not analysed: %s" % (s,))
    same_but_trace(ctx, rep, g, g, er, "expression evaluator")
    gs = []
    for path in ("parse_debug", "parse"):
        k = ctx.public(path)
        x = ctx.graph(k, cut=[kit.root])
        for s in x.stuck[:5]:
            rep.undec("not analysed: %s" % (s,))
        ps = list(x.params)
        if kit.apath(ctx.prog.raw[k]["locals"][1]) == RULES:
            ps.reverse()
        gs.append((x, ps))
    (a, pa), (b, pb) = gs
    sub = dict(zip(pb, pa))
    same_but_trace(ctx, rep, a, b, er, "parse_debug", [sub[x] for x in b.params])
