"""The generated code: which macro call is written for every kind of
expression, how texts are written in it, and what the macros build."""
import os
import re
import shutil
from common import *
from parserspec import *
import evalrules
from evalrules import no_kit, Mapped, path_str
import maprules
import mir
import refine

HOLE = "\ue000"  # stands before the code of a subexpression: it is never empty
STRS = ("str", "std::string::String", "String", "&str")


# ------------------------------------------------------------------- texts
def tidy(s):
    """token text without the space it does not need"""
    out = []
    n = len(s)
    i = 0
    word = lambda c: c.isalnum() or c == "_"
    while i < n:
        if s[i].isspace():
            j = i
            while j < n and s[j].isspace():
                j += 1
            a = s[i - 1] if i > 0 else ""
            b = s[j] if j < n else ""
            # kept after and before a word, as the other side may be one too
            if (a and word(a) and (not b or word(b) or b in "\"'")) or (b and word(b) and not a):
                out.append(" ")
            i = j
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


def escaped(x):
    return app("escaped", x)


def quoted(x):
    return concat(S('"'), escaped(x), S('"'))


ESC = re.compile(r"^std:.*str.*::escape_(debug|default)$")


def normal(codefns):
    """terms with generated texts in a normal form"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = one(t)
        return r

    def one(t):
        if t.op == "app":
            n = t.args[0]
            if n.startswith("fn:") and n[3:] in codefns:
                return concat(S(HOLE), app("code", go(t.args[1])))
            if n == "debug" and t.args[2] in STRS:
                return quoted(go(t.args[1]))
            if n == "display" and len(t.args) == 2 and t.args[1].op == "app" and ESC.match(str(t.args[1].args[0])):
                return escaped(go(t.args[1].args[1]))
            if ESC.match(n):
                return escaped(go(t.args[1]))
            if n == "trimmed":
                ps = parts_of(go(t.args[1]))
                k, x = ps[0 if t.args[3].args[0] else -1] if ps else (None, None)
                if k == "L" and not x[0 if t.args[3].args[0] else -1].isspace():
                    return ZERO
                if k == "S" and x.op == "app" and x.args[0] == "code":
                    # code starts and ends with the macro call
                    return ZERO
            if REPLACE.match(n):
                x = by_hand(t)
                if x is not None:
                    return escaped(go(x))
            if n.startswith("std:"):
                # what is searched for and put in its place stands as it is
                r = mk("app", n, *[x if i and isinstance(x, T) and x.op == "seq" else go(x) if isinstance(x, T) else x for i, x in enumerate(t.args[1:])], ty=t.ty)
                return unchanged(r)
        r = rebuild(t, go)
        return tidied(r)

    return go


REPLACE = re.compile(r"^std:.*<impl str>::replace$")
ESCAPES = {"\\": "\\\\", '"': '\\"', "\r": "\\r", "\n": "\\n", "\t": "\\t", "\0": "\\0", "'": "\\'"}


def replaced(x):
    """the replacements made in a text, innermost first, and that text"""
    out = []
    while x.op == "app" and REPLACE.match(str(x.args[0])):
        p, r = x.args[2], const_str(x.args[3])
        p = chr(p.args[0]) if p.op == "int" else const_str(p)
        if p is None or r is None:
            return None, x
        out.append((p, r))
        x = x.args[1]
    return out[::-1], x


def by_hand(t):
    """the text escaped by replacements that are as good as those of Debug"""
    ps, x = replaced(t)
    if ps and ps[0][0] == "\\" and all(len(p) == 1 and r == ESCAPES.get(p) for p, r in ps):
        s = [p for p, _ in ps]
        if len(set(s)) == len(s) and {'"', "\r"} <= set(s):
            return x
    return None


WRITTEN = re.compile(r"^[\x20-\x7e]*$")


def unchanged(t):
    """a text some functions of std leave as it is"""
    n, x = t.args[0].split("::")[-1], t.args[1]
    if not isinstance(x, T):
        return t
    ps = parts_of(x)
    if n in ("replace", "replacen") and len(t.args) > 3 and t.args[2].op == "seq":
        p = t.args[2].args[0]
        if len(p) == 1 and p[0][0] == "L" and not WRITTEN.match(p[0][1]):
            # code has no control characters: it is all literals and escaped texts
            bad = [c for c in p[0][1] if not WRITTEN.match(c)]
            if all((k == "L" and not any(c in s for c in bad)) or (k == "S" and s.op == "app" and s.args[0] in ("escaped", "code")) for k, s in ps):
                return x
    return t


def altered(t):
    """a text written in the code is in what is replaced or changed after"""
    for x in walk(t):
        if x.op == "app" and (refine.CONTINGENT.match(str(x.args[0])) or str(x.args[0])[:7] == "trimmed"):
            if any(y.op == "app" and y.args[0] in ("escaped", "code") for y in walk(x.args[1])):
                return True
    return False


def tidied(t):
    if t.op != "seq" or not any(k == "L" for k, _ in t.args[0]):
        return t
    return seq([(k, tidy(x) if k == "L" else x) for k, x in t.args[0]])


def shown(t):
    """the text with what is filled in named"""
    out = []
    for k, x in parts_of(t):
        if k == "L":
            out.append(x.replace(HOLE, ""))
        elif k == "E":
            out.append("‹char %s›" % pretty(x))
        elif x.op == "app" and x.args[0] == "code":
            out.append("‹code of %s›" % pretty(x.args[1]))
        elif x.op == "app" and x.args[0] in ("debug", "display", "escaped"):
            out.append("‹%s %s›" % (x.args[0], pretty(x.args[1])))
        else:
            out.append("‹%s›" % pretty(x))
    return "".join(out)


def token_form(t, prog, ty_of):
    """the text with one sample per hole, or None if it holds something else"""
    out = []
    for k, x in parts_of(t):
        if k == "L":
            out.append(x.replace(HOLE, ""))
        elif k == "S" and x.op == "app" and x.args[0] == "code":
            out.append("E")
        elif k == "S" and x.op == "app" and x.args[0] == "escaped":
            out.append("x")
        elif k == "S" and x.op == "app" and x.args[0] == "debug":
            out.append("V" if "Vec<(char" in str(x.args[2]) else "?")
        elif k == "S" and x.op == "app" and x.args[0] == "display":
            out.append("0" if x.args[1].ty in ("uint", "int") or ty_of(x.args[1]) == "usize" else "?")
        else:
            return None
    return "".join(out)


LIST = r"(E(,E)*)?"
FORMS = re.compile(
    r'^(lit!\("x"\)|error!\("x"\)|ref_rule!\("x"\)|dot!\(\)|eof!\(\)|not!\(E\)|rep!\(E,0(,0)?\)|(and|or)!\(' + LIST + r'\)|ematch!\(chlist "x",from2 vec!V\))$'
)


# --------------------------------------------------------------- generator
def reachable(prog, key):
    seen, todo = set(), [key]
    while todo:
        k = todo.pop()
        if k in seen or k not in prog.raw:
            continue
        seen.add(k)
        for b in prog.raw[k]["blocks"]:
            todo += list(insts(b))
    return seen


def insts(x):
    """functions and closures a piece of MIR names"""
    if isinstance(x, dict):
        for v in x.values():
            yield from insts(v)
    elif isinstance(x, list):
        for v in x:
            yield from insts(v)
    elif isinstance(x, str) and x.startswith("_R"):
        yield x


def code_functions(ctx, kit, key):
    """functions of the generator from an expression to a text"""
    prog = ctx.prog
    out = []
    for k, f in prog.raw.items():
        if f["krate"] != "dynparser" or f["nargs"] != 1 or "{closure" in f["path"]:
            continue
        if kit.apath(f["locals"][1]) != EXPR or kit.apath(f["locals"][0]) != "std::string::String":
            continue
        out.append(k)
    return out


class Gen:
    """what is to be written"""

    def __init__(self, kit):
        self.kit = kit

    def code(self, x):
        return concat(S(HOLE), app("code", x))

    def spec(self, listed=False):
        """the text is written as it goes, or its parts are listed first"""
        K = self.kit

        def text(*ps):
            return tidied(concat(*[S(p) if isinstance(p, str) else p for p in ps]))

        def start(m, x):
            v = m.variant(x, EXPR)
            if v == "Simple":
                a = K.f(x, EXPR, 0, v)
                w = m.variant(a, ATOM)
                if w == "Literal":
                    return ret(text("lit!(", quoted(K.f(a, ATOM, 0, w)), ")"), w)
                if w == "Error":
                    return ret(text("error!(", quoted(K.f(a, ATOM, 0, w)), ")"), w)
                if w == "Match":
                    r = K.f(a, ATOM, 0, w)
                    v = app("debug", K.f(r, MATCH, 1), "std::vec::Vec<(char, char)>")
                    return ret(text("ematch!(chlist ", quoted(K.f(r, MATCH, 0)), ", from2 vec!", v, ")"), w)
                if w == "Dot":
                    return ret(S("dot!()"), w)
                if w == "EOF":
                    return ret(S("eof!()"), w)
                raise GiveUp("unknown kind of atom %s" % w)
            if v in ("And", "Or") and listed:
                return ("parts", (S(v.lower() + "!("), K.f(K.f(x, EXPR, 0, v), MULTI, 0), ZERO, EMPTY))
            if v in ("And", "Or"):
                return ("first", (S(v.lower() + "!("), K.f(K.f(x, EXPR, 0, v), MULTI, 0)), None)
            if v == "Not":
                return ret(text("not!(", self.code(K.f(x, EXPR, 0, v)), ")"), v)
            if v == "Repeat":
                r = K.f(x, EXPR, 0, v)
                e = self.code(K.f(r, REP, "expression"))
                mn = app("display", K.f(K.f(r, REP, "min"), NREP, 0))
                mx = K.f(r, REP, "max")
                if m.is_some(mx):
                    return ret(text("rep!(", e, ",", mn, ",", app("display", K.f(K.somev(mx), NREP, 0)), ")"), "Repeat, bounded")
                return ret(text("rep!(", e, ",", mn, ")"), "Repeat")
            if v == "RuleName":
                return ret(text("ref_rule!(", quoted(K.f(x, EXPR, 0, v)), ")"), v)
            raise GiveUp("unknown kind of expression %s" % v)

        def first(m, head, xs):
            if not m.br(lt(ZERO, slen(xs))):
                return ret(text(head, ")"), "And or Or of nothing")
            return ("more", (head, xs, I(1), text(self.code(nth(xs, ZERO)))))

        def more(m, head, xs, i, acc):
            if not m.br(lt(i, slen(xs))):
                return ret(text(head, acc, ")"), "And or Or")
            return ("more", (head, xs, add(i, I(1)), text(acc, ",", self.code(nth(xs, i)))))

        def parts(m, head, xs, i, acc):
            if not m.br(lt(i, slen(xs))):
                return ret(text(head, join(acc, S(",")), ")"), "And or Or")
            return ("parts", (head, xs, add(i, I(1)), push_elem(acc, self.code(nth(xs, i)))))

        return Spec("code of an expression", {"start": start, "first": first, "more": more, "parts": parts})

    def rules_spec(self, listed=False):
        K = self.kit

        def entry(m, es, i):
            x = nth(es, i)
            return concat(quoted(K.tupf(x, 0, 2)), S("=>" + HOLE), app("code", K.tupf(x, 1, 2)))

        def start(m, rules):
            es = app("map:entries", K.f(rules, RULES, 0))
            if listed:
                return ("parts", (es, ZERO, EMPTY))
            if not m.br(lt(ZERO, slen(es))):
                return ret(EMPTY, "no rules")
            return ("more", (es, I(1), entry(m, es, ZERO)))

        def more(m, es, i, acc):
            if not m.br(lt(i, slen(es))):
                return ret(acc, "all rules")
            return ("more", (es, add(i, I(1)), concat(acc, S(","), entry(m, es, i))))

        def parts(m, es, i, acc):
            if not m.br(lt(i, slen(es))):
                return ret(join(acc, S(",")), "all rules")
            return ("parts", (es, add(i, I(1)), push_elem(acc, entry(m, es, i))))

        return Spec("code of a set of rules", {"start": start, "more": more, "parts": parts})


def spaceless(t):
    return seq([(k, re.sub(r"\s+", "", x) if k == "L" else x) for k, x in parts_of(t)])


def unquoted(t):
    """the text without what makes the difference between a text and a literal"""
    out = []
    for k, x in parts_of(t):
        if k == "L":
            out.append(("L", re.sub(r'r?#*"#*', "", x)))
        elif k == "S" and x.op == "app" and x.args[0] in ("escaped", "debug", "display"):
            out += parts_of(x.args[1])
        else:
            out.append((k, x))
    return spaceless(seq(out))


def cut(x):
    """is a text cut to a fixed number of characters?"""
    return x.op == "app" and x.args[0] == "fmtopt" and "'p'" in str(x.args[2])


def plain(x):
    """a text of any kind, taken from an expression or a rule, in which one of
    the characters a literal cannot have stands as it is"""
    pats, x = replaced(x)
    while x.op == "app" and (refine.CONTINGENT.match(str(x.args[0])) and not REPLACE.match(x.args[0]) or x.args[0] in ("display", "fmtopt", "trimmed")):
        x = x.args[1]
    if pats is None or x.op not in ("fld", "nth", "sym"):
        return False
    if any(y.op not in ("fld", "nth", "sym", "int", "app", "drop") or (y.op == "app" and not y.args[0].startswith("map:")) for y in walk(x)):
        return False
    # replaced by something that keeps the literal whole, but not all of them
    ps = [p for p, _ in pats]
    if all(p not in ('"', "\\") for p in ps):
        return not any('"' in p or "\\" in p for p in ps)
    return all(len(p) == 1 and r == ESCAPES.get(p) for p, r in pats) and not {'"', "\\", "\r"} <= set(ps)


def broken(t):
    """the part of a text on which a literal in it is not one for every text"""
    inside = False
    for k, x in parts_of(t):
        if k == "L":
            i = 0
            while i < len(x):
                if x[i] == "\\" and inside:
                    i += 1
                elif x[i] == '"':
                    if not inside and re.search(r"r#*$", x[:i]):
                        return None
                    inside = not inside
                i += 1
        elif k == "S":
            if cut(x) and (inside or any(k == "L" and '"' in y for k, y in parts_of(x.args[1]) if isinstance(y, str))):
                return x
            if inside and plain(x):
                return x
    return None


def code_mismatch(ctx, rep, pid, what, m, site):
    a, b = m.top if m.top[0] is not None else (m.impl, m.spec)
    if spaceless(a) is spaceless(b):
        # only space: what the tokens are is not settled here
        rep.undec("%s: %s: spaces differ: %s" % (what, m.tag, shown(a)[:200]))
        return
    literal = unquoted(a) is unquoted(b)
    form = token_form(a, ctx.prog, lambda t: ctx.prog.types[ctx.prog.strip(t.ty)]["s"] if isinstance(t.ty, int) and not isinstance(t.ty, bool) else None)
    bad_form = form is not None and what.startswith("code of an expression") and not FORMS.match(re.sub(r"\s*,\s*", ",", form)) and not phis(a)
    bad = broken(a) if not phis(a) else None
    if pid == "C22" and bad is not None and (m.definite or not any(refine.vague(c) for c, _ in m.edge.guards)):
        rep.violate(
            "%s|%s|literal" % (what, m.tag),
            "%s: %s: written is %s, where %s is no literal for every text" % (what, m.tag, shown(a)[:260], pretty(bad, ctx.prog)[:160]),
            where_str(m.edge.where[-3:]) if m.edge.where else site,
        )
        return
    if pid == "C22" and not literal and not bad_form and not altered(a):
        return
    if not m.definite:
        rep.undec("%s: %s: not comparable: %s / %s" % (what, m.tag, shown(a)[:160], shown(b)[:160]))
        return
    gs = "\n".join("    %s %s" % ("if " if v else "not", pretty(c, ctx.prog)) for c, v in m.edge.guards)
    rep.violate(
        "%s|%s|%s" % (what, m.tag, path_str(m.path)),
        "%s: %s: written is %s, specified is %s" % (what, m.tag, shown(a)[:260], shown(b)[:260]),
        where_str(m.edge.where[-3:]) if m.edge.where else site,
        "  path conditions:\n" + gs,
    )


def generator(ctx, rep, pid):
    kit = ctx.kit
    top = ctx.public("peg::gcode::rust_from_rules")
    cut = code_functions(ctx, kit, top)
    if not cut:
        rep.undec("no function from an expression to its code found")
        return
    f = normal(set(cut))
    gen = Gen(kit)
    n = 0
    todo = [(top, gen.rules_spec, ("all rules",))]
    todo += [(k, gen.spec, ("Literal", "Error", "Match", "Dot", "EOF", "And or Or", "Not", "Repeat", "Repeat, bounded", "RuleName")) for k in cut]
    for k, mkspec, expect in todo:
        name = ctx.prog.raw[k]["path"]
        spec = mkspec()
        what = "%s (%s)" % (spec.name, name)
        g = ctx.graph(k, cut=cut)
        for s in g.stuck[:5]:
            rep.undec("%s: not analysed: %s" % (name, s))
        v = refine.View(Mapped(g, f))
        best = None
        for listed in (False, True):
            R = refine.Refine(kit, v, mkspec(listed), g.params, opaque_ok=("escaped", "code", "map:entries", "join")).run()
            R.notes += ["no path writes %s" % t for t in expect if t not in R.tags]
            if best is None or not R.mis and not R.notes:
                best = R
            if not best.mis and not best.notes:
                break
        R = best
        n = len(R.mis)
        for m in R.mis:
            code_mismatch(ctx, rep, pid, what, m, "%s:%s" % (g.fn.file, g.fn.line))
        rep.ok(max(0, R.obl + R.peeled - n))
        for x in R.notes:
            rep.undec("%s: %s" % (what, x))
        for t, c in R.tags.items():
            rep.count("written: " + t, c)
        rep.sample({"function": name, "spec": spec.name, "returns compared": R.obl, "unrolled returns compared": R.peeled})


# ------------------------------------------------------------------ macros
def witness(ctx, name):
    """a Ctx for the crate /verif/witness/<name>, compiled against the library"""
    d = os.path.join(ctx.tmp, "witness-" + name)
    shutil.copytree(os.path.join(VERIF, "witness", name), d)
    t = open(os.path.join(d, "Cargo.toml")).read()
    open(os.path.join(d, "Cargo.toml"), "w").write(t.replace('"/repo"', '"%s"' % REPO))
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, d)
    p = ctx.dump(crate=name, cwd=d, out="out-" + name)
    # the witness sees the library as its own module
    t = open(p).read().replace(name + "::dynparser::", "dynparser::")
    open(p, "w").write(t)
    c = Ctx.__new__(Ctx)
    c.__dict__.update(ctx.__dict__)
    c.graphs = {}
    c._kit = None
    c.prog = mir.Prog(p)
    c.base = ctx
    return c


def macros(ctx, rep, only=None):
    """what the macro forms build; only: those forms"""
    try:
        w = witness(ctx, "macros")
    except RuntimeError as x:
        out = getattr(x, "output", "")
        if "could not compile `macros`" not in out:
            raise
        # the library itself was compiled: a documented form is missing
        es = re.findall(r"^error.*$", out, re.M)
        at = re.findall(r"^ *--> (.*)$", out, re.M)
        rep.violate(
            "macros|compile",
            "a documented form of the macros does not compile any more: %s" % (es[0] if es else x),
            ("witness/macros/" + at[0]) if at else "witness/macros/src/lib.rs",
            "\n".join(es[:10]),
        )
        return
    kit = refine.Kit(w.prog)
    E = lambda v, *a: kit.new(EXPR, v, *a)
    A = lambda v, *a: E("Simple", kit.new(ATOM, v, *a))
    multi = lambda v, xs: E(v, agg(MULTI, 0, [vec_of(xs)]))
    nrep = lambda n: agg(NREP, 0, [n])
    rep_ = lambda x, n, m: E("Repeat", kit.new(REP, None, expression=x, min=nrep(n), max=m))
    want = {
        "lit": lambda a: A("Literal", a),
        "error": lambda a: A("Error", a),
        "dot": lambda: A("Dot"),
        "eof": lambda: A("EOF"),
        "ref_rule": lambda a: E("RuleName", a),
        "not": lambda a: E("Not", a),
        "rep2": lambda a, n: rep_(a, n, kit.NONE),
        "rep3": lambda a, n, m: rep_(a, n, kit.some(nrep(m))),
        "ematch_from1": lambda s, a, b: A("Match", agg(MATCH, 0, [s, vec_of([tup(a, b)])])),
        "ematch_from2": lambda s, a, b, c, d: A("Match", agg(MATCH, 0, [s, vec_of([tup(a, b), tup(c, d)])])),
        "ematch_list": lambda s, v: A("Match", agg(MATCH, 0, [s, v])),
    }
    for o in ("and", "or"):
        for n in (0, 1, 3):
            want["%s%d" % (o, n)] = lambda *xs, o=o: multi(o.capitalize(), xs)
    for name, fn in sorted(want.items()):
        if only and not re.match(only, name):
            continue
        ks = [k for k in w.prog.by_path(name) if w.prog.raw[k]["krate"] == "macros"]
        if len(ks) != 1:
            rep.undec("witness %s not found" % name)
            continue
        g = w.graph(ks[0])
        for s in g.stuck[:3]:
            rep.undec("macro form %s: not analysed: %s" % (name, s))
        spec = Spec(name, {"start": lambda m, *a, fn=fn: ret(fn(*a), "macro form")})
        v = refine.View(g)
        R = refine.Refine(kit, v, spec, g.params).run()
        for m in R.mis:
            if not m.definite:
                rep.undec("macro form %s: not comparable: %s / %s" % (name, pretty(m.impl, w.prog)[:150], pretty(m.spec, w.prog)[:150]))
                continue
            rep.violate(
                "macro|%s|%s" % (name, path_str(m.path)),
                "the macro form %s builds %s, specified is %s" % (name, pretty(m.top[0], w.prog)[:300], pretty(m.top[1], w.prog)[:300]),
                where_str(m.edge.where[-3:]),
            )
        if not R.tags and not R.notes:
            rep.undec("macro form %s: no path returns" % name)
        rep.ok(max(0, R.obl + R.peeled - len(R.mis)))
        for x in R.notes:
            rep.undec("macro form %s: %s" % (name, x))
        rep.count("macro forms")

    def empty(kit, ps):
        return [], [], lambda pr, hs, same: None

    def two(kit, ps):
        return [], [ps[0], ps[2]], lambda pr, hs, same: ("is", ps[3]) if ps[2] in same else ("is", ps[1]) if ps[0] in same else None

    for name, fn in (("rules0", empty), ("rules2", two)):
        if only and not re.match(only, name):
            continue
        maprules.map_function(w, rep, name, fn, name)
        rep.count("macro forms")


@no_kit
def c21(ctx, rep):
    generator(ctx, rep, "C21")
    macros(ctx, rep)


@no_kit
def c22(ctx, rep):
    generator(ctx, rep, "C22")
