"""Grammars as data: expressions read out of terms, and a reference reader of
the textual PEG notation the library documents."""
from common import *

RULES_T = "dynparser::parser::expression::SetOfRules"
EXPR = "dynparser::parser::expression::Expression"


class Opaque(Exception):
    """a term that is not a concrete grammar"""


class BadText(Exception):
    """a text that is not a grammar"""


# ------------------------------------------------------------ out of terms
def elems(t):
    if t.op != "seq":
        raise Opaque(str(t)[:80])
    out = []
    for k, v in t.args[0]:
        if k == "E":
            out.append(v)
        else:
            raise Opaque(str(t)[:80])
    return out


def text(t):
    s = const_str(t)
    if s is None:
        raise Opaque("text %s" % str(t)[:80])
    return s


def num(t):
    if t.op == "agg" and len(t.args[2]) == 1:
        t = t.args[2][0]
    if t.op != "int":
        raise Opaque("number %s" % str(t)[:80])
    return t.args[0]


def only(t, n):
    if t.op != "agg" or len(t.args[2]) != n:
        raise Opaque(str(t)[:80])
    return t.args[2]


def char(t):
    if t.op == "seq":
        s = text(t)
        if len(s) == 1:
            return s
    if t.op == "int":
        return chr(t.args[0])
    raise Opaque("character %s" % str(t)[:80])


def expr_of(prog, t, leaf=None):
    """("lit", s) ("dot",) ("eof",) ("error", s) ("match", chars, ranges) ("and", es)
    ("or", es) ("not", e) ("rep", e, min, max) ("ref", name)"""
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r
    if t.op != "agg":
        raise Opaque("expression %s" % str(t)[:80])
    path, vi, fs = t.args[0], t.args[1], t.args[2]
    ad = prog.adt(path)
    if ad is None:
        raise Opaque("expression %s" % str(t)[:80])
    name = ad["variants"][vi]["name"]
    last = path.split("::")[-1]
    go = lambda x: expr_of(prog, x, leaf)
    if last == "Expression":
        if name == "Simple":
            return go(fs[0])
        if name in ("And", "Or"):
            return (name.lower(), [go(x) for x in elems(only(fs[0], 1)[0])])
        if name == "Not":
            return ("not", go(fs[0]))
        if name == "Repeat":
            r = fs[0]
            if r.op != "agg":
                raise Opaque("repetition %s" % str(t)[:80])
            names = [f[0] for f in prog.adt(r.args[0])["variants"][0]["fields"]]
            d = dict(zip(names, r.args[2]))
            mx = d["max"]
            if mx.op != "agg":
                raise Opaque("repetition %s" % str(t)[:80])
            return ("rep", go(d["expression"]), num(d["min"]), num(mx.args[2][0]) if mx.args[2] else None)
        if name == "RuleName":
            return ("ref", text(fs[0]))
    if last == "Atom":
        if name == "Literal":
            return ("lit", text(fs[0]))
        if name == "Dot":
            return ("dot",)
        if name == "EOF":
            return ("eof",)
        if name == "Error":
            return ("error", text(fs[0]))
        if name == "Match":
            m = only(fs[0], 2)
            return ("match", text(m[0]), [tuple(char(c) for c in only(r, 2)) for r in elems(m[1])])
    raise Opaque("expression %s::%s" % (path, name))


def rules_of(prog, t):
    """{name: expression} of a set of rules built by a known sequence of
    insertions"""
    if t.op == "agg" and len(t.args[2]) == 1:
        t = t.args[2][0]
    out = []
    while True:
        if t.op != "app":
            raise Opaque("rules %s" % str(t)[:80])
        n = t.args[0]
        if n == "map:new":
            break
        if n == "map:insert":
            out.append((text(t.args[2]), t.args[3]))
            t = t.args[1]
            continue
        raise Opaque("rules by %s" % n)
    d = {}
    for k, v in reversed(out):
        d[k] = expr_of(prog, v)
    return d


# ------------------------------------------------------------- normal form
def charset(chars, ranges):
    """the accepted characters as sorted disjoint ranges"""
    rs = sorted([(ord(c), ord(c)) for c in chars] + [(ord(a), ord(b)) for a, b in ranges if a <= b])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def norm(e):
    """the same language, positions and nodes, written one way"""
    k = e[0]
    if k in ("and", "or"):
        out = []
        for x in e[1]:
            n = norm(x)
            if n[0] == k:
                out.extend(n[1])
            else:
                out.append(n)
        if len(out) == 1:
            return out[0]
        return (k, tuple(out))
    if k == "not":
        return ("not", norm(e[1]))
    if k == "rep":
        return ("rep", norm(e[1]), e[2], e[3])
    if k == "match":
        return ("match", charset(e[1], e[2]))
    return e


def show_expr(e):
    k = e[0]
    if k == "lit":
        return '"%s"' % e[1].replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t")
    if k == "dot":
        return "."
    if k == "eof":
        return "EOF"
    if k == "error":
        return "error(%r)" % e[1]
    if k == "match":
        if len(e) == 2:
            return "[" + "".join(chr(a) if a == b else "%s-%s" % (chr(a), chr(b)) for a, b in e[1]) + "]"
        return "[" + e[1] + "".join("%s-%s" % r for r in e[2]) + "]"
    if k == "and":
        return "(" + " ".join(map(show_expr, e[1])) + ")"
    if k == "or":
        return "(" + " / ".join(map(show_expr, e[1])) + ")"
    if k == "not":
        return "!" + show_expr(e[1])
    if k == "rep":
        b = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((e[2], e[3]), "{%s,%s}" % (e[2], e[3]))
        return show_expr(e[1]) + b
    if k == "ref":
        return e[1]
    return str(e)


def refs(e):
    if e[0] == "ref":
        return {e[1]}
    if e[0] in ("and", "or"):
        r = set()
        for x in e[1]:
            r |= refs(x)
        return r
    if e[0] in ("not", "rep"):
        return refs(e[1])
    return set()


def first_difference(a, b):
    """where two normal forms differ"""
    if a[0] == b[0] and a[0] in ("and", "or") and len(a[1]) == len(b[1]):
        for x, y in zip(a[1], b[1]):
            if x != y:
                return first_difference(x, y)
    if a[0] == b[0] and a[0] in ("not", "rep") and a[2:] == b[2:] and a[1] != b[1]:
        return first_difference(a[1], b[1])
    return a, b


# ---------------------------------------------------- reader of the notation
class Reader:
    """Recursive descent over the notation as documented: names, '..' verbatim
    and ".." escaped literals, [..] classes, ., (..), * + ?, !, /, error(..),
    // and /* */ comments.  Modules only group rules."""

    SYM0 = set("_'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
    SYM = SYM0 | {"'", '"'}

    def __init__(self, s):
        self.s, self.i = s, 0

    def fail(self, what):
        ln = self.s.count("\n", 0, self.i) + 1
        raise BadText("line %d: expected %s, found %r" % (ln, what, self.s[self.i : self.i + 12]))

    def ws(self):
        i0 = self.i
        while self.i < len(self.s):
            c = self.s[self.i]
            if c in " \r\n":
                self.i += 1
            elif self.s.startswith("//", self.i):
                while self.i < len(self.s) and self.s[self.i] not in "\r\n":
                    self.i += 1
            elif self.s.startswith("/*", self.i):
                e = self.s.find("*/", self.i + 2)
                if e < 0:
                    return
                self.i = e + 2
            else:
                return

    def at(self, x):
        return self.s.startswith(x, self.i)

    def take(self, x):
        if not self.at(x):
            self.fail(repr(x))
        self.i += len(x)

    def symbol(self):
        if self.i >= len(self.s) or self.s[self.i] not in (self.SYM0 - {"'"}):
            self.fail("a name")
        j = self.i + 1
        while j < len(self.s) and self.s[j] in self.SYM:
            j += 1
        r = self.s[self.i : j]
        self.i = j
        return r

    def name(self):
        r = ""
        if self.at("."):
            self.i += 1
            r = "."
        r += self.symbol()
        while self.at("."):
            self.i += 1
            r += "." + self.symbol()
        return r

    def try_name(self):
        i = self.i
        try:
            return self.name()
        except BadText:
            self.i = i
            return None

    def grammar(self):
        out = []
        self.ws()
        while self.i < len(self.s):
            out += self.item()
            self.ws()
        return out

    def item(self):
        n = self.name()
        self.ws()
        if self.at("{"):
            self.i += 1
            self.ws()
            r = []
            while not self.at("}"):
                r += self.item()
                self.ws()
            self.i += 1
            return r
        self.take("=")
        self.ws()
        return [(n, self.expr())]

    def expr(self):
        alts = [self.seq()]
        while True:
            i = self.i
            self.ws()
            if self.at("/") and not self.at("//") and not self.at("/*"):
                self.i += 1
                self.ws()
                alts.append(self.seq())
            else:
                self.i = i
                break
        return alts[0] if len(alts) == 1 else ("or", alts)

    def seq(self):
        out = [self.rep()]
        while True:
            i = self.i
            if not (self.i < len(self.s) and self.s[self.i] in " \r\n"):
                break
            self.ws()
            # a name followed by = or { begins the next rule
            j = self.i
            n = self.try_name()
            if n is not None:
                self.ws()
                if self.at("=") or self.at("{"):
                    self.i = i
                    break
            self.i = j
            try:
                out.append(self.rep())
            except BadText:
                if self.i >= len(self.s) or self.s[self.i] in ")/}" or self.i == j:
                    self.i = i
                    break
                raise
        return out[0] if len(out) == 1 else ("and", out)

    def rep(self):
        if self.at("!"):
            self.i += 1
            return ("not", self.atom())
        e = self.atom()
        if self.i < len(self.s) and self.s[self.i] in "*+?":
            b = {"*": (0, None), "+": (1, None), "?": (0, 1)}[self.s[self.i]]
            self.i += 1
            return ("rep", e) + b
        return e

    def atom(self):
        s = self.s
        if self.i >= len(s):
            self.fail("an expression")
        c = s[self.i]
        if c == "(":
            self.i += 1
            self.ws()
            e = self.expr()
            self.ws()
            self.take(")")
            return e
        if c == "'" or c == '"':
            return ("lit", self.literal())
        if c == "[":
            return self.cls()
        if self.at("error"):
            i = self.i
            self.i += 5
            self.ws()
            if self.at("("):
                self.i += 1
                self.ws()
                t = self.literal()
                self.ws()
                self.take(")")
                return ("error", t)
            self.i = i
        n = self.try_name()
        if n is not None:
            return ("ref", n)
        if c == ".":
            self.i += 1
            return ("dot",)
        self.fail("an expression")

    def literal(self):
        s = self.s
        if self.at("'"):
            e = s.find("'", self.i + 1)
            if e < 0:
                self.fail("a closing quote")
            r = s[self.i + 1 : e]
            self.i = e + 1
            return r
        self.take('"')
        r = ""
        while True:
            if self.i >= len(s):
                self.fail("a closing quote")
            c = s[self.i]
            if c == '"':
                self.i += 1
                return r
            if c == "\\":
                two = s[self.i : self.i + 2]
                m = {"\\r": "\r", "\\n": "\n", "\\t": "\t", "\\\\": "\\", '\\"': '"'}.get(two)
                if m is not None:
                    r += m
                    self.i += 2
                    continue
                h = s[self.i + 3 : self.i + 5]
                if s[self.i : self.i + 3] == "\\0x" and len(h) == 2 and all(x in "0123456789ABCDEF" for x in h):
                    r += chr(int(h, 16))
                    self.i += 5
                    continue
            r += c
            self.i += 1

    def cls(self):
        s = self.s
        self.take("[")
        chars, ranges = "", []
        while True:
            if self.i >= len(s):
                self.fail("]")
            nxt = s[self.i + 1 : self.i + 2]
            if nxt == "-" and self.i + 2 < len(s):
                ranges.append((s[self.i], s[self.i + 2]))
                self.i += 3
            elif s[self.i] == "]":
                self.i += 1
                break
            else:
                if ranges:
                    self.fail("a range or ]")
                chars += s[self.i]
                self.i += 1
        if not chars and not ranges:
            self.fail("a character")
        return ("match", chars, ranges)


def read(text):
    """{name: expression} of a grammar text"""
    d = {}
    for n, e in Reader(text).grammar():
        d[n] = e
    return d


# ------------------------------------------------------------------ anchors
def calls_of(g, key):
    """argument lists the function `key` is called with in graph g"""
    out = set()
    for e in g.edges():
        ts = [c for c, _ in e.guards] + [t for t in e.binds.values()] if e.binds else [c for c, _ in e.guards]
        ts = list(ts) + ([e.value] if e.value is not None else [])
        for t in ts:
            for x in walk(t):
                if x.op == "app" and x.args[0] == "fn:" + key:
                    out.add(x.args[1:])
    return out


def bootstrap(ctx):
    """the term of the rules that rules_from_peg parses grammar texts with"""
    p = ctx.prog
    pk = [ctx.public("parse")]
    root = ctx.public("peg::rules_from_peg")
    cut = pk + [r["inst"] for r in p.roots if r["inst"] in p.raw and p.raw[r["inst"]]["path"].startswith("ast::") and " as " not in p.raw[r["inst"]]["path"]]
    # most of what is called has nothing to do with it
    other = []
    for b in p.raw[root]["blocks"]:
        t = b["t"]
        k = t[1].get("inst") if t[0] == "call" else None
        if k in p.raw and p.raw[k]["krate"] == p.crate:
            rt = p.types[p.strip(p.raw[k]["locals"][0])]
            if rt.get("path") != RULES_T:
                other.append(k)
    for c in (cut + other, cut):
        g = ctx.graph(root, cut=sorted(set(c)))
        cs = {a[1] for a in calls_of(g, pk[0])}
        if len(cs) == 1:
            return cs.pop()
    raise Opaque("rules_from_peg calls parse with %d different sets of rules" % len(cs))


def textual(ctx):
    """the grammar text the library generates its own rules from"""
    rk = ctx.public("peg::rules_from_peg")
    gk = ctx.public("peg::gcode::rust_from_rules")
    g = ctx.graph(ctx.public("peg::peg2code::print_rules2parse_peg"), cut=[rk, gk])
    cs = {a[0] for a in calls_of(g, rk)}
    if len(cs) != 1:
        raise Opaque("print_rules2parse_peg reads %d texts" % len(cs))
    return text(cs.pop())


# ---------------------------------------------------------------------- C16
def rule_line(ctx, name):
    """where the code that builds the rules names this rule"""
    import re

    for f in ("src/peg/rules.rs",):
        try:
            for i, l in enumerate(open(os.path.join(REPO, f)), 1):
                if re.search(r'r?#?"%s"#?\s*=>' % re.escape(name), l):
                    return "%s:%d" % (f, i)
        except OSError:
            pass
    return "peg::rules_from_peg"


def c16(ctx, rep):
    try:
        have = rules_of(ctx.prog, bootstrap(ctx))
    except Opaque as x:
        rep.undec("the rules rules_from_peg uses are not concrete: %s" % x)
        return
    ctx.funcs["peg::rules_from_peg"] = ctx.funcs.get("peg::rules_from_peg", 0)
    rep.count("rules in use", len(have))
    if "main" not in have:
        rep.violate("main", "the rules used to parse grammars have no rule main", "peg::rules_from_peg")
    else:
        rep.ok()
    for n, e in sorted(have.items()):
        for r in sorted(refs(e)):
            if r in have:
                rep.ok()
            else:
                rep.violate("ref|%s|%s" % (n, r), "rule %s of the built in grammar refers to %s, which does not exist" % (n, r), rule_line(ctx, n), "  %s = %s" % (n, show_expr(e)))
    try:
        t = textual(ctx)
    except Opaque as x:
        rep.undec("the grammar text is not a constant: %s" % x)
        return
    try:
        want = read(t)
    except BadText as x:
        rep.violate("text", "the textual grammar is not in the notation it describes: %s" % x, "peg::peg2code::print_rules2parse_peg")
        return
    rep.count("rules in the text", len(want))
    for n in sorted(set(have) | set(want)):
        if n not in have:
            rep.violate("missing|" + n, "rule %s of the textual grammar is not among the rules in use" % n, rule_line(ctx, n), "  text: %s = %s" % (n, show_expr(want[n])))
        elif n not in want:
            rep.violate("extra|" + n, "rule %s in use is not in the textual grammar" % n, rule_line(ctx, n), "  in use: %s = %s" % (n, show_expr(have[n])))
        else:
            a, b = norm(have[n]), norm(want[n])
            if a == b:
                rep.ok()
                rep.sample({"rule": n, "is": show_expr(a)})
            else:
                x, y = first_difference(a, b)
                rep.violate(
                    "rule|" + n,
                    "rule %s: in use is %s where the text says %s" % (n, show_expr(x), show_expr(y)),
                    rule_line(ctx, n),
                    "  in use: %s\n  text:   %s" % (show_expr(a), show_expr(b)),
                )
    for n, e in sorted(want.items()):
        for r in sorted(refs(e)):
            if r in want:
                rep.ok()
            else:
                rep.violate("textref|%s|%s" % (n, r), "rule %s of the textual grammar refers to %s, which does not exist" % (n, r), "peg::peg2code::print_rules2parse_peg")
