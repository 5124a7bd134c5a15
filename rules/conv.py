"""The conversion of the tree of a grammar text into rules.

The functions that consume the flat nodes of a grammar are explored, as
transition systems, along every stream of nodes the grammar can produce for
them.  The streams come from the automata of the rules; a function that takes a
whole rule node is verified once per rule and taken as specified where it is
called (induction on the length of the stream)."""
from common import *
from grammar import *
import gramnfa
from models import at_end
from gramnfa import Gram
import itertools
import re
import sys
from refine import Kit

FLAT = "dynparser::ast::flat::Node"
ATOM = "dynparser::parser::atom::Atom"
MATCH = "dynparser::parser::atom::MatchRules"
MULTI = "dynparser::parser::expression::MultiExpr"
REP = "dynparser::parser::expression::RepInfo"
NREP = "dynparser::parser::expression::NRep"
RES = "std::result::Result"

# what the nodes of a rule stand for
KIND = {
    "main": "rules", "grammar": "rules", "module": "rules", "rule": "def",
    "mod_name": "text", "rule_name": "text", "symbol": "text", "literal": "text", "lit_esc": "text",
    "lit_noesc": "text", "esc_char": "text", "hex_char": "text", "mchars": "text", "mbetween": "pair",
    "expr": "expr", "or": "expr", "and": "expr", "error": "expr", "rep_or_neg": "expr", "atom_or_par": "expr",
    "parenth": "expr", "atom": "expr", "match": "expr", "dot": "expr", '_"': "none", "_'": "none",
}
LITERALS = ("literal", "lit_esc", "lit_noesc", "esc_char", "hex_char")
# the text of these is what is written
# a list of things, collected from left to right
ADDED = ("rule", "module", "and", "or", "rule_name", "symbol", "mbetween", "esc_char", "hex_char")
LISTS = ("grammar", "and", "or", "match", "rule_name", "lit_esc", "lit_noesc", "symbol", "mchars")
VERBATIM = ("symbol", "mchars", "rule_name", "mod_name")
ESC = {"\\r": "\r", "\\n": "\n", "\\t": "\t", "\\\\": "\\", '\\"': '"'}


class NoMeaning(Exception):
    """nodes the documentation says nothing about"""


class Sig:
    """which parameter is the list of nodes, which are passed along, and what
    the parts of the result are"""

    def __init__(self, prog, key):
        self.key = key
        f = prog.raw[key]
        self.path = f["path"]
        ts = f["locals"]
        self.args = [ts[i + 1] for i in range(f["nargs"])]
        self.slice = None
        for i, t in enumerate(self.args):
            if is_nodes(prog, t):
                if self.slice is not None:
                    self.slice = None
                    break
                self.slice = i
        rt = prog.types[ts[0]]
        self.fallible = rt.get("path") == RES
        self.ty = prog.tag(ts[0])
        pay = rt["args"][0] if self.fallible else ts[0]
        pt = prog.types[pay]
        self.tuple = pt["k"] == "tuple"
        self.parts = list(pt["es"]) if self.tuple else [pay]
        self.out = [i for i, t in enumerate(self.parts) if is_nodes(prog, t)]
        # owned things given in and given back
        self.ctx = {}
        left = [i for i in range(len(self.parts)) if i not in self.out]
        for i, t in enumerate(self.args):
            if i == self.slice or prog.types[t]["k"] == "ref":
                continue
            for j in left:
                if self.parts[j] == t and prog.types[t].get("path") not in (EXPR, RULES_T, "std::string::String", "std::vec::Vec"):
                    self.ctx[i] = j
                    left.remove(j)
                    break
        self.vals = left
        # a function of the nodes alone, whatever else it passes along
        self.closed = self.slice is not None and len(self.out) == 1 and set(self.ctx) | {self.slice} == set(range(len(self.args)))

    def pack(self, parts):
        v = tup(*parts) if self.tuple else parts[0]
        return agg(RES, 0, [v]) if self.fallible else v


def is_nodes(prog, ti):
    t = prog.types[ti]
    if t["k"] != "ref":
        return False
    e = prog.types[t["e"]]
    return e["k"] == "slice" and prog.types[e["e"]].get("path") == FLAT


class St:
    """what is known along a path"""

    __slots__ = ("m", "facts", "ev", "conds", "unsure", "beyond", "opens", "where", "calls", "given", "memo", "dead", "stack", "forever")

    def __init__(self):
        self.m = {}
        self.facts = Facts()
        self.ev = ()
        self.conds = ()
        self.unsure = None
        self.beyond = False
        self.opens = ()
        self.calls = ()
        self.given = None
        self.memo = {}
        self.dead = frozenset()
        self.where = None
        # the calls that are being followed, and whether they never end
        self.stack = ()
        self.forever = False

    def copy(self):
        s = St()
        for k in St.__slots__:
            setattr(s, k, getattr(self, k))
        return s

    def bind(self, t, v):
        s = self.copy()
        s.m = dict(self.m)
        s.m[t] = v
        s.memo = {}
        if t.op == "app":
            s.calls = self.calls + ((t, v),)
        return s


class Fail:
    def __init__(self, kind, root, st, what, where):
        self.kind, self.root, self.st, self.what, self.where = kind, root, st, what, where


class Budget(Exception):
    pass


class OutOfWork(Exception):
    pass


class Lost(Exception):
    """something is needed that was generalised away"""


def is_fn(p, ti):
    return p.types[p.strip(ti)]["k"] in ("closure", "fn", "fnptr", "dyn", "fndef")


def consumers_of(p):
    """the functions that take lists of nodes, apart from the helpers for lists"""
    cut = set()
    for k, f in p.raw.items():
        if f["krate"] != p.crate or f["path"].startswith("ast::"):
            continue
        if not any(is_nodes(p, f["locals"][i + 1]) for i in range(f["nargs"])):
            continue
        if "{closure" in f["path"].split("::")[-1]:
            continue
        if any(is_fn(p, f["locals"][i + 1]) for i in range(f["nargs"])):
            continue
        cut.add(k)
    return cut


class Conv:
    # streams of a rule are explored up to a number of nodes, as many as fit
    # into this number of decisions
    WORK = {"quick": 20000, "thorough": 60000}
    STEPS = (4, 5, 6, 7, 8, 9, 11, 14, 17, 20, 24, 28, 34, 40)
    NEST = 40
    TURNS = 40

    def __init__(self, ctx):
        self.ctx = ctx
        self.prog = p = ctx.prog
        self.kit = Kit(p)
        self.sigs = {}
        self.pos = {}
        self.up = {}
        self.info = {}
        self.given = set()
        self._moving = {}
        self._folded = {}
        self.n = 0
        self.open = set()
        self.open2 = set()
        self._acc = {}
        self._rep = {}
        self.find()

    # -------------------------------------------------------------- anchors
    def find(self):
        p = self.prog
        cut = consumers_of(p)
        self.consumers = cut
        self.rulefns = {}
        for k, f in p.raw.items():
            if f["krate"] == p.crate and f["path"] in (
                "parser::expression::SetOfRules::add",
                "parser::expression::SetOfRules::merge",
                "parser::expression::SetOfRules::new",
                "parser::expression::SetOfRules::empty",
            ):
                self.rulefns[k] = f["path"].split("::")[-1]
        self.cut = sorted(cut | set(k for k, n in self.rulefns.items() if n in ("add", "merge")))
        for k in cut:
            self.sigs[k] = Sig(p, k)
        self.pipeline()
        self.gram = Gram(rules_of(p, bootstrap(self.ctx)), self.pruned, charset)

    def pipeline(self):
        """where the nodes of the tree go, and what was pruned before"""
        p, ctx = self.prog, self.ctx
        root = ctx.public("peg::rules_from_peg")
        names = {n: ctx.public(("ast::flat::<impl ast::Node>::" if n == "flatten" else "ast::Node::") + n) for n in ("compact", "prune", "flatten")}
        g = ctx.graph(root, cut=sorted(set(self.cut) | set(names.values()) | {ctx.public("parse")}))
        if g.stuck:
            raise Opaque("rules_from_peg: %s" % g.stuck[0])
        back = {"fn:" + k: n for n, k in names.items()}
        back["fn:" + ctx.public("parse")] = "parse"
        found = set()
        for e in g.edges():
            for t in [e.value] + [c for c, _ in e.guards]:
                if t is None:
                    continue
                for x in walk(t):
                    if x.op == "app" and x.args[0].startswith("fn:") and x.args[0][3:] in self.consumers:
                        found.add(x)
        if len(found) != 1:
            raise Opaque("rules_from_peg converts at %d places" % len(found))
        self.top = found.pop()
        self.topkey = self.top.args[0][3:]
        sig = self.sigs[self.topkey]
        if sig.slice is None:
            raise Opaque("the conversion takes something else than nodes")
        t = self.top.args[1 + sig.slice]
        self.topnodes = t
        order = []
        self.pruned = []
        while True:
            if t.op == "fld" or t.op == "drop":
                t = t.args[0]
                continue
            if t.op != "app" or t.args[0] not in back:
                raise Opaque("the nodes converted are %s" % str(t)[:100])
            n = back[t.args[0]]
            order.append(n)
            if n == "parse":
                break
            if n == "prune":
                self.pruned += [text(x) for x in elems(t.args[2])]
            t = t.args[1]
        if order != ["flatten", "prune", "compact", "parse"]:
            raise Opaque("the tree is transformed by %s" % " of ".join(order))

    # --------------------------------------------------------------- streams
    def fresh(self, hint, ty=None):
        self.n += 1
        return mk("sym", "%s%d" % (hint, self.n), "conv", ty=ty)

    def rest(self, pos, up=None):
        r = self.fresh("rest")
        self.pos[r] = pos
        if up is not None:
            self.up[r] = up
        return r

    def node(self, variant, t):
        return self.kit.new(FLAT, variant, t)

    def frame(self, name):
        return (name, self.gram.nfa[name].closure([0]), True)

    def expand(self, st, r):
        """the ways the stream goes on at r"""
        if r in st.dead:
            raise Lost()
        pos = self.pos[r]
        if not pos:
            s = st.copy()
            s.beyond = True
            s.unsure = "looks beyond the nodes of its rule"
            s.m = dict(st.m)
            s.m[r] = self.fresh("after")
            s.memo = {}
            yield s
            return
        if len(st.ev) > self.maxev:
            raise Budget("more than %d nodes" % self.maxev)
        name, q, fresh = pos[-1]
        up = pos[:-1]
        if name == "$":
            if q == "end":
                yield st.bind(r, EMPTY)
                return
            s = st.bind(r, seq([("E", self.node("BeginRule", S(q))), ("S", self.rest((("$", "end", True), self.frame(q)), r))]))
            s.ev = st.ev + (("B", q),)
            yield s
            return
        a = self.gram.nfa[name]
        qb = a.over_breaks(q)
        every = q | qb
        if a.final in every:
            s = st.bind(r, seq([("E", self.node("EndRule", S(name))), ("S", self.rest(up, r))]))
            s.ev = st.ev + (("E", name),)
            yield s
        seen = set()
        for x in sorted(every):
            for k, d, t in a.edges[x]:
                if k != "r":
                    continue
                after = a.closure(set(t2 for y in every for k2, d2, t2 in a.edges[y] if k2 == "r" and d2 == d))
                if d in seen:
                    continue
                seen.add(d)
                s = st.bind(r, seq([("E", self.node("BeginRule", S(d))), ("S", self.rest(up + ((name, after, True), self.frame(d)), r))]))
                s.ev = st.ev + (("B", d),)
                yield s
        vq = every if fresh else qb
        ends = a.run_ends(vq)
        for moves in sorted(ends, key=lambda m: sorted(ends[m])):
            es = frozenset(ends[moves])
            nxt = (name, a.closure(es), False)
            ws = a.all_words(vq, es)
            if ws is not None:
                for w in sorted(ws):
                    s = st.bind(r, seq([("E", self.node("Val", S(w))), ("S", self.rest(up + (nxt,), r))]))
                    s.ev = st.ev + (("V", S(w)),)
                    yield s
                continue
            sh = a.shape(vq, es)
            f = st.facts
            if sh is not None:
                ps = []
                for cl in sh:
                    if len(cl) == 1 and cl[0][0] == cl[0][1]:
                        ps.append(("L", chr(cl[0][0])))
                    else:
                        c = self.fresh("c", ty="char")
                        self.info[c] = ("char", cl)
                        ps.append(("E", c))
                v = seq(ps)
            else:
                v = self.fresh("v", ty="str")
                self.info[v] = ("word", name, vq, es)
                f = f.assume(le(I(a.min_len(vq, es)), slen(v)))
            s = st.bind(r, seq([("E", self.node("Val", v)), ("S", self.rest(up + (nxt,), r))]))
            s.facts = f
            s.ev = st.ev + (("V", v),)
            yield s

    # ---------------------------------------------------------------- terms
    def is_call(self, x):
        return x.op == "app" and isinstance(x.args[0], str) and x.args[0][:3] == "fn:" and x.args[0][3:] in self.consumers

    def moving(self, t):
        """may what is known change this term?"""
        r = self._moving.get(t)
        if r is None:
            r = t.op in ("sym", "phi") or any(self.moving(k) for k in kids(t))
            self._moving[t] = r
        return r

    def val(self, t, st):
        memo = st.memo

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            y = st.m.get(x)
            if y is not None:
                r = go(y)
            elif not self.moving(x):
                r = self._folded.get(x)
                if r is None:
                    r = self._folded[x] = fold(rebuild(x, go))
            else:
                z = fold(rebuild(x, go))
                r = x if z is x else go(z)
                if r.op == "app" and self.is_call(r):
                    # called before, with arguments of which less was known?
                    for c, v in st.calls:
                        if c is not x and c.args[0] == r.args[0] and all(go(a) is b for a, b in zip(c.args[1:], r.args[1:])):
                            r = go(v)
                            break
            memo[x] = r
            return r

        return go(t)

    def blocker(self, t, st):
        """what has to be known first: ("call", app) or ("rest", symbol)"""
        memo = set()

        def go(x):
            if x in memo:
                return None
            memo.add(x)
            if x.op == "sym":
                return ("rest", x) if x in self.pos and x not in st.m else None
            iscall = self.is_call(x)
            for k in kids(x):
                b = go(k)
                if b is not None and not (iscall and b[0] == "rest"):
                    return b
            return ("call", x) if iscall else None

        return go(t)

    def calls_in(self, t):
        memo = set()

        def go(x):
            if x in memo:
                return None
            memo.add(x)
            for k in kids(x):
                b = go(k)
                if b is not None:
                    return b
            return x if self.is_call(x) else None

        return go(t)

    def demand(self, t, st, depth):
        """states in which more of t is known"""
        b = self.blocker(t, st)
        if b is not None:
            if b[0] == "rest":
                yield from self.expand(st, b[1])
            else:
                yield from self.resolve(b[1], st, depth)
            return
        syms = [x for x in walk(t) if x.op in ("sym", "phi")]
        sure = all(x in self.info or x in self.given for x in syms)
        given = any(x in self.given for x in syms)
        for v in (True, False):
            f = st.facts.assume(t, v)
            if f is None:
                continue
            s = st.copy()
            s.facts = f
            if given:
                # holds for some of the values passed along only
                s.given = "depends on %s" % pretty(t, self.prog)[:120]
            else:
                s.conds = st.conds + ((t, v),)
            if not sure and not s.unsure:
                s.unsure = "depends on %s" % pretty(t, self.prog)[:120]
            yield s

    # ---------------------------------------------------------------- calls
    def resolve(self, t, st, depth):
        """states in which the call t has a result"""
        key = t.args[0][3:]
        sig = self.sigs[key]
        args = [self.val(a, st) for a in t.args[1:]]
        if any(k == key and self.unchanged(a, args, st) for k, a in st.stack):
            yield ("panic", self.endless(st), None)
            return
        if sig.slice is not None:
            ns = args[sig.slice]
            if ns.op == "sym" and ns in self.pos and ns not in st.m:
                for s in self.expand(st, ns):
                    yield from self.resolve(t, s, depth)
                return
            z = self.whole(ns)
            if z:
                got = self.summary(sig, z, ns, args, st, t)
                if got is not None:
                    yield from got
                    return
        n = sum(1 for k in st.opens if k == key)
        if n >= self.NEST or depth > 200:
            raise Budget("more than %d calls of %s inside each other" % (self.NEST, sig.path))
        s0 = st.copy()
        s0.opens = st.opens + (key,)
        s0.stack = st.stack + ((key, tuple(args)),)
        for kind, v, s, e in self.run_fn(key, args, s0, depth + 1):
            s = s.copy()
            s.opens, s.stack = st.opens, st.stack
            if kind == "ret":
                yield s.bind(t, v)
            else:
                # a panic of the callee is one of the caller
                yield ("panic", s, e)

    def unchanged(self, a, b, st):
        return all(x is y or self.val(x, st) is self.val(y, st) for x, y in zip(a, b))

    def endless(self, st):
        """the same again: it never ends"""
        s = st.copy()
        s.forever = True
        return s

    def whole(self, ns):
        """the rule whose nodes start the list, when nothing of them has been
        looked at but the first"""
        if ns.op != "seq" or len(ns.args[0]) != 2:
            return None
        (k1, b), (k2, r) = ns.args[0]
        if k1 != "E" or k2 != "S" or r.op != "sym" or r not in self.pos or b.op != "agg":
            return None
        if b.args[1] != self.kit.vix(FLAT, "BeginRule"):
            return None
        z = const_str(b.args[2][0])
        pos = self.pos[r]
        return z if pos and pos[-1] == self.frame(z) else None

    def mode(self, root):
        """how a function is taken where it is called on nodes of a rule"""
        sig = self.sigs[root[0]]
        if sig.closed and root not in self.open:
            return "closed"
        if root not in self.open2 and root[1] in ADDED and self.acc_of(sig):
            return "acc"
        return "inline"

    def acc_of(self, sig):
        """(argument, part of the result) of the list it adds to"""
        if sig not in self._acc:
            self._acc[sig] = None
            if sig.slice is not None and len(sig.out) == 1:
                pairs = [(i, j) for i, t in enumerate(sig.args) for j, u in enumerate(sig.parts) if t == u and i != sig.slice and self.rep(t)]
                if len(pairs) == 1:
                    i, j = pairs[0]
                    if set(sig.ctx) | {i, sig.slice} == set(range(len(sig.args))) and set(sig.vals) <= {j}:
                        self._acc[sig] = (i, j)
        return self._acc[sig]

    def summary(self, sig, z, ns, args, st, t):
        """states after a call that is taken as verified, or None"""
        root = (sig.key, z)
        mode = self.mode(root)
        if mode == "inline":
            return None
        ev = list(st.ev)
        if not ev or ev[-1] != ("B", z):
            return None
        r = ns.args[0][1][1]
        out = []
        if mode == "closed":
            sem = self.fresh_sem(z)
            vals = {}
            for j in sig.vals:
                v = self.coerce(sem, z, sig.parts[j]) if sem is not None and len(sig.vals) == 1 else None
                if v is None:
                    return None
                vals[j] = v
            out.append((sem, vals, {}))
        else:
            i, j = self.acc_of(sig)
            was = self.decode(args[i], sig.args[i])
            if was is None:
                return None
            for sem, ps, least in self.amounts(z):
                v = self.encode(concat(was, seq(ps)), sig.parts[j])
                if v is None:
                    return None
                out.append((sem, {j: v}, least))
            self.accused.add(root)
        ss = []
        for sem, vals, least in out:
            parts = [None] * len(sig.parts)
            for i, j in sig.ctx.items():
                parts[j] = args[i]
            for j, v in vals.items():
                parts[j] = v
            after = self.rest(self.pos[r][:-1], r)
            parts[sig.out[0]] = after
            s = st.bind(t, sig.pack(parts))
            s.m[r] = seq([("S", self.fresh("body")), ("S", after)])
            s.ev = tuple(ev[:-1]) + (("Z", z, sem),)
            for x, n in least.items():
                s.facts = s.facts.assume(le(I(n), slen(x)))
            ss.append(s)
        old = self.needs.get(root)
        i = len(ev) - 1
        if old is None or len(old[0]) > i:
            self.needs[root] = (tuple(ev[:i]), st)
        return ss

    # -------------------------------------------------- lists as values
    def rep(self, ti):
        """how values of this type hold a list"""
        if ti not in self._rep:
            self._rep[ti] = None
            t = self.prog.types[ti]
            p = t.get("path")
            if p == RULES_T:
                self._rep[ti] = ("rules",)
            elif p == "std::string::String":
                self._rep[ti] = ("text",)
            elif p == "std::vec::Vec" and not self.is_text(t["args"][0]):
                self._rep[ti] = ("vec",)
            elif t["k"] == "adt" and p and p.startswith(self.prog.crate + "::"):
                a = self.kit.adt(p)
                by = {}
                for i, v in enumerate(a["variants"]):
                    fs = v["fields"]
                    if not fs:
                        by["none"] = i
                    elif len(fs) == 1:
                        ft = self.prog.types[fs[0][1]]
                        if ft.get("path") == EXPR:
                            by["one"] = i
                        elif ft.get("path") == "std::vec::Vec" and self.prog.types[ft["args"][0]].get("path") == EXPR:
                            by["many"] = i
                if len(a["variants"]) > 1 and "many" in by and len(by) == len(a["variants"]):
                    self._rep[ti] = ("enum", p, by)
        return self._rep[ti]

    def is_text(self, ti):
        return self.prog.types[ti]["k"] in ("char", "u8")

    def decode(self, v, ti):
        """the list a value holds"""
        r = self.rep(ti)
        if r[0] == "rules":
            c = self.contributions(v)
            return None if c is None else seq([("S", x) if k == "set" else ("E", x) for k, x in c])
        if r[0] in ("text", "vec"):
            return seq(parts_of(v))
        if v.op != "agg" or v.args[0] != r[1]:
            return None
        for k, i in r[2].items():
            if v.args[1] == i:
                return EMPTY if k == "none" else seq([("E", v.args[2][0])]) if k == "one" else seq(parts_of(v.args[2][0]))
        return None

    def encode(self, lst, ti):
        r = self.rep(ti)
        if r[0] == "rules":
            ps = parts_of(lst) if lst.op == "seq" else [("S", lst)]
            return ps[0][1] if len(ps) == 1 and ps[0][0] == "S" else app("rules:of", seq(ps))
        if r[0] in ("text", "vec"):
            return lst
        n = self.amount(lst)
        if n not in r[2]:
            return None
        return agg(r[1], r[2][n], [] if n == "none" else [parts_of(lst)[0][1]] if n == "one" else [lst])

    def amount(self, lst):
        ps = parts_of(lst)
        if not ps:
            return "none"
        return "one" if len(ps) == 1 and ps[0][0] == "E" else "many"

    def amounts(self, z):
        """[(meaning, parts of the list, {list: least length})] of nodes of z"""
        if z in ("and", "or"):
            e = self.fresh("e", ty=self.ty_of(EXPR))
            self.info[e] = ("operand", z)
            v = self.fresh("es")
            return [(e, [("E", e)], {}), (("ops", v), [("S", v)], {v: 2})]
        x = self.fresh_sem(z)
        if z in ("rule", "mbetween"):
            return [(x, [("E", x)], {})]
        return [(x, [("S", x)], {})]

    def starts(self, ti):
        """[(list, value, {list: least length})] a list can be before"""
        r = self.rep(ti)
        v = self.fresh("l")
        if r[0] in ("rules", "text"):
            v = self.fresh("l", ty=ti if r[0] == "rules" else "str")
            return [(seq([("S", v)]), v, {})]
        e = self.fresh("e", ty=self.ty_of(EXPR))
        out = []
        for lst, least in ((EMPTY, {}), (seq([("E", e)]), {}), (seq([("S", v)]), {v: 2})):
            x = self.encode(lst, ti)
            if x is not None:
                out.append((lst, x, least))
        return out

    def list_of(self, z, items):
        """the list these nodes of a rule stand for"""
        if z in ("and", "or"):
            return seq(self.operands(("R", z, None, items)))
        if z == "grammar":
            return seq(self.given_rules(items))
        if z == "match":
            out = []
            for c in items:
                if c[0] == "G":
                    out += c[1]
                elif c[0] == "R" and c[1] == "mbetween":
                    out.append(("E", self.sem(c)))
                else:
                    raise NoMeaning(z)
            return seq(out)
        if KIND.get(z) == "text":
            return self.sem(("R", z, None, items))
        raise NoMeaning(z)

    def given_rules(self, items):
        out = []
        for c in items:
            if c[0] == "G":
                out += c[1]
            elif c[0] == "R":
                x = self.sem(c)
                if isinstance(x, tuple):
                    out += parts_of(x[1])
                else:
                    out.append(("E" if c[1] == "rule" else "S", x))
        return out

    # --------------------------------------------------- loops by induction
    def generalise(self, g, head, ps, vs, s, start):
        """forget how much was collected: None, "closed", or values and state"""
        root = self.current
        if root == "top" or s.unsure:
            return None
        z = root[1]
        rest = None
        acc = []
        same = []
        for p, v in zip(ps, vs):
            tail = v.args[0][-1][1] if v.op == "seq" and v.args[0] and v.args[0][-1][0] == "S" else v
            if tail in self.pos:
                if rest is not None or tail in s.m:
                    return None
                rest = (p, v, tail)
            elif any(x.op in ("sym", "phi") and x not in self.given for x in walk(v)):
                acc.append((p, v))
            elif v.op in ("seq", "agg", "app") and not any(x in self.given for x in walk(v)) and v is not UNIT:
                acc.append((p, v))
            else:
                same.append((p, v))
        if rest is None:
            return None
        # give back what was only looked at
        _, v, r0 = rest
        k = 0
        if v.op == "seq":
            if any(a != "E" for a, _ in v.args[0][:-1]):
                return None
            k = len(v.args[0]) - 1
        for _ in range(k):
            r0 = self.up.get(r0)
            if r0 is None:
                return None
        pos = self.pos[r0]
        if len(pos) != 1 or pos[0][0] != z:
            return None
        ev = s.ev[: len(s.ev) - k] if k else s.ev
        items = self.tree(ev[1:])
        if items is None or not items:
            return None
        at = self.boundaries(ev)
        full = self.lam is not None
        for i in range(len(items)):
            try:
                lst = canon(self.list_of(z, items[i:]))
            except NoMeaning:
                continue
            if full and i == 0 and items[0][0] != "G":
                lst = concat(self.lam, lst)
            if self.amount(lst) == "none":
                break
            ok = bool(acc)
            for p, v in acc:
                ti = self.phi_type(g, p)
                d = self.decode(v, ti) if ti is not None and self.rep(ti) else None
                if d is None or canon(d) is not lst:
                    ok = False
                    break
            if not ok:
                continue
            many = self.amount(lst)
            parts, least = self.some_list(z, many)
            keep = ev[: at[i]]
            key = (g.fn, head, pos, keep, many if z in ("and", "or") else "", tuple(same))
            if key in start[1]:
                return "closed"
            start[1].add(key)
            s0 = start[0]
            s2 = s0.copy()
            s2.opens = s.opens
            s2.ev = keep + (("G", tuple(parts), ev[at[i] :]),)
            s2.given = s.given
            s2.dead = s0.dead | frozenset(x for x in s.m if x in self.pos and x not in s0.m) | {r0}
            for x, n in least.items():
                s2.facts = s2.facts.assume(le(I(n), slen(x)))
            new = dict(same)
            new[rest[0]] = self.rest(pos)
            for p, v in acc:
                new[p] = self.encode(seq(parts), self.phi_type(g, p))
                if new[p] is None:
                    return None
            return [new[p] for p in ps], s2
        return None

    def some_list(self, z, many):
        if z in ("and", "or"):
            if many == "one":
                e = self.fresh("e", ty=self.ty_of(EXPR))
                return [("E", e)], {}
            v = self.fresh("es")
            return [("S", v)], {v: 2}
        v = self.fresh("l", ty="str" if KIND.get(z) == "text" else self.ty_of(RULES_T) if z == "grammar" else None)
        return [("S", v)], {v: 1} if z == "match" else {}

    def phi_type(self, g, p):
        t = p.ty
        return t if isinstance(t, int) else None

    def boundaries(self, ev):
        """where each child starts in the events"""
        out = []
        d = 0
        for i, e in enumerate(ev):
            if i == 0:
                continue
            if d == 0 and e[0] != "E":
                out.append(i)
            d += {"B": 1, "E": -1}.get(e[0], 0)
        return out

    def run_fn(self, key, args, st, depth):
        g = self.ctx.graph(key, cut=self.cut)
        self.functions.add(self.prog.raw[key]["path"])
        if g.stuck:
            s = st.copy()
            s.unsure = "%s: %s" % (self.prog.raw[key]["path"], g.stuck[0])
            yield "ret", self.fresh("unknown"), s, None
            return
        env = dict(zip(g.params, args))
        yield from self.at(g, g.entry, env, st, depth, {"start": (st, set())})

    def at(self, g, edges, env, st, depth, turns):
        for kind, e, s in self.choose([(e, 0) for e in edges], env, st, depth):
            if kind == "panic":
                yield "panic", None, s, e
                continue
            if e is None or e.kind == "stuck":
                s = s.copy()
                s.unsure = s.unsure or "nothing is known of %s here" % g.fn
                yield "ret", self.fresh("unknown"), s, e
            elif e.kind == "panic":
                yield "panic", None, s, e
            elif e.kind == "ret":
                for v, s2 in self.force([e.value], env, s, depth):
                    if isinstance(v, str):
                        yield "panic", None, s2[0], s2[1]
                    else:
                        yield "ret", v[0], s2, e
            elif e.kind == "head":
                n = turns.get(e.target, 0) + 1
                if n > self.TURNS + 1:
                    raise Budget("more than %d turns of a loop in %s" % (self.TURNS, self.prog.raw[self.current[0] if self.current != "top" else self.topkey]["path"]))
                t2 = dict(turns)
                t2[e.target] = n
                ps = list(e.binds)
                for v, s2 in self.force([e.binds[p] for p in ps], env, s, depth):
                    if isinstance(v, str):
                        yield "panic", None, s2[0], s2[1]
                        continue
                    if n > 1 and self.unchanged([env[p] for p in ps], v, s2):
                        yield "panic", None, self.endless(s2), e
                        continue
                    if self.gen:
                        r = self.generalise(g, e.target, ps, v, s2, turns["start"])
                        if r == "closed":
                            continue
                        if r is not None:
                            v, s2 = r
                    env2 = dict(env)
                    env2.update(zip(ps, v))
                    try:
                        yield from self.at(g, g.heads[e.target].edges, env2, s2, depth, t2)
                    except Budget as b:
                        self.cutoff(str(b))

    def cutoff(self, why):
        self.bounded.setdefault(self.current, set()).add(why)

    def choose(self, cands, env, st, depth):
        """the edges that are taken: (kind, edge, state)"""
        self.work += 1
        if self.limit is not None and self.work > self.limit:
            raise OutOfWork()
        while True:
            live = []
            first = None
            for e, i in cands:
                t = None
                while i < len(e.guards):
                    c, v = e.guards[i]
                    t = self.val(subst(c, env), st)
                    r = t.args[0] if t.op == "bool" else st.facts.eval(t)
                    if r is None:
                        break
                    if r != v:
                        t = False
                        break
                    i += 1
                if t is False:
                    continue
                if i == len(e.guards):
                    yield "edge", e, st
                    return
                if first is None:
                    first = t
                live.append((e, i))
            if not live:
                yield "edge", None, st
                return
            for s in self.within(self.demand(first, st, depth)):
                if isinstance(s, tuple):
                    yield "panic", s[2], s[1]
                else:
                    yield from self.choose(live, env, s, depth)
            return

    def within(self, it):
        """as many of these as fit into the bounds"""
        while True:
            try:
                s = next(it)
            except StopIteration:
                return
            except Budget as b:
                self.cutoff(str(b))
                return
            yield s

    def force(self, ts, env, st, depth):
        """values without calls"""
        vs = [self.val(subst(t, env), st) for t in ts]
        for v in vs:
            c = self.calls_in(v)
            if c is not None:
                break
        else:
            yield vs, st
            return
        for s in self.within(self.resolve(c, st, depth)):
            if isinstance(s, tuple):
                yield "panic", (s[1], s[2])
            else:
                yield from self.force(ts, env, s, depth)

    # -------------------------------------------------------------- meaning
    def fresh_sem(self, z):
        k = KIND.get(z)
        if k is None:
            return None
        if k == "text":
            v = self.fresh("t", ty="str")
            self.info[v] = ("sem", z)
            if z in VERBATIM:
                n = self.gram.mint.get(z)
                v.ty = "str"
            return v
        if k == "pair":
            c = self.fresh("c", ty="char"), self.fresh("c", ty="char")
            for x in c:
                self.info[x] = ("char", ((0, gramnfa.MAXC),))
            return tup(*c)
        if k == "def":
            t = self.fresh("t", ty="str")
            self.info[t] = ("sem", "rule_name")
            e = self.fresh("e", ty=self.ty_of(EXPR))
            self.info[e] = ("expr", "expr")
            return tup(t, e)
        if k == "expr":
            e = self.fresh("e", ty=self.ty_of(EXPR))
            self.info[e] = ("expr", z)
            return e
        if k == "rules":
            return self.fresh("r", ty=self.ty_of(RULES_T))
        return UNIT

    def ty_of(self, path):
        for i, t in enumerate(self.prog.types):
            if t["k"] == "adt" and t["path"] == path:
                return i
        return None

    def coerce(self, sem, z, ti):
        """the meaning of a node of rule z as a value of this type"""
        k = KIND.get(z)
        t = self.prog.types[self.prog.strip(ti)]
        path = t.get("path")
        if t["k"] == "tuple" and not t["es"]:
            return UNIT
        if k == "text":
            if t["k"] == "str" or path == "std::string::String":
                return sem
            if path == EXPR and z in ("literal", "lit_esc", "lit_noesc"):
                return self.atom("Literal", sem)
            if path == EXPR and z == "rule_name":
                return self.kit.new(EXPR, "RuleName", sem)
            return None
        if k == "pair" and t["k"] == "tuple" and len(t["es"]) == 2 and all(self.prog.types[x]["k"] == "char" for x in t["es"]):
            return sem
        if k == "def" and t["k"] == "tuple" and len(t["es"]) == 2:
            a, b = (self.prog.types[self.prog.strip(x)] for x in t["es"])
            if b.get("path") == EXPR and (a["k"] == "str" or a.get("path") == "std::string::String"):
                return sem
            return None
        if k == "expr" and path == EXPR:
            return sem
        if k == "rules" and path == RULES_T:
            return sem
        return None

    def atom(self, variant, *fs):
        return self.kit.new(EXPR, "Simple", self.kit.new(ATOM, variant, *fs))

    def multi(self, op, xs):
        if self.amount(xs) == "one":
            return parts_of(xs)[0][1]
        return self.kit.new(EXPR, op, self.kit.new(MULTI, None, xs))

    def tree(self, ev):
        """events to nested children: ("V", term) ("R", name, sem, children)"""
        st = [[]]
        names = []
        for e in ev:
            if e[0] == "B":
                names.append(e[1])
                st.append([])
            elif e[0] == "E":
                if not names:
                    return None
                c = st.pop()
                st[-1].append(("R", names.pop(), None, c))
            elif e[0] == "Z":
                st[-1].append(("R", e[1], e[2], None))
            else:
                st[-1].append(e)
        return st[0] if not names else None

    def sem(self, node):
        """what the documentation says the nodes of a rule mean"""
        _, z, known, kids_ = node
        if isinstance(known, tuple):
            return self.multi("And" if z == "and" else "Or", seq(self.operands(node)))
        if known is not None:
            return known
        if any(c[0] == "G" for c in kids_) and z not in LISTS:
            raise NoMeaning("any number of nodes in %s" % z)
        K = self.kit
        rs = [c for c in kids_ if c[0] == "R"]
        vs = [c[1] for c in kids_ if c[0] == "V"]

        def only(*names):
            got = [c for c in rs if KIND.get(c[1]) != "none"]
            if len(got) != 1 or (names and got[0][1] not in names):
                raise NoMeaning("%s of %s" % (z, ", ".join(c[1] for c in rs)))
            return got[0]

        def texts(*names):
            out = []
            for c in kids_:
                if c[0] == "V":
                    out.append(c[1])
                elif c[0] == "G":
                    out.append(seq(c[1]))
                elif KIND.get(c[1]) == "none":
                    continue
                elif c[1] in names:
                    out.append(self.sem(c))
                else:
                    raise NoMeaning("%s with %s" % (z, c[1]))
            return concat(*out)

        if z in ("symbol", "mchars"):
            return texts()
        if z == "rule_name":
            return texts("symbol")
        if z == "mod_name":
            return self.sem(only("symbol"))
        if z == "esc_char":
            w = const_str(texts())
            if w not in ESC:
                raise NoMeaning("escape %r" % w)
            return S(ESC[w])
        if z == "hex_char":
            w = const_str(texts())
            m = re.match(r"\\0x([0-9A-Fa-f]{2})$", w or "")
            if not m:
                raise NoMeaning("escape %r" % w)
            return S(chr(int(m.group(1), 16)))
        if z == "lit_noesc":
            return texts()
        if z == "lit_esc":
            return texts("esc_char", "hex_char")
        if z == "literal":
            return self.sem(only("lit_esc", "lit_noesc"))
        if z == "mbetween":
            t = texts()
            if t.op != "seq":
                raise NoMeaning("range %s" % t)
            return tup(nth(t, ZERO), nth(t, I(2)))
        if z == "error":
            return self.atom("Error", self.sem(only("literal")))
        if z == "dot":
            return self.atom("Dot")
        if z == "match":
            cs = [self.sem(c) for c in rs if c[1] == "mchars"]
            bs = [c for c in kids_ if c[0] == "G" or (c[0] == "R" and c[1] != "mchars")]
            if len(cs) > 1:
                raise NoMeaning("match of %s" % ", ".join(c[1] for c in rs))
            return self.atom("Match", K.new(MATCH, None, cs[0] if cs else EMPTY, self.list_of(z, bs)))
        if z == "atom":
            c = only("literal", "match", "rule_name", "dot")
            x = self.sem(c)
            if c[1] == "literal":
                return self.atom("Literal", x)
            if c[1] == "rule_name":
                return K.new(EXPR, "RuleName", x)
            return x
        if z in ("parenth", "atom_or_par", "expr"):
            return self.sem(only({"parenth": "expr", "expr": "or"}.get(z, "atom"), "parenth"))
        if z == "rep_or_neg":
            x = self.sem(only("atom_or_par"))
            w = [const_str(v) for v in vs]
            if not w:
                return x
            neg = kids_[0][0] == "V"
            if len(w) == 1 and neg and w[0] == "!":
                return K.new(EXPR, "Not", x)
            b = {"*": (0, None), "+": (1, None), "?": (0, 1)}.get(w[0]) if len(w) == 1 and not neg else None
            if b is None:
                raise NoMeaning("operator %s" % w)
            mx = K.NONE if b[1] is None else K.some(K.new(NREP, None, I(b[1])))
            return K.new(EXPR, "Repeat", K.new(REP, None, expression=x, min=K.new(NREP, None, I(b[0])), max=mx))
        if z in ("and", "or"):
            return self.multi("And" if z == "and" else "Or", seq(self.operands(node)))
        if z == "rule":
            got = [c[1] for c in rs]
            if got != ["rule_name", "expr"] or [const_str(v) for v in vs] != ["="]:
                raise NoMeaning("rule of %s" % ", ".join(got))
            return tup(self.sem(rs[0]), self.sem(rs[1]))
        if z == "module":
            return self.sem([c for c in rs if c[1] == "grammar"][0])
        if z == "main":
            return self.sem(only("grammar"))
        if z == "grammar":
            return ("rules", seq(self.given_rules(kids_)))
        raise NoMeaning("rule %s" % z)

    def operands(self, node):
        """of a choice or a sequence written as a chain"""
        _, z, known, kids_ = node
        if known is not None:
            return [("S", known[1])] if isinstance(known, tuple) else [("E", known)]
        out = []
        for c in kids_:
            if c[0] == "G":
                out += c[1]
            if c[0] != "R":
                continue
            if c[1] == z:
                out += self.operands(c)
            else:
                out.append(("E", self.sem(c)))
        return out

    # --------------------------------------------------------------- proving
    def run(self):
        self.results = {}
        self.bounded = {}
        self.functions = set()
        self.current = None
        self.because = {}
        self.tries = {}
        self.pending = []
        for n in range(400):
            # what is called from the start on
            self.parent = {}
            order = ["top"]
            for r in order:
                for x, how in self.results.get(r, {}).get("needs", {}).items():
                    if x not in self.parent:
                        self.parent[x] = (r,) + how
                        order.append(x)
            todo = [r for r in order if r not in self.results]
            if not todo:
                break
            self.again = []
            self.verify(todo[0])
            for x in self.again:
                self.because[x] = set(self.needs) - {x}
            # what was opened for what was expected of these gets another try
            for y in [y for y in self.open2 if y not in self.again and self.because[y] & set(self.again)]:
                self.tries[y] = self.tries.get(y, 0) + 1
                if self.tries[y] <= 3:
                    self.open2.discard(y)
                    self.again.append(y)
            # those that took it as specified have to look into it
            for x in self.again:
                self.results.pop(x, None)
                for r in [r for r, v in self.results.items() if x in v["needs"]]:
                    self.results.pop(r)
        else:
            raise Opaque("the functions do not take whole rules")
        rs = self.results = {r: self.results[r] for r in order}
        self.fails = [x for r in rs.values() for x in r["fails"]]
        self.values = [x for r in rs.values() for x in r["values"]]
        self.undec = [x for r in rs.values() for x in r["undec"]]
        self.bounded = {r: x["bounded"] for r, x in rs.items() if x["bounded"]}
        return self

    def rootname(self, root):
        if root == "top":
            return "the whole conversion"
        return "%s on nodes of %s" % (self.prog.raw[root[0]]["path"], root[1])

    def verify(self, root):
        self.current = root
        self.accused = set()
        # any number of nodes, by induction
        self.gen = True
        self.maxev = 24
        try:
            n = self.explore(root, 3000)
        except Lost:
            n = None
        if self.again:
            return
        f = self.found
        if n is not None and root not in self.bounded and not f["fails"] and not f["undec"] and all(v[6] == "same" for v in f["values"]):
            self.results[root] = dict(f, paths=n, bounded=None, needs=self.needs)
            return
        if root != "top" and self.mode(root) == "acc":
            self.open2.add(root)
            self.again = [root]
            return
        for x in sorted(self.accused, key=str):
            # those that collect are judged first
            if x not in self.results and x not in self.pending:
                self.pending.append(x)
                self.verify(x)
                self.pending.remove(x)
                if not self.again:
                    self.verify(root)
                return
        if self.accused:
            # look into the functions that collect
            self.open2 |= self.accused
            self.again = sorted(self.accused, key=str)
            return
        # deeper and deeper, as long as it fits
        self.gen = False
        best = None
        for step in self.STEPS:
            self.maxev = step
            n = self.explore(root, self.WORK[self.ctx.tier] if best and best[0] else None)
            if self.again:
                return
            if n is None:
                # what was found on the way is true all the same
                best[2]["fails"] += self.found["fails"]
                best[2]["values"] += [v for v in self.found["values"] if v[6] == "differ"]
                break
            best = (n, step, self.found, self.bounded.get(root), self.needs)
            if root not in self.bounded:
                break
        n, step, found, why, needs = best
        self.results[root] = dict(found, paths=n, bounded=why, needs=needs)

    def explore(self, root, limit):
        """the number of paths, None when it takes more decisions"""
        self.work, self.limit = 0, limit
        self.found = {"fails": [], "values": [], "undec": []}
        self.needs = {}
        self.bounded.pop(root, None)
        self.lam = None
        if root == "top":
            sig = self.sigs[self.topkey]
            r0 = self.rest((("$", "main", True),))
            args = [r0 if i == sig.slice else a for i, a in enumerate(self.top.args[1:])]
            return self.explore1(root, sig, "main", args, St())
        key, z = root
        sig = self.sigs[key]
        ns = seq([("E", self.node("BeginRule", S(z))), ("S", self.rest((self.frame(z),)))])
        args = [ns if i == sig.slice else self.fresh("ctx", ty=self.prog.tag(t)) for i, t in enumerate(sig.args)]
        self.given |= set(args) - {ns}
        st = St()
        st.ev = (("B", z),)
        if self.mode(root) == "closed":
            return self.explore1(root, sig, z, args, st)
        n = 0
        i, j = self.acc_of(sig)
        for lst, v, least in self.starts(sig.args[i]):
            self.lam = lst
            args[i] = v
            s = st.copy()
            for x, k in least.items():
                s.facts = s.facts.assume(le(I(k), slen(x)))
            m = self.explore1(root, sig, z, list(args), s)
            if m is None or self.again:
                return m
            n += m
        return n

    def explore1(self, root, sig, z, args, st):
        st.opens = (sig.key,)
        st.stack = ((sig.key, tuple(args)),)
        n = 0
        try:
            for kind, v, s, e in self.run_fn(sig.key, args, st, 0):
                n += 1
                self.outcome(root, sig, z, kind, v, s, e, args)
                if self.again:
                    return 0
        except Budget as b:
            self.cutoff(str(b))
        except OutOfWork:
            return None
        return n

    def reopen(self, root, why):
        if root == "top":
            return False
        (self.open if self.mode(root) == "closed" else self.open2).add(root)
        self.again = [root]
        return True

    def value(self, root, z, s, got, ti, where):
        r, d = self.judge(root, z, s, got, ti)
        self.found["values"].append((root, z, s, got, ti, where, r, d))

    def outcome(self, root, sig, z, kind, v, s, e, args):
        if s.beyond and self.reopen(root, "looks beyond"):
            return
        if s.unsure:
            self.found["undec"].append("%s: %s" % (self.rootname(root), s.unsure))
            return
        where = where_str(e.where) if e is not None else "?"
        if s.given and kind == "panic" and self.reopen(root, s.given):
            return
        if kind == "panic":
            self.found["fails"].append(Fail("panic", root, s, "never returns" if s.forever else "panics", where))
            return
        if root == "top" and not sig.out:
            # the result is all there is
            if v.op == "agg" and v.args[0] == RES and v.args[1] == 1:
                self.found["fails"].append(Fail("err", root, s, "fails: %s" % self.why(v), where))
            elif v.op == "agg" and v.args[0] == RES:
                self.value(root, z, s, v.args[2][0], sig.parts[0], where)
            else:
                self.found["undec"].append("%s returns %s" % (self.rootname(root), pretty(v, self.prog)[:160]))
            return
        if sig.fallible:
            if v.op != "agg" or v.args[0] != RES:
                self.found["undec"].append("%s returns %s" % (self.rootname(root), pretty(v, self.prog)[:160]))
                return
            if v.args[1] == 1:
                if s.given and self.reopen(root, s.given):
                    return
                self.found["fails"].append(Fail("err", root, s, "fails: %s" % self.why(v), where))
                return
            v = v.args[2][0]
        parts = [v]
        if sig.tuple:
            n = len(sig.parts)
            parts = [self.val(fld(v, 0, i, "tuple", n), s) for i in range(n)]
        rest = parts[sig.out[0]] if len(sig.out) == 1 else None
        if root != "top":
            if rest is None or rest.op != "sym" or self.pos.get(rest) != ():
                if not self.reopen(root, "does not take exactly the rule"):
                    self.found["undec"].append("%s: takes %s" % (self.rootname(root), rest))
                return
            acc = self.acc_of(sig) if self.mode(root) == "acc" else None
            if acc:
                try:
                    t = self.tree(s.ev)[0]
                    if z in ("and", "or"):
                        lst = seq(self.operands(t))
                    else:
                        x = self.sem(t)
                        lst = x[1] if isinstance(x, tuple) else seq([("E" if z in ("rule", "mbetween") else "S", x)])
                    if not t[3] or t[3][0][0] != "G":
                        lst = concat(self.lam, lst)
                    d = self.decode(parts[acc[1]], sig.parts[acc[1]])
                    ok = d is not None and canon(d) is canon(lst)
                except NoMeaning:
                    ok = False
                if not ok:
                    self.reopen(root, "collects something else")
                    return
            for i, j in sig.ctx.items():
                if acc and j == acc[1]:
                    continue
                if not self.same(parts[j], args[i]):
                    self.reopen(root, "changes what it passes along")
                    return
        if root != "top" and self.mode(root) == "acc":
            self.found["values"].append((root, z, s, parts[acc[1]], sig.parts[acc[1]], where, "same", ""))
            return
        for j in sig.vals:
            if len(sig.vals) == 1:
                self.value(root, z, s, parts[j], sig.parts[j], where)

    def same(self, a, b):
        """equal, up to taking apart and putting together"""
        if a is b:
            return True
        if a.op == "agg" and a.args[0] != "tuple":
            fs = a.args[2]
            return len(self.kit.adt(a.args[0])["variants"]) == 1 and all(self.same(x, fld(b, a.args[1], i, a.args[0], len(fs))) for i, x in enumerate(fs))
        return False

    def why(self, v):
        ts = []
        for x in walk(v):
            if x.op == "seq" and x.args[0] and x.args[0][0][0] == "L":
                ts.append("".join(p if k == "L" else ".." for k, p in x.args[0]))
        return " > ".join(reversed(ts[:3]))[:160] if ts else str(v)[:120]

    # -------------------------------------------------------------- samples
    def symbols(self, ts, conds):
        """the symbols to find values for: expressions only where it matters"""
        out = {}
        for i, t in enumerate(ts + conds):
            for x in walk(t):
                if x.op == "sym" and x in self.info and (i >= len(ts) or self.info[x][0] not in ("expr", "operand")):
                    out[x] = True
        return sorted(out, key=lambda x: x.id)

    def consts(self, ts):
        out = []
        for t in ts:
            for x in walk(t):
                if x.op == "seq":
                    c = const_str(x)
                    if c and c not in out:
                        out.append(c)
        return out

    def telling(self, ts):
        """texts on which the functions of texts in the terms do something"""
        out = []
        for t in ts:
            for x in walk(t):
                if x.op != "app" or not isinstance(x.args[0], str):
                    continue
                if x.args[0] == "trimmed":
                    out += [" ", " a", "a "]
                elif x.args[0].endswith("case"):
                    out += ["a", "A"]
                elif STRFN.match(x.args[0]) or x.args[0][:7] == "trimmed":
                    for p in x.args[2:3]:
                        p = canon(p)
                        c = const_str(p) if p.op == "seq" else chr(p.args[0]) if p.op == "int" else None
                        if c:
                            out += [c, "a" + c + "a", c + c]
        return list(dict.fromkeys(out))

    def candidates(self, x, extra):
        """[(value, text)] a symbol can stand for"""
        i = self.info[x]
        if i[0] == "char":
            return [(I(c), chr(c)) for c in gramnfa.reps(i[1])]
        if i[0] == "word":
            a = self.gram.nfa[i[1]]
            ws = [w for w in extra if a.accepts(i[2], i[3], w)]
            ws += [w for w in a.words(i[2], i[3], 8) if w not in ws]
            return [(S(w), w) for w in ws]
        if i[0] == "operand":
            return [c for c in self.meanings(i[1]) if c[2] == 1]
        if KIND.get(i[1]) == "text" and extra:
            return self.quoted(i[1], extra) + self.meanings(i[1])
        return self.meanings(i[1])

    def quoted(self, z, ws):
        """the rule's texts for some contents, plain or in quotes"""
        out = []
        for w in ws:
            for t in (w, "'%s'" % w, '"%s"' % w):
                try:
                    v, n = self.text_meaning(z, t)
                except NoMeaning:
                    v = None
                if v is not None and all(v is not o[0] for o in out):
                    out.append((v, t, n))
        return out

    # expressions to try, as they are written
    SAMPLES = [
        b % a
        for a in ("a", "'a'", '"a"', "[a]", "[a-b]", ".", "!a", "a*", "a+", "a?", "a b", "a/b", "a b c", "a/b/c", "!!a", "(a b)*", "(!a)+", "(a*)*", "(a+)+")
        for b in ("%s", "(%s)", "!(%s)", "(%s)*", "(%s) b", "(%s)/b", "((%s))")
    ] + ['error("a")']

    def meanings(self, z):
        """[(meaning, text, operands)] of some texts of a rule"""
        if z not in self._mean:
            out = []
            for w in self.SAMPLES if KIND.get(z) == "expr" else self.gram.texts(z, 14):
                try:
                    v, n = self.text_meaning(z, w)
                except NoMeaning:
                    v = None
                if v is not None and all(v is not o[0] or n != o[2] for o in out):
                    out.append((v, w, n))
            self._mean[z] = out
        return self._mean[z]

    _mean = {}

    def text_meaning(self, z, w):
        t = self.gram.parse(w, z)
        if t is None:
            return None, 0

        def conv(n):
            kids_ = []
            for x in self.gram.tokens(n):
                kids_.append(("V", S(x)) if isinstance(x, str) else conv2(x))
            return ("R", n[0], None, kids_)

        def conv2(x):
            return ("R", x[0], None, [("V", S(y)) if isinstance(y, str) else conv2(y) for y in x[1]])

        t = conv(t)
        v = self.sem(t)
        n = len(self.operands(t)) if z in ("and", "or") else 1
        return (canon(v) if isinstance(v, T) else None), n

    def assignments(self, ts, conds, limit=3000):
        """values for the symbols under which the conditions hold"""
        xs = self.symbols(list(ts), [c for c, _ in conds])
        extra = self.consts([c for c, _ in conds]) + self.telling(ts)
        cs = []
        for x in xs:
            c = self.candidates(x, extra)
            if not c:
                return
            cs.append(c)
        at = [[] for _ in range(len(xs) + 1)]
        for c, v in conds:
            inside = set(walk(c))
            at[max([i + 1 for i, x in enumerate(xs) if x in inside] or [0])].append((c, v))
        left = [0]

        def go(i, m, t, turn):
            if left[0] <= 0:
                return
            left[0] -= 1
            if not all(self.ground(c, m) is B(v) for c, v in at[i]):
                return
            if i == len(xs):
                yield dict(m), dict(t)
                return
            k = (i * (turn + 1) + turn) % len(cs[i])
            # different symbols get different values first
            for c in cs[i][k:] + cs[i][:k]:
                m[xs[i]], t[xs[i]] = c[0], c[1]
                yield from go(i + 1, m, t, turn)
                del m[xs[i]], t[xs[i]]

        if not xs:
            if all(self.ground(c, {}) is B(v) for c, v in at[0]):
                yield {}, {}
            return
        for turn in range(8):
            left[0] = limit // 8
            yield from go(0, {}, {}, turn)

    def ground(self, t, m):
        st = St()
        st.m = m
        return self.val(t, st)

    # ------------------------------------------------------------- witnesses
    def tokens(self, ev, texts, hole=None):
        """events of one rule (begin first) as tokens to realise; the part not
        reached is left open"""
        out = [[]]
        names = []
        for e in ev[1:]:
            if e[0] == "B":
                names.append(e[1])
                out.append([])
            elif e[0] == "E":
                if names:
                    c = out.pop()
                    out[-1].append(("T", names.pop(), c))
            elif e[0] == "Z":
                out[-1].append(("Z", e[1], self.text_of(e, texts)))
            elif e[0] == "V":
                out[-1].append(("V", const_str(canon(subst(e[1], texts["m"])))))
        done = len(ev) > 1 and ev[-1][0] == "E" and not names
        if hole is not None:
            out[-1].append(hole)
        if not done:
            while names:
                c = out.pop()
                out[-1].append(("T", names.pop(), c + [None]))
            out[-1].append(None)
        return out[0]

    def text_of(self, e, texts):
        _, z, sem = e
        k = KIND.get(z)
        t = texts["t"]
        if isinstance(sem, T) and sem in t:
            return t[sem]
        if k == "pair":
            return "".join(chr(subst(x, texts["m"]).args[0]) if subst(x, texts["m"]).op == "int" else "a" for x in sem.args[2][:1]) + "-" + (
                chr(subst(sem.args[2][1], texts["m"]).args[0]) if subst(sem.args[2][1], texts["m"]).op == "int" else "z"
            )
        if k == "def":
            name, e = sem.args[2]
            toks = [("Z", "rule_name", t.get(name, "a")), ("V", "="), ("Z", "expr", t[e])] if e in t else [("Z", "rule_name", t.get(name, "a")), None]
            for r in self.gram.realise(z, toks):
                return r
        i = texts["alt"] % max(1, len(self.gram.texts(z, 4)))
        ts = self.gram.texts(z, 4)
        return ts[i] if ts else self.gram.mint.get(z, "")

    def unfold(self, ev):
        """events with the nodes a generalisation was made from"""
        out = ()
        for e in ev:
            out += self.unfold(e[2]) if e[0] == "G" else (e,)
        return out

    def witness(self, root, st, ts=(), want=None):
        """a grammar text on which this path is taken, or None"""
        n = 0
        ev = self.unfold(st.ev)
        for m, t in self.assignments(list(ts) + [x for e in ev for x in e[1:] if isinstance(x, T)], st.conds):
            if want is not None and not want(m):
                continue
            for alt in range(3):
                texts = {"m": m, "t": t, "alt": alt}
                z = "main" if root == "top" else root[1]
                toks = self.tokens(ev, texts)
                if any(x[0] == "V" and x[1] is None for x in flat_tokens(toks)):
                    return None
                for inner in itertools.islice(self.gram.realise(z, toks), 3):
                    for whole in self.embed(root, inner):
                        n += 1
                        if n > 150:
                            return None
                        tree = self.gram.parse(whole)
                        if tree is None:
                            continue
                        for nd in nodes_named(tree, z):
                            if whole[nd[2] : nd[3]] == inner and fits(self.gram.tokens(nd), toks):
                                return whole
        return None

    def embed(self, root, inner, depth=0):
        """grammar texts with this text where the function is called"""
        if root == "top":
            yield inner
            return
        if depth > 30 or root not in self.parent:
            return
        proot, ev, pst = self.parent[root]
        ev = self.unfold(ev)
        if not ev:
            # hands its nodes on as they are
            yield from self.embed(proot, inner, depth + 1)
            return
        z = "main" if proot == "top" else proot[1]
        k = 0
        for m, t in self.assignments([x for e in ev for x in e[1:] if isinstance(x, T)], pst.conds, 20):
            k += 1
            if k > 2:
                return
            toks = self.tokens(ev, {"m": m, "t": t, "alt": 0}, ("Z", root[1], inner))
            for o in itertools.islice(self.gram.realise(z, toks), 2):
                yield from self.embed(proot, o, depth + 1)

    # ------------------------------------------------------------- judgement
    def expected(self, z, s):
        t = self.tree(s.ev)
        if t is None or len(t) != 1:
            raise NoMeaning("nodes of %s" % z)
        return self.sem(t[0])

    def rules_term(self, x):
        """("rules", ...) as the list of what has to be in the set"""
        return x

    def contributions(self, v):
        """what was put into a set of rules, in order; None when not known"""
        if v.op == "app" and isinstance(v.args[0], str) and v.args[0].startswith("fn:"):
            n = self.rulefns.get(v.args[0][3:])
            if n == "add":
                a = self.contributions(v.args[1])
                return None if a is None else a + [("rule", tup(v.args[2], v.args[3]))]
            if n == "merge":
                a, b = self.contributions(v.args[1]), self.contributions(v.args[2])
                return None if a is None or b is None else a + b
            return None
        if v.op == "app" and v.args[0] == "rules:of":
            return [("set" if k == "S" else "rule", x) for k, x in v.args[1].args[0]]
        if v.op == "app" and v.args[0] == "map:new":
            return []
        if v.op == "app" and v.args[0] == "map:insert":
            a = self.contributions(v.args[1])
            return None if a is None else a + [("rule", tup(v.args[2], v.args[3]))]
        if v.op == "agg" and v.args[0] == RULES_T and len(v.args[2]) == 1:
            return self.contributions(v.args[2][0])
        if v.op == "sym":
            return [("set", v)]
        return None

    def judge(self, root, z, s, got, ti):
        """("same"|"differ"|"unknown", text)"""
        try:
            want = self.expected(z, s)
        except NoMeaning as x:
            return "unknown", "no documented meaning: %s" % x
        if isinstance(want, tuple):
            c = self.contributions(got)
            w = [("set" if k == "S" else "rule", canon(x)) for k, x in parts_of(want[1])]
            if c is None:
                return "unknown", "set of rules %s" % pretty(got, self.prog)[:160]
            c = [(k, canon(v)) for k, v in c]
            if c == w:
                return "same", ""
            if sorted(c, key=str) == sorted(w, key=str):
                return "unknown", "rules added in another order"
            if all(ground(v) for _, v in c):
                return "differ", (c, w, None)
            return "unknown", "set of rules %s" % pretty(got, self.prog)[:160]
        if KIND.get(z) == "rules":
            # one set of rules, handed on
            if got is want:
                return "same", ""
            c = self.contributions(got)
            if c == [("set", want)]:
                return "same", ""
            if c is not None and ("set", want) not in c:
                return "differ", (got, want, None)
            return "unknown", "set of rules %s" % pretty(got, self.prog)[:160]
        w = self.coerce(want, z, ti)
        if w is None:
            return "unknown", "a %s where a %s is meant" % (self.prog.types[ti]["s"], KIND.get(z))
        a, b = canon(got), canon(w)
        if a is b:
            return "same", ""
        if ground(a) and ground(b) and flat_ops(a, self.kit) is flat_ops(b, self.kit) and not single(a, b, self.kit):
            return "unknown", "operands nested in another way"
        differs = lambda m: (lambda x, y: x is not y and ground(x) and ground(y))(canon(self.ground(a, m)), canon(self.ground(b, m)))
        for m, _ in self.assignments([a, b], s.conds):
            if differs(m):
                return "differ", (canon(self.ground(a, m)), canon(self.ground(b, m)), differs)
        return "unknown", "%s where %s is meant" % (pretty(a, self.prog)[:200], pretty(b, self.prog)[:200])


def single(a, b, kit):
    """does one have a choice or sequence of one operand the other has not?"""

    def ones(t):
        n = 0
        for x in walk(t):
            if x.op == "agg" and x.args[0] == MULTI and x.args[2][0].op == "seq" and len(x.args[2][0].args[0]) == 1:
                n += 1
        return n

    return ones(a) != ones(b)


def flat_ops(t, kit):
    ms = {kit.vix(EXPR, "And"), kit.vix(EXPR, "Or")}

    def go(x):
        x = rebuild(x, go)
        if x.op == "agg" and x.args[0] == EXPR and x.args[1] in ms:
            inner = x.args[2][0]
            if inner.op == "agg" and inner.args[2][0].op == "seq":
                out = []
                for k, v in inner.args[2][0].args[0]:
                    if k == "E" and v.op == "agg" and v.args[0] == EXPR and v.args[1] == x.args[1]:
                        out.extend(parts_of(v.args[2][0].args[2][0]))
                    else:
                        out.append((k, v))
                return agg(EXPR, x.args[1], [agg(MULTI, 0, [seq(out)])])
        return x

    return go(t)


def canon(t):
    """characters in texts as text"""

    def go(x):
        x = rebuild(x, go)
        if x.op == "seq" and any(k == "E" and v.op == "int" for k, v in x.args[0]):
            return seq([("L", chr(v.args[0])) if k == "E" and v.op == "int" and 0 <= v.args[0] <= gramnfa.MAXC else (k, v) for k, v in x.args[0]])
        return x

    return go(t)


def ground(t):
    return all(x.op in ("agg", "seq", "int", "bool", "sym") for x in walk(t))


def flat_tokens(toks):
    for t in toks:
        if t is None:
            continue
        if t[0] == "T":
            yield from flat_tokens(t[2])
        else:
            yield t


def nodes_named(n, name):
    if n[0] == name:
        yield n
    for x in n[1]:
        if not isinstance(x, str):
            yield from nodes_named(x, name)


def fits(have, want):
    """does the list of nodes follow the tokens?"""
    for i, w in enumerate(want):
        if w is None:
            return True
        if i >= len(have):
            return False
        h = have[i]
        if w[0] == "V":
            if h != w[1]:
                return False
        elif isinstance(h, str) or h[0] != w[1]:
            return False
        elif w[0] == "T" and not fits(h[1], w[2]):
            return False
    return len(have) == len(want)


RADIX = re.compile(r"std:core::num::<impl ([ui])(\d+|size)>::from_str_radix$")


STRFN = re.compile(r"std:(?:core|std|alloc)::str::<impl str>::(replace|replacen|to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|repeat)$")
WHITE = "".join(chr(c) for c in range(0x3001) if chr(c).isspace() and not 0x1C <= c <= 0x1F)


def of_text(n, a, t):
    """what the standard library makes of a text that is known"""
    c = const_str(canon(a[0]))
    if c is None:
        return t

    def pattern(p):
        p = canon(p)
        return const_str(p) if p.op == "seq" else chr(p.args[0]) if p.op == "int" else None

    if n[:7] == "trimmed":
        p = WHITE if n == "trimmed" else pattern(a[1])
        if p is None or n != "trimmed" and len(p) != 1 or len(a) < 3 or a[2].op != "bool":
            return t
        # how many characters go
        return I(len(c) - len(c.lstrip(p) if a[2].args[0] else c.rstrip(p)))
    f = STRFN.match(n).group(1)
    if f in ("replace", "replacen"):
        p, q = pattern(a[1]), const_str(canon(a[2]))
        if not p or q is None or f == "replacen" and not is_int(a[3]):
            return t
        return S(c.replace(p, q) if f == "replace" else c.replace(p, q, a[3].args[0]))
    if not c.isascii() and "ascii" not in f and f != "repeat":
        return t
    if f == "repeat":
        return S(c * a[1].args[0]) if is_int(a[1]) and a[1].args[0] < 50 else t
    low = f.endswith("lowercase")
    return S("".join(x if not x.isascii() else x.lower() if low else x.upper() for x in c))


def parts_of_text(f, a, t):
    """a known text taken apart"""
    c = const_str(canon(a[0]))
    if c is None:
        return t
    if f == "lines":
        ls = c.split("\n")
        if ls[-1] == "":
            ls.pop()
        else:
            # the last one keeps what is no end of a line
            return vec_of([S(x[:-1] if x.endswith("\r") else x) for x in ls[:-1]] + [S(ls[-1])])
        return vec_of([S(x[:-1] if x.endswith("\r") else x) for x in ls])
    if f == "split_whitespace":
        return vec_of([S(x) for x in re.split("[" + WHITE + "]+", c) if x])
    if f == "split" and len(a) == 2:
        p = canon(a[1])
        p = const_str(p) if p.op == "seq" else chr(p.args[0]) if p.op == "int" else None
        if p:
            return vec_of([S(x) for x in c.split(p)])
    return t


def bsearch(ws, w):
    """as the standard library searches"""
    k, n, b = lambda x: x.encode(), len(ws), 0
    if n == 0:
        return agg(RES, 1, [ZERO])
    while n > 1:
        h = n // 2
        if k(ws[b + h]) <= k(w):
            b += h
        n -= h
    return agg(RES, 0, [I(b)]) if ws[b] == w else agg(RES, 1, [I(b + (k(ws[b]) < k(w)))])


def fold(t):
    """operations on constants the terms do not know"""
    if t.op == "bslice":
        s, a, b = t.args
        c = const_str(canon(s))
        if c is not None and is_int(a) and is_int(b):
            try:
                return S(c.encode()[a.args[0] : b.args[0]].decode())
            except UnicodeDecodeError:
                return t
        return t
    if t.op == "chlen" and t.args[0].op == "int":
        return I(len(chr(t.args[0].args[0]).encode()))
    if t.op != "app" or not isinstance(t.args[0], str):
        return t
    n = t.args[0]
    a = t.args[1:]
    if n in ("contains", "bsearch") and a[0].op == "seq" and all(k == "E" for k, _ in parts_of(a[0])):
        ws = [const_str(canon(x)) if x.op == "seq" else None for _, x in parts_of(a[0])]
        w = const_str(canon(a[1])) if a[1].op == "seq" else None
        if None not in ws and w is not None:
            return B(w in ws) if n == "contains" else bsearch(ws, w)
    if n in ("contains", "starts_with", "ends_with"):
        v, p = canon(a[0]), canon(a[1])
        c, d = const_str(v), const_str(p) if p.op == "seq" else chr(p.args[0]) if p.op == "int" else None
        if c is not None and d is not None:
            return B(d in c if n == "contains" else c.startswith(d) if n == "starts_with" else c.endswith(d))
        if n != "contains" and p.op == "seq":
            r = at_end(v, p, n == "ends_with")
            if r is not None:
                return B(r)
        return t
    if n == "boundary":
        c = const_str(canon(a[0]))
        if c is not None and all(is_int(x) for x in a[1:]):
            bs = c.encode()
            return B(all(x.args[0] <= len(bs) and (x.args[0] == len(bs) or bs[x.args[0]] & 0xC0 != 0x80) for x in a[1:]))
        return t
    if n.endswith("String::from_utf8_lossy"):
        bs = [v.args[0] if v.op == "int" else None for k, v in parts_of(a[0]) if k == "E"] if a[0].op == "seq" else [None]
        if None not in bs and len(bs) == len(parts_of(a[0])):
            try:
                return agg("std::borrow::Cow", 0, [S(bytes(bs).decode())])
            except UnicodeDecodeError:
                return agg("std::borrow::Cow", 1, [S(bytes(bs).decode(errors="replace"))])
        return t
    if n == "overflow" and is_int(a[0]):
        return B(not a[1].args[0] <= a[0].args[0] <= a[2].args[0])
    if n == "mul" and all(is_int(x) for x in a):
        return I(a[0].args[0] * a[1].args[0])
    if n.startswith("trunc") and is_int(a[0]) and (t.ty == "uint" or 0 <= a[0].args[0] < 1 << 8 * int(n[5:]) - 1):
        return I(a[0].args[0] & (1 << 8 * int(n[5:])) - 1)
    if n[:3] == "op:" and all(is_int(x) and x.args[0] >= 0 for x in a):
        x, y = a[0].args[0], a[1].args[0]
        f = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Shr": x >> min(y, 64), "Div": x // y if y else None, "Rem": x % y if y else None}.get(n[3:])
        return t if f is None else I(f)
    if n[:4] == "str.":
        return parts_of_text(n[4:], a, t)
    if STRFN.match(n) or n in ("trimmed", "trimmed_matches"):
        return of_text(n, a, t)
    m = RADIX.match(n)
    if m and is_int(a[1]):
        c = const_str(canon(a[0]))
        if c is not None:
            try:
                if not re.match(r"\+?[0-9A-Za-z]+$", c) if m.group(1) == "u" else not re.match(r"[+-]?[0-9A-Za-z]+$", c):
                    raise ValueError
                v = int(c, a[1].args[0])
                bits = 64 if m.group(2) == "size" else int(m.group(2))
                lo, hi = (0, 2**bits - 1) if m.group(1) == "u" else (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1)
                if not lo <= v <= hi:
                    raise ValueError
                return agg(RES, 0, [I(v)])
            except ValueError:
                return agg(RES, 1, [mk("sym", "ParseIntError", "conv")])
        return t
    if n.endswith("<impl char>::to_digit") and all(is_int(x) for x in a):
        try:
            v = int(chr(a[0].args[0]), a[1].args[0])
            return agg("std::option::Option", 1, [I(v)])
        except ValueError:
            return agg("std::option::Option", 0, [])
    if n.endswith(("char::from_u32", "char::convert::from_u32")) and is_int(a[0]):
        v = a[0].args[0]
        if 0 <= v <= gramnfa.MAXC and not 0xD800 <= v <= 0xDFFF:
            return agg("std::option::Option", 1, [a[0]])
        return agg("std::option::Option", 0, [])
    return t


# ------------------------------------------------------------------- checks
def explored(ctx, rep):
    c = Conv(ctx)
    c.run()
    return c


def common_report(c, rep):
    rep.count("functions explored", len(c.functions))
    rep.count("pairs of function and rule", len(c.results))
    rep.count("paths along streams of nodes", sum(r["paths"] for r in c.results.values()))
    rep.count("pairs explored up to a bound", len(c.bounded))
    for r, w in sorted(c.bounded.items(), key=str):
        rep.assumptions.append("%s: streams of %s not followed" % (c.rootname(r), ", ".join(sorted(w))))
    for u in c.undec:
        rep.undec(u)
    for r in sorted(c.results, key=str)[:6]:
        rep.sample("%s: %d paths" % (c.rootname(r), c.results[r]["paths"]))


def c17(ctx, rep):
    c = explored(ctx, rep)
    common_report(c, rep)
    bad = set()
    for f in c.fails:
        bad.add(f.root)
        k = "%s:%s" % (c.rootname(f.root), f.what[:60])
        w = c.witness(f.root, f.st)
        if w is None:
            rep.undec("%s %s on nodes for which no text was found" % (c.rootname(f.root), f.what))
        else:
            rep.violate(k, "%s %s, though the grammar accepts the text %r" % (c.rootname(f.root), f.what, w), f.where, "")
    rep.ok(sum(x["paths"] for r, x in c.results.items() if r not in bad))


def by_meaning(ctx, rep, pick):
    c = explored(ctx, rep)
    common_report(c, rep)
    for root, z, s, got, ti, where, r, d in c.values:
        if not pick(z):
            continue
        if r == "same":
            rep.ok()
        elif r == "unknown":
            rep.undec("%s: %s" % (c.rootname(root), d))
        else:
            a, b, want = d
            w = c.witness(root, s, [got], want)
            what = "%s makes %s of what means %s" % (c.rootname(root), pr(a, ctx.prog), pr(b, ctx.prog))
            if w is None:
                rep.undec(what + ", but no text was found for it")
            else:
                rep.violate("%s:%s" % (c.rootname(root), z), what + ", as in %r" % w, where, "")


def pr(x, prog):
    if isinstance(x, T):
        return pretty(x, prog)[:300]
    return "[" + ", ".join("%s" % pretty(v, prog)[:120] if isinstance(v, T) else str(v) for _, v in x) + "]"


def c18(ctx, rep):
    by_meaning(ctx, rep, lambda z: z not in LITERALS)


def c19(ctx, rep):
    by_meaning(ctx, rep, lambda z: z in LITERALS)
