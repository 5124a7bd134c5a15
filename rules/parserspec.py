"""What the evaluator of expressions has to do, and where it is in the crate."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from terms import *
import refine
from refine import Kit, Spec, ret, GiveUp

NODE = "dynparser::ast::Node"
EXPR = "dynparser::parser::expression::Expression"
MULTI = "dynparser::parser::expression::MultiExpr"
REP = "dynparser::parser::expression::RepInfo"
NREP = "dynparser::parser::expression::NRep"
RULES = "dynparser::parser::expression::SetOfRules"
ATOM = "dynparser::parser::atom::Atom"
MATCH = "dynparser::parser::atom::MatchRules"
ERR = "dynparser::parser::Error"
PRIO = "dynparser::parser::ErrPriority"
POS = "dynparser::parser::Possition"
ANY = mk("sym", "*")


class ParserKit(Kit):
    def __init__(self, prog):
        Kit.__init__(self, prog)
        self.find()

    # ------------------------------------------------------------- anchors
    def tshow(self, ti):
        return self.p.types[ti]["s"]

    def apath(self, ti):
        t = self.p.types[self.p.strip(ti)]
        return t.get("path") if t["k"] == "adt" else None

    def find(self):
        """the evaluator: (status, &Expression) -> Result<(status, Vec<Node>), Error>
        that looks at the kind of its expression itself"""
        p = self.p
        cands = []
        for k, f in p.raw.items():
            if f["krate"] != "dynparser" or f["nargs"] != 2 or "{closure" in f["path"]:
                continue
            ps = [self.apath(f["locals"][i + 1]) for i in range(2)]
            if EXPR not in ps:
                continue
            ei = ps.index(EXPR)
            st = ps[1 - ei]
            rt = p.types[f["locals"][0]]
            if not st or rt.get("path") != "std::result::Result":
                continue
            okt = p.types[rt["args"][0]]
            if okt["k"] != "tuple" or len(okt["es"]) != 2 or self.apath(okt["es"][0]) != st or self.apath(rt["args"][1]) != ERR:
                continue
            looks = False
            for b in f["blocks"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "discr" and self.apath(s[2][2]) == EXPR:
                        looks = True
            cands.append((looks, k, ei, st))
        good = [c for c in cands if c[0]]
        if len(good) != 1:
            raise GiveUp("evaluator of expressions not found (%d candidates)" % len(good))
        _, self.root, self.ei, self.ST = good[0]
        self.retty = p.tag(p.raw[self.root]["locals"][0])
        # fields of the status by their types
        want = {"text": None, "it": None, "pos": None, "rules": None, "pot": None, "trace": None, "walk": None}
        for i, (n, ti) in enumerate(self.adt(self.ST)["variants"][0]["fields"]):
            t = p.types[ti]
            a = self.apath(ti)
            if t["k"] == "ref" and p.types[t["e"]]["k"] == "str":
                r = "text"
            elif a == "std::str::Chars":
                r = "it"
            elif a == POS:
                r = "pos"
            elif a == RULES:
                r = "rules"
            elif a == "std::option::Option":
                r = "pot"
            elif t["k"] == "bool":
                r = "trace"
            elif a == "std::vec::Vec":
                r = "walk"
            else:
                continue
            if want[r] is not None:
                raise GiveUp("two %s fields in the status" % r)
            want[r] = i
        if any(v is None for v in want.values()):
            raise GiveUp("fields of the status not recognised")
        self.sf = want

    def ev(self, s, x):
        a = [s, x] if self.ei == 1 else [x, s]
        return app("fn:" + self.root, *a, ty=self.retty)

    def args(self, g):
        return g.params[1 - self.ei], g.params[self.ei]

    def S(self, s, role):
        return self.f(s, self.ST, self.sf[role])

    def SU(self, s, **kw):
        n = len(self.adt(self.ST)["variants"][0]["fields"])
        inv = {v: k for k, v in self.sf.items()}
        return agg(self.ST, 0, [kw.get(inv.get(i)) or self.f(s, self.ST, i) for i in range(n)])

    def P(self, s, name):
        return self.f(self.S(s, "pos"), POS, name)

    def prio(self, name):
        return self.new(PRIO, name)

    def is_critical(self, m, e):
        pr = self.f(e, ERR, "priority")
        return m.br(eqi(discr(pr), I(self.vix(PRIO, "Critical"))))

    def from_status(self, s, prio, descr=ANY):
        return self.new(
            ERR,
            None,
            pos=self.S(s, "pos"),
            descr=descr,
            line_before=app("fn:line before", self.S(s, "text"), self.S(s, "it")),
            line_after=app("fn:line after", self.S(s, "it")),
            parsing_rules=self.S(s, "walk"),
            priority=self.prio(prio),
        )

    def sok(self, s, ns):
        return self.ok(tup(s, ns))

    # ------------------------------------------------------- reading a char
    def adv(self, m, s):
        it = self.S(s, "it")
        ch = nth(it, ZERO, ty="char")
        pos = self.S(s, "pos")
        n, row, col, sl = (self.f(pos, POS, x) for x in ("n", "row", "col", "start_line"))
        n1 = add(n, I(1))
        if m.br(eqi(ch, I(10))):
            row, col, sl = add(row, I(1)), ZERO, n1
        elif m.br(eqi(ch, I(13))):
            col = ZERO
        else:
            col = add(col, I(1))
        p1 = self.new(POS, None, n=n1, row=row, col=col, start_line=sl)
        return self.SU(s, it=sdrop(it, I(1)), pos=p1), ch

    def at_end(self, m, s):
        return m.br(le0(slen(self.S(s, "it"))))

    # ----------------------------------------------------------------- spec
    def spec(self, ranges_first=False):
        K = self
        ei = K.ei

        def val(x):
            return K.new(NODE, "Val", x)

        def start(m, s, x):
            v = m.variant(x, EXPR)
            if v == "Simple":
                return ("atom", (s, K.f(x, EXPR, 0, "Simple")))
            if v in ("And", "Or"):
                xs = K.f(K.f(x, EXPR, 0, v), MULTI, 0)
                if v == "And":
                    return ("and", (s, xs, ZERO, EMPTY))
                return ("or", (s, s, xs, ZERO, K.NONE))
            if v == "Not":
                return ("not", (s, K.f(x, EXPR, 0, "Not")))
            if v == "Repeat":
                ri = K.f(x, EXPR, 0, "Repeat")
                return ("rep", (s, ri, ZERO, EMPTY))
            if v == "RuleName":
                return ("rule", (s, K.f(x, EXPR, 0, "RuleName")))
            raise GiveUp("unknown kind of expression %s" % v)

        def and_(m, s, xs, i, ns):
            if not m.br(lt(i, slen(xs))):
                return ret(K.sok(s, ns), "And:all parts matched")
            r = K.ev(s, nth(xs, i))
            if m.is_ok(r):
                o = K.okv(r)
                return ("and", (K.tupf(o, 0, 2), xs, add(i, I(1)), concat(ns, K.tupf(o, 1, 2))))
            return ret(K.err(K.errv(r)), "And:a part failed")

        def or_(m, s0, s, xs, i, best):
            if not m.br(lt(i, slen(xs))):
                if m.is_some(best):
                    return ret(K.err(K.somev(best)), "Or:no alternative matched")
                return ret(K.err(K.from_status(s0, "Normal")), "Or:no alternatives")
            r = K.ev(s, nth(xs, i))
            if m.is_ok(r):
                return ret(r, "Or:alternative matched")
            e = K.errv(r)
            if K.is_critical(m, e):
                return ret(K.err(e), "Or:critical error")
            if m.is_some(best):
                b = K.somev(best)
                if K.is_critical(m, b) or m.br(lt(K.f(K.f(e, ERR, "pos"), POS, "n"), K.f(K.f(b, ERR, "pos"), POS, "n"))):
                    return ("or", (s0, s, xs, add(i, I(1)), K.some(b)))
            return ("or", (s0, s, xs, add(i, I(1)), K.some(e)))

        def not_(m, s, x):
            r = K.ev(s, x)
            if m.is_ok(r):
                return ret(K.err(K.from_status(s, "Normal")), "Not:matched")
            e = K.errv(r)
            if K.is_critical(m, e):
                return ret(K.err(e), "Not:critical error")
            return ret(K.sok(s, EMPTY), "Not:not matched")

        def rep(m, s, ri, c, ns):
            mn = K.f(K.f(ri, REP, "min"), NREP, 0)
            mx = K.f(ri, REP, "max")
            bounded = m.is_some(mx)
            if bounded:
                if not m.br(lt(c, K.f(K.somev(mx), NREP, 0))):
                    return ret(K.sok(s, ns), "Repeat:max reached")
            r = K.ev(s, K.f(ri, REP, "expression"))
            if m.is_ok(r):
                o = K.okv(r)
                s2, n2 = K.tupf(o, 0, 2), K.tupf(o, 1, 2)
                ns2 = concat(ns, n2)
                if not bounded and m.br(eqi(K.P(s2, "n"), K.P(s, "n"))):
                    if m.br(le(mn, add(c, I(1)))):
                        return ret(K.sok(s2, ns2), "Repeat:empty match of an unbounded repetition")
                return ("rep", (s2, ri, add(c, I(1)), ns2))
            e = K.errv(r)
            if not m.br(le(mn, c)):
                return ret(K.err(e), "Repeat:less than min")
            if K.is_critical(m, e):
                return ret(K.err(e), "Repeat:critical error")
            return ret(K.sok(K.SU(s, pot=K.some(e)), ns), "Repeat:ended")

        def rule(m, s, name):
            r = K.rule_step(m, s, name)
            if r[0] == "err":
                return ret(K.err(r[1]), r[2])
            return ret(K.sok(r[1], vec_of([r[2]])), "Rule:matched")

        def atom(m, s, a):
            v = m.variant(a, ATOM)
            if v == "Literal":
                t = K.f(a, ATOM, 0, v)
                return ("lit", (s, t, ZERO))
            if v == "Error":
                return ret(K.err(K.from_status(s, "Critical", K.f(a, ATOM, 0, v))), "Error:reached")
            if v == "EOF":
                if K.at_end(m, s):
                    return ret(K.sok(s, vec_of([K.new(NODE, "EOF")])), "EOF:at end")
                s2, _ = K.adv(m, s)
                return ret(K.err(K.from_status(s2, "Normal")), "EOF:text left")
            if K.at_end(m, s):
                return ret(K.err(K.from_status(s, "Normal")), v + ":at end")
            s2, ch = K.adv(m, s)
            node = vec_of([val(push_elem(EMPTY, ch, char=True))])
            if v == "Dot":
                return ret(K.sok(s2, node), "Dot:any char")
            if v == "Match":
                mr = K.f(a, ATOM, 0, v)
                cs, rs = K.f(mr, MATCH, 0), K.f(mr, MATCH, 1)
                if ranges_first:
                    return ("ranges", (s2, node, ch, cs, rs, ZERO))
                return ("chars", (s2, node, ch, cs, rs, ZERO))
            raise GiveUp("unknown kind of atom %s" % v)

        def chars(m, s2, node, ch, cs, rs, i):
            # asked as a whole, or looked for char by char
            k = m.known(app("contains", cs, push_elem(EMPTY, ch, char=True), ty="bool"))
            if k is None:
                if not m.br(lt(i, slen(cs))):
                    k = False
                elif m.br(eqi(nth(cs, i, ty="char"), ch)):
                    k = True
                else:
                    return ("chars", (s2, node, ch, cs, rs, add(i, I(1))))
            if k:
                return ret(K.sok(s2, node), "Match:in the list")
            if ranges_first:
                return ret(K.err(K.from_status(s2, "Normal")), "Match:no match")
            return ("ranges", (s2, node, ch, cs, rs, ZERO))

        def ranges(m, s2, node, ch, cs, rs, i):
            if not m.br(lt(i, slen(rs))):
                if ranges_first:
                    return ("chars", (s2, node, ch, cs, rs, ZERO))
                return ret(K.err(K.from_status(s2, "Normal")), "Match:no match")
            r = nth(rs, i)
            if m.br(le(K.tupf(r, 0, 2, "char"), ch)) and m.br(le(ch, K.tupf(r, 1, 2, "char"))):
                return ret(K.sok(s2, node), "Match:in a range")
            return ("ranges", (s2, node, ch, cs, rs, add(i, I(1))))

        def lit(m, s, t, i):
            if not m.br(lt(i, slen(t))):
                return ret(K.sok(s, vec_of([val(t)])), "Literal:matched")
            if K.at_end(m, s):
                return ret(K.err(K.from_status(s, "Normal")), "Literal:at end")
            s2, ch = K.adv(m, s)
            if m.br(eqi(nth(t, i, ty="char"), ch)):
                return ("lit", (s2, t, add(i, I(1))))
            return ret(K.err(K.from_status(s2, "Normal")), "Literal:other char")

        return Spec(
            "expression evaluator",
            {"start": start, "and": and_, "or": or_, "not": not_, "rep": rep, "rule": rule, "atom": atom, "lit": lit, "chars": chars, "ranges": ranges},
        )

    def rule_step(self, m, s, name):
        K = self
        if m.br(K.S(s, "trace")):
            s = K.SU(s, walk=push_elem(K.S(s, "walk"), concat(S("r:"), name)))
        g = app("map:get", K.f(K.S(s, "rules"), RULES, 0), name)
        if not m.is_some(g):
            return ("err", K.from_status(s, "Critical", concat(S("Missing rule: "), name)), "Rule:missing")
        r = K.ev(s, K.somev(g))
        if not m.is_ok(r):
            return ("err", K.errv(r), "Rule:failed")
        o = K.okv(r)
        node = K.new(NODE, "Rule", tup(name, K.tupf(o, 1, 2)))
        return ("ok", K.tupf(o, 0, 2), node)


def lines_erased(kit):
    fs = [x[0] for x in kit.adt(ERR)["variants"][0]["fields"]]
    return {ERR: {fs.index("line_before"), fs.index("line_after"), fs.index("descr")}}
