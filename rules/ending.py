"""Termination: loops have a ranking, calls that come back to their function
get smaller arguments."""
import copy

from common import *
from conv import consumers_of, explored, Opaque
from errrules import known, stages_in, where_str
from panics import Ends, Walks, collect, describe, invariants, is_status, is_str, onward, statuses, texts_for, texty
import parserspec as PS


# ------------------------------------------------------------ what is known
def entails(f, b):
    """does b follow?"""
    if f is None:
        return True
    r = f.eval(b)
    if r is not None:
        return r
    g = f.assume(b, False)
    return g is None or not feasible(g)


def atoms_of(t):
    return [x for x in walk(t) if x.op in ("blen", "len", "chlen")]


class Scene:
    """what holds when an edge is taken: its conditions, the relations between
    texts at its start, and what the evaluator does to a status"""

    def __init__(self, K, p, e, pairs, more=(), lemmas={}):
        self.K, self.p, self.e = K, p, e
        self.lemmas = lemmas
        self.E = Ends(K, pairs)
        f = known(e)
        for c in more:
            f = f and f.assume(c, True)
        self.base = f
        if f is not None:
            f = self.enrich(f, [c for c, _ in e.guards] + list((e.binds or {}).values()) + ([e.value] if e.value is not None else []) + list(more))
        self.f = f

    def entails(self, b):
        if self.f is None:
            return True
        f = self.enrich(self.f, [b], False)
        return entails(f, b)

    def shorter(self, t, f):
        """(place, argument, mode) when this part of what a function returned is
        known to be shorter than an argument"""
        steps, x = chain(t)
        if x.op != "app" or str(x.args[0])[:3] != "fn:" or (x.args[0][3:], steps) not in self.lemmas:
            return
        while t is not x:
            # the part has to be there
            y, v, path = t.args[0], t.args[1], t.args[3]
            if path != "tuple" and path not in STRUCTS(self.p):
                r = f.eval(eqi(discr(y), I(v)))
                if r is False or (r is None and path != "?"):
                    return
            t = y
        for (j, s), mode in self.lemmas.get((x.args[0][3:], steps), {}).items():
            y = part(x.args[1 + j], s)
            if y is not None:
                yield (j, s), y, mode

    def enrich(self, f, ts, guards=True):
        """what follows from what the terms mean"""
        K = self.K
        more = []
        terms = set(x for t in ts for x in walk(t))
        texts = []
        for t in terms:
            if t.op in ("blen", "len") and t.args[0] not in texts:
                texts.append(t.args[0])
            if t.op == "chlen":
                more.append(le(I(1), t))
            if t.op in ("fld", "app"):
                for q, y, mode in self.shorter(t, f):
                    texts += [x for x in (t, y) if x not in texts]
                    more.append((lt if mode == "<" else le)(slen(t), slen(y)))
            if K is not None and t.op == "app" and t.args[0] == "fn:" + K.root:
                s = t.args[2 - K.ei]
                ok = fld(t, 0, 0, "std::result::Result", 1)
                r = fld(ok, 0, 0, "tuple", 2)
                # the position counts the characters taken
                n0, n1 = K.P(s, "n"), K.P(r, "n")
                a, b = K.S(s, "it"), K.S(r, "it")
                texts += [x for x in (a, b) if x not in texts]
                more.append(eqi(add(n1, slen(b)), add(n0, slen(a))))
                more.append(le(n0, n1))
                if f.eval(eqi(discr(t), ZERO)) is True and entails(f, le(n1, n0)):
                    # nothing taken: the same place
                    for r1 in ("row", "col", "start_line"):
                        try:
                            more.append(eqi(K.P(s, r1), K.P(r, r1)))
                        except Exception:
                            pass
        if guards:
            for c, v in self.e.guards:
                if c.op == "eq" and v is False:
                    for x, y in (c.args, c.args[::-1]):
                        if self.E.holds(x, y):
                            # an end that is not the whole
                            more.append(lt(slen(x), slen(y)))
                            more.append(lt(blen(x), blen(y)))
        for x in texts:
            for y in texts:
                if x is not y and self.E.holds(x, y):
                    more.append(le(blen(x), blen(y)))
                    more.append(le(slen(x), slen(y)))
                    # shorter in one measure, shorter in the other
                    if f.eval(le(I(1), sub(slen(y), slen(x)))) or f.eval(le(I(1), sub(blen(y), blen(x)))):
                        more.append(lt(slen(x), slen(y)))
                        more.append(lt(blen(x), blen(y)))
        for _ in range(2):
            for c in more:
                f = f.assume(c, True)
                if f is None:
                    return None
            # the other measure again, with what the guards said
            for x in texts:
                for y in texts:
                    if x is not y and self.E.holds(x, y):
                        d1, d2 = sub(blen(y), blen(x)), sub(slen(y), slen(x))
                        for d, o in ((d1, d2), (d2, d1)):
                            if f.eval(eqi(d, ZERO)) is False or f.eval(le(I(1), d)) is True:
                                f = f.assume(le(I(1), o), True)
                                if f is None:
                                    return None
        return f


def STRUCTS(p):
    """types with one variant"""
    r = getattr(p, "one_variant", None)
    if r is None:
        r = p.one_variant = {t["path"] for t in p.types if t["k"] == "adt" and len(t.get("variants", ())) == 1}
    return r


def chain(t):
    """the steps to a part, and of what it is one"""
    steps = []
    while t.op == "fld":
        steps.append((t.args[1], t.args[2]))
        t = t.args[0]
    return tuple(reversed(steps)), t


def part(t, steps):
    for v, i in steps:
        if t.op == "agg":
            if t.args[1] != v or i >= len(t.args[2]):
                return None
            t = t.args[2][i]
        elif t.op in ("sym", "phi", "fld", "nth", "app"):
            t = fld(t, v, i, "?", i + 1)
        else:
            return None
    return t


def size(t, q, sc):
    """'<' or '<=' when t is surely a smaller part of q, or no larger"""
    seen = set()

    def strict(r, yes):
        return "<" if r == "<" or (r and yes) else r

    def rel(t):
        if t is q:
            return "<="
        if t in seen:
            return None
        seen.add(t)
        if t.op == "seq" and not t.args[0]:
            return None
        if t.op == "drop":
            x, n = t.args
            r = rel(x)
            if r:
                return strict(r, sc.entails(AND(le(I(1), n), le(I(1), slen(x)))))
        if t.op in ("init", "take"):
            x = t.args[0]
            r = rel(x)
            if r:
                if t.op == "init":
                    return strict(r, sc.entails(le(I(1), slen(x))))
                return strict(r, sc.entails(lt(t.args[1], slen(x))))
        if t.op == "bslice":
            r = rel(t.args[0])
            if r:
                return strict(r, sc.entails(OR(le(I(1), t.args[1]), lt(t.args[2], blen(t.args[0])))))
        if t.op == "nth" and rel(t.args[0]):
            return "<"
        if t.op == "app" and t.args[0] in ("map:get", "map:entries") and rel(t.args[1]):
            return "<"
        if t.op == "fld" and rel(t.args[0]):
            return "<"
        best = None
        for y in sc.E.step(t):
            r = rel(y)
            if r == "<":
                return r
            best = best or r
        return best

    return rel(t)


# ------------------------------------------------------------------- loops
class Loops:
    def __init__(self, K, p, g, inv, lemmas={}):
        self.K, self.p, self.g, self.inv, self.lemmas = K, p, g, inv, lemmas
        self.scenes = {}
        self.signs = {h: [] for h in g.heads}
        self.find_signs()

    def scene(self, h, e):
        k = id(e)
        if k not in self.scenes:
            self.scenes[k] = Scene(self.K, self.p, e, self.inv.get(h, ()), self.signs.get(h, ()), self.lemmas)
        return self.scenes[k]

    def find_signs(self):
        """forms a loop compares with zero: do they keep their sign?"""
        g = self.g
        ins = {}
        for src, es in [("entry", g.entry)] + [(h, H.edges) for h, H in g.heads.items()]:
            for e in es:
                if e.kind == "head":
                    ins.setdefault(e.target, []).append((src, e))
        cand = {}
        places = [q for q in used_lists(g, self.p)]
        for h, H in g.heads.items():
            cs = []

            def put(b):
                if b not in cs and b.op != "bool":
                    cs.append(b)

            for e in H.edges:
                for c, v in e.guards:
                    if c.op == "eq0" and any(x.op == "phi" for x in walk(c)):
                        put(le(c.args[0], ZERO))
                        put(le(ZERO, c.args[0]))
            for src, e in ins.get(h, ()):
                for q, t in e.binds.items():
                    if texty(self.p, q) and (t.op != "seq" or not t.args[0]):
                        for a in places:
                            put(le(slen(q), slen(a)))
                # what led to a loop inside a loop
                for c, v in e.guards:
                    if c.op == "le0" and src != h and src != "entry" and not any(x in e.binds for x in walk(c)):
                        put(c if v else NOT(c))
            cand[h] = cs[:40]
        if not any(cand.values()):
            return
        change = True
        while change:
            change = False
            for h, es in ins.items():
                for src, e in es:
                    if not cand.get(h):
                        continue
                    sc = Scene(self.K, self.p, e, self.inv.get(src, ()), cand.get(src, ()), self.lemmas)
                    memo = {}
                    keep = [b for b in cand[h] if sc.entails(subst(b, e.binds, memo))]
                    if len(keep) != len(cand[h]):
                        cand[h] = keep
                        change = True
        self.signs = cand

    # ---------------------------------------------------------------- ranks
    def back(self):
        """edges between heads, by strongly connected part"""
        es = [(h, e) for h, H in self.g.heads.items() for e in H.edges if e.kind == "head"]
        return es

    def unranked(self):
        """the parts for which no ranking was found: lists of (head, edge)"""
        out, self.ranks = [], 0
        work = [self.back()]
        while work:
            es = work.pop()
            for comp in components(es):
                left = self.rank(comp)
                if left is None:
                    out.append(comp)
                else:
                    work.append(left)
        return out

    def rank(self, comp):
        comp = [(h, e) for h, e in comp if self.scene(h, e).f is not None]
        heads = {h for h, _ in comp} | {e.target for _, e in comp}
        for m in self.measures(comp, heads):
            left = self.try_measure(m, comp)
            if left is not None and len(left) < len(comp):
                self.ranks += 1
                return left
        if not comp:
            return []
        return None

    def measures(self, comp, heads):
        """measures are functions of the head; most are the same everywhere"""
        out, seen = [], set()
        K = self.K

        def put(t):
            if t.op != "int" and t not in seen:
                seen.add(t)
                out.append({h: t for h in heads})

        for h, e in comp:
            for c, v in e.guards:
                if c.op == "le0":
                    put(scale(c.args[0], -1) if v else c.args[0])
                elif c.op == "eq0":
                    put(c.args[0])
                    put(scale(c.args[0], -1))
        for h, e in comp:
            for q, t in e.binds.items():
                if K is not None and (is_status(K, q) or is_status(K, t)):
                    put(slen(K.S(q, "it")))
                    put(scale(K.P(q, "n"), -1))
                elif texty(self.p, q) or texty(self.p, t):
                    put(slen(q))
                    put(blen(q))
                elif q.op == "phi" and q.ty in ("uint", "int", None):
                    put(q)
        # the same, through the variables of other heads
        if len(heads) > 1:
            base = [(h, m[h]) for m in out for h in heads]
            n = 0
            for h0, t in base:
                m = self.through(comp, h0, t)
                if len(m) == len(heads) and m not in out:
                    out.append(m)
                    n += 1
                    if n >= 80:
                        break
        for h, e in comp:
            for q, t in e.binds.items():
                if t is not q and q.op == "phi" and any(x is q for x in walk(t)):
                    out.append(("size", q))
        return out

    def through(self, comp, h0, t):
        """what a measure of one head is seen from the others"""
        m = {h0: t}
        work = [h0]
        while work:
            x = work.pop(0)
            for h, e in comp:
                if e.target == x and h not in m:
                    m[h] = subst(m[x], e.binds, {})
                    work.append(h)
        return m

    def try_measure(self, m, comp):
        left = []
        strict = 0
        for h, e in comp:
            sc = self.scene(h, e)
            if isinstance(m, tuple):
                q = m[1]
                t = e.binds.get(q, q)
                r = size(t, q, sc)
                if r is None:
                    return None
                if r == "<":
                    strict += 1
                else:
                    left.append((h, e))
                continue
            a = m[h]
            b = subst(m[e.target], e.binds, {})
            if sc.entails(lt(b, a)) and self.bounded(sc, a):
                strict += 1
            elif sc.entails(le(b, a)):
                left.append((h, e))
            else:
                return None
        return left if strict else None

    def bounded(self, sc, a):
        if a.op in ("len", "blen", "chlen"):
            return True
        f = sc.enrich(sc.f, [a], False)
        if f is None or f.int_range(a)[0] > -INF:
            return True
        return entails(f, le(ZERO, a))


def used_lists(g, p):
    """places in the parameters that are lists or texts"""
    out = []
    for q in g.params:
        if texty(p, q) and q not in out:
            out.append(q)
    for e in g.edges():
        for t in [c for c, _ in e.guards] + list((e.binds or {}).values()) + ([e.value] if e.value is not None else []):
            for x in walk(t):
                if x.op in ("len", "blen", "drop", "nth", "init", "take"):
                    y = x.args[0]
                    if y.op == "fld" and chain(y)[1] in g.params and y not in out:
                        out.append(y)
    return out[:12]


class Lemmas:
    """how long what a function returns is, compared with its arguments"""

    def __init__(self, K, p, graphs, invs):
        self.K, self.p, self.graphs = K, p, graphs
        want = {}
        for g in graphs.values():
            for e in g.edges():
                for t in [c for c, _ in e.guards] + list((e.binds or {}).values()) + ([e.value] if e.value is not None else []):
                    for x in walk(t):
                        if x.op in ("fld", "app") and texty(p, x):
                            s, b = chain(x)
                            if b.op == "app" and str(b.args[0])[:3] == "fn:" and b.args[0][3:] in graphs:
                                want.setdefault(b.args[0][3:], set()).add(s)
        # what is handed through
        work = [(k, s) for k, ss in want.items() for s in ss]
        while work:
            k, s = work.pop()
            for e in graphs[k].edges():
                if e.kind == "ret" and e.value is not None:
                    t = part(e.value, s)
                    s2, b = chain(t) if t is not None else (None, None)
                    if t is not None and b.op == "app" and str(b.args[0])[:3] == "fn:" and b.args[0][3:] in graphs and s2 not in want.get(b.args[0][3:], ()):
                        want.setdefault(b.args[0][3:], set()).add(s2)
                        work.append((b.args[0][3:], s2))
        self.known = {}
        for k, ss in want.items():
            ps = graphs[k].params
            for s in ss:
                m = {}
                for q in used_lists(graphs[k], p):
                    st, b = chain(q)
                    m[ps.index(b), st] = "<"
                self.known[k, s] = m
        change = True
        self.rounds = 0
        while change:
            self.rounds += 1
            change = False
            for k in want:
                g = graphs[k]
                L = Loops(K, p, g, invs[k], self.known)
                for src, e in [("entry", e) for e in g.entry] + [(h, e) for h, H in g.heads.items() for e in H.edges]:
                    if e.kind != "ret" or e.value is None:
                        continue
                    sc = L.scene(src, e)
                    for s in want[k]:
                        v = e.value
                        if v.op == "agg" and s and v.args[1] != s[0][0]:
                            continue
                        if v.op != "agg" and s and sc.f is not None and sc.f.eval(eqi(discr(v), I(s[0][0]))) is False:
                            continue
                        t = part(v, s)
                        m = self.known[k, s]
                        for (j, st), mode in list(m.items()):
                            q = part(g.params[j], st)
                            if t is None:
                                del m[j, st]
                                change = True
                            elif mode == "<" and not sc.entails(lt(slen(t), slen(q))):
                                m[j, st] = "<="
                                mode = "<="
                                change = True
                            if t is not None and mode == "<=" and not sc.entails(le(slen(t), slen(q))):
                                del m[j, st]
                                change = True


def components(es):
    """strongly connected parts of a set of edges, with the edges inside"""
    succ = {}
    for h, e in es:
        succ.setdefault(h, set()).add(e.target)
    reach = {}
    for h in succ:
        seen, work = set(), list(succ[h])
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += succ.get(x, ())
        reach[h] = seen
    out, done = [], set()
    for h in succ:
        if h in done or h not in reach[h]:
            continue
        part = {x for x in reach[h] if h in reach.get(x, ())}
        done |= part
        out.append([(a, e) for a, e in es if a in part and e.target in part])
    return out


# --------------------------------------------------------------- recursion
class Calls:
    """calls that may come back to the function they are in: arguments related
    to the parameters, one graph per call (size-change termination)"""

    def __init__(self, K, p, graphs, invs, loops, lemmas):
        self.K, self.p, self.graphs, self.loops, self.lemmas = K, p, graphs, loops, lemmas
        self.invs = invs
        succ = {}
        self.sites = []
        for k, g in graphs.items():
            for src, es in [("entry", g.entry)] + [(h, H.edges) for h, H in g.heads.items()]:
                for e in es:
                    for c in stages_in(e, set(graphs)):
                        self.sites.append((k, src, e, c, c.args[0][3:]))
                        succ.setdefault(k, set()).add(c.args[0][3:])
        reach = {}
        for k in succ:
            seen, work = set(), list(succ[k])
            while work:
                x = work.pop()
                if x not in seen:
                    seen.add(x)
                    work += succ.get(x, ())
            reach[k] = seen
        self.sites = [s for s in self.sites if s[0] in reach.get(s[4], ()) or s[0] == s[4]]
        self.meas = {}

    def measures(self, k):
        if k not in self.meas:
            g, p = self.graphs[k], self.p
            ls = used_lists(g, p)
            out = [("size", q) for q in g.params] + [("size", q) for q in ls if q not in g.params]
            out += [("int", slen(q)) for q in ls]
            K = self.K
            if K is not None:
                for s in statuses(K, g):
                    out.append(("int", slen(K.S(s, "it"))))
            for e in g.edges():
                for c, v in e.guards:
                    if c.op == "le0" and all(chain(x)[1] in g.params for x, _ in lin_parts(c.args[0])[1] if x.op not in ("len", "blen")) and not any(x.op in ("phi",) or (x.op == "app" and str(x.args[0])[:3] == "fn:") for x in walk(c)):
                        t = scale(c.args[0], -1) if v else c.args[0]
                        t = sub(t, I(lin_parts(t)[0]))
                        if ("int", t) not in out:
                            out.append(("int", t))
            self.meas[k] = out[:24]
        return self.meas[k]

    def graph(self, site):
        k, src, e, c, k2 = site
        sc = self.loops[k].scene(src, e)
        if sc.f is None:
            return None
        g2 = self.graphs[k2]
        out = set()
        binds = dict(zip(g2.params, c.args[1:]))
        for j, (kind2, m2) in enumerate(self.measures(k2)):
            s, b = chain(m2)
            if kind2 == "size":
                t = part(binds[b], s) if b in binds else None
            else:
                t = subst(m2, binds, {})
            if t is None:
                continue
            for i, (kind, m) in enumerate(self.measures(k)):
                if kind != kind2:
                    continue
                if kind == "size":
                    r = size(t, m, sc)
                else:
                    r = None
                    if any(a in [x for x, _ in lin_parts(m)[1]] or True for a in ()):
                        pass
                    if sc.entails(le(t, m)):
                        r = "<=" if not (sc.entails(lt(t, m)) and self.loops[k].bounded(sc, m)) else "<"
                if r:
                    out.add((i, j, r == "<"))
        return frozenset(out)

    def by_rule(self, site):
        """does the call go on with the expression of a rule?"""
        k, src, e, c, k2 = site
        K = self.K
        if K is None or k != K.root or k2 != K.root:
            return False
        t = chain(c.args[1 + K.ei])[1]
        return t.op == "app" and t.args[0] == "map:get"

    def unranked(self, rep):
        """the calls that may go round for ever"""
        K = self.K
        sites = []
        for s in self.sites:
            if self.by_rule(s):
                k, src, e, c, _ = s
                st = c.args[2 - K.ei]
                a = K.args(self.graphs[k])[0]
                if self.loops[k].scene(src, e).E.holds(K.S(st, "it"), K.S(a, "it")):
                    rep.ok()
                else:
                    sites.append((s, frozenset()))
                continue
            g = self.graph(s)
            if g is not None:
                sites.append((s, g))
        # closure under composition
        every = {}
        for s, g in sites:
            every.setdefault((s[0], s[4], g), (s,))
        work = list(every)
        while work and len(every) < 4000:
            a = work.pop()
            for b in list(every):
                for x, y in ((a, b), (b, a)):
                    if x[1] != y[0]:
                        continue
                    n = (x[0], y[1], compose(x[2], y[2]))
                    if n not in every:
                        every[n] = every[x] + every[y]
                        work.append(n)
        bad = []
        for (f, t, g), path in every.items():
            if f == t and compose(g, g) == g and not any(i == j and st for i, j, st in g):
                bad.append(path)
        if len(every) >= 4000:
            bad.append(tuple(s for s, _ in sites))
        bad.sort(key=len)
        out, seen = [], set()
        for path in bad:
            key = frozenset(id(s) for s in path)
            if not any(o <= key for o in seen):
                seen.add(key)
                out.append(path)
        hit = {id(s) for path in out for s in path}
        rep.ok(sum(1 for s, _ in sites if id(s) not in hit))
        rep.count("calls that come back to their function", len(self.sites))
        return out


def compose(g, h):
    out = {}
    for i, j, s in g:
        for j2, k, s2 in h:
            if j == j2:
                out[i, k] = out.get((i, k), False) or s or s2
    return frozenset((i, k, s) for (i, k), s in out.items())


# ----------------------------------------------------------------- for ever
def repeats(K, p, sc, guards, binds):
    """conditions under which the same conditions hold the next time as well"""
    f0 = sc.f
    same, eqs_ = set(), []
    todo = list(guards)
    for _ in range(20):
        b = {q: t for q, t in binds.items() if q not in same}
        memo = {}
        bad = None
        for c, v in todo:
            if any(x.op == "app" and not safe(x) for x in walk(c)):
                return None
            c2 = subst(c, b, memo)
            if c2 is c:
                continue
            f = f0
            for q in eqs_:
                f = f and f.assume(q, True)
            if f is None:
                return None
            f = sc.enrich(f, [c2], False)
            if not entails(f, c2 if v else NOT(c2)):
                bad = [q for q in b if any(x is q for x in walk(c)) and binds[q] is not q]
                break
        else:
            return eqs_
        if not bad:
            return None
        for q in bad:
            t = binds[q]
            same.add(q)
            if K is not None and (is_status(K, q) or is_status(K, t)):
                new = [eqi(slen(K.S(t, "it")), slen(K.S(q, "it"))), eqi(K.P(t, "n"), K.P(q, "n"))]
                if touches(K, q, [c for c, _ in guards]):
                    return None
            elif q.ty in ("uint", "int", "char") or lin_like(t):
                new = [eqi(t, q)]
            else:
                new = [eqs(t, q)]
            for c in new:
                if c.op == "bool":
                    if not c.args[0]:
                        return None
                    continue
                eqs_.append(c)
                todo.append((c, True))
    return None


def lin_like(t):
    return t.op in ("int", "lin", "len", "blen", "chlen")


def safe(x):
    n = str(x.args[0])
    return n[:3] == "fn:" or n in ("map:get", "map:entries", "boundary", "overflow", "op:Div", "op:Rem", "contains", "starts_with", "ends_with", "str", "display", "trimmed", "trimmed_matches", "bytes")


def touches(K, q, cs):
    """is something of a status looked at that is not its place in the text?"""
    fine = {K.S(q, "it"), K.S(q, "text"), K.S(q, "pos"), K.S(q, "rules")}
    for c in cs:
        for x in walk(c):
            if x.op == "fld" and x.args[0] is q and x not in fine:
                return True
    return False


def cycles(comp, most=3):
    """simple ways round, short ones first"""
    out = []

    def go(h, path):
        for a, e in comp:
            if a != (path[-1][1].target if path else h):
                continue
            if e.target == h:
                out.append(path + [(a, e)])
            elif len(path) + 1 < most and all(e.target != x for x, _ in path) and e.target != h:
                go(h, path + [(a, e)])

    for h in {a for a, _ in comp}:
        go(h, [])
    return sorted(out, key=len)[:60]


def along(cyc):
    """conditions and effect of going round once"""
    binds, gs = {}, []
    for h, e in cyc:
        memo = {}
        gs += [(subst(c, binds, memo), v) for c, v in e.guards]
        new = {q: subst(t, binds, memo) for q, t in e.binds.items()}
        binds = {**binds, **new}
    return gs, binds


def made(e, guards, msg):
    n = copy.copy(e)
    n.guards = [(c, v) for c, v in guards if c.op != "bool"]
    n.kind, n.target, n.binds, n.value, n.msg = "panic", None, None, None, msg
    return n


def c12(ctx, rep):
    p = ctx.prog
    try:
        K = ctx.kit
    except GiveUp as x:
        K = None
        rep.undec("the evaluator: %s" % x)
    cons = consumers_of(p)
    roots, graphs = collect(ctx, p, K, cons)
    for k in sorted(cons):
        graphs[k] = ctx.graph(k, cut=sorted(cons))
    rep.count("functions with their own paths", len(graphs))
    invs = {}
    for k, g in graphs.items():
        for m in g.stuck:
            rep.undec("%s: %s" % (p.raw[k]["path"], m))
        invs[k] = invariants(K, p, g)
    lem = Lemmas(K, p, graphs, invs)
    rep.count("results known to be shorter than an argument", sum(1 for m in lem.known.values() for v in m.values() if v == "<"))
    loops = {}
    cands = []
    what = {}
    for k, g in graphs.items():
        L = loops[k] = Loops(K, p, g, invs[k], lem.known)
        back = L.back()
        rep.count("ways back to the start of a loop", len(back))
        left = L.unranked()
        rep.ok(len(back) - len({id(e) for c in left for _, e in c}))
        rep.count("rankings", L.ranks)
        for comp in left:
            cands.append(("loop", k, comp))
    calls = Calls(K, p, graphs, invs, loops, lem.known)
    for path in calls.unranked(rep):
        cands.append(("call", path[0][0], path))
    if K is not None:
        for k, g in graphs.items():
            for src, es in [("entry", g.entry)] + [(h, H.edges) for h, H in g.heads.items()]:
                for e in es:
                    if e.kind != "panic" and known(e) is not None:
                        onward(K, rep, p, k, g, e, invs[k].get(src, ()))
    if not cands:
        return
    # is there an input that goes round for ever?
    gs2 = dict(graphs)
    news, of = [], {}

    def put(k, src, e, i):
        g = gs2[k]
        if g is graphs[k]:
            n = copy.copy(g)
            n.entry = list(g.entry)
            n.heads = {h: copy.copy(H) for h, H in g.heads.items()}
            for H in n.heads.values():
                H.edges = list(H.edges)
            gs2[k] = g = n
        (g.entry if src == "entry" else g.heads[src].edges).append(e)
        news.append((k, e))
        of[id(e)] = i

    spot = [where_str((x[0][1] if kind == "loop" else x[0][2]).where).split(" < ")[0] for kind, k, x in cands]
    for i, (kind, k, x) in enumerate(cands):
        if kind == "loop":
            for cyc in cycles(x):
                gs, binds = along(cyc)
                h, e = cyc[0]
                n = made(e, gs, "goes round for ever")
                n.binds = binds
                sc = Scene(K, p, n, invs[k].get(h, ()), loops[k].signs.get(h, ()), lem.known)
                if sc.f is None:
                    continue
                more = repeats(K, p, sc, n.guards, binds)
                if more is None:
                    continue
                put(k, h, made(e, n.guards + [(c, True) for c in more], "goes round for ever, loop %d" % i), i)
        else:
            for n in once_more(K, p, graphs, x):
                put(k, x[0][1], made(x[0][2], n, "calls itself with the same arguments, call %d" % i), i)
    found = {}
    if news:
        W = Walks(ctx, K, gs2, news, set())
        for r in roots:
            if r in W.leads:
                W.run(r, 40)
        # loops only long texts lead to
        done = {spot[of[id(e)]] for k, e in news if id(e) in W.found}
        for k, e in news:
            if spot[of[id(e)]] in done:
                continue
            for v in texts_for(K, p, gs2[k], e):
                for r in roots:
                    q = gs2[r].params
                    if spot[of[id(e)]] not in done and r in W.leads and q and is_str(p, q[0]):
                        W.run(r, 20, {q[0]: S(v)}, 2 * len(v) + 10)
                        if id(e) in W.found:
                            done.add(spot[of[id(e)]])
        for k, e in news:
            w = W.found.get(id(e))
            if w is not None:
                found.setdefault(of[id(e)], (e, w))
    # one source line may be in several functions' paths
    shown = set()
    if any(k in cons and i not in found for i, (_, k, _) in enumerate(cands)):
        shown |= converted(ctx, rep, spot)
    for i, (kind, k, x) in enumerate(cands):
        if i not in found or spot[i] in shown:
            continue
        shown.add(spot[i])
        e, (r, env, trail) = found[i]
        path = p.raw[k]["path"]
        name = p.raw[r]["path"]
        rep.violate("%s:%s:%s" % (path, kind, spot[i].split(":")[0]), "%s never returns: %s%s, with %s" % (name, e.msg.split(", ")[0], "" if r == k else " in " + path, describe(env, p)), where_str(e.where), "\n".join("    called from %s" % where_str(y) for _, y in trail[:-1]))
    for i, (kind, k, x) in enumerate(cands):
        if spot[i] in shown:
            continue
        path = p.raw[k]["path"]
        if kind == "loop":
            rep.undec("%s: no ranking for the loop at %s" % (path, spot[i]))
        else:
            rep.undec("%s: the arguments of a call that may come back are not shown to get smaller (%s)" % (path, " > ".join(p.raw[s[4]]["path"] for s in x[:4])))


def converted(ctx, rep, spots):
    """the conversion of grammars, on the nodes of grammar texts"""
    try:
        c = explored(ctx, rep)
    except Opaque as x:
        rep.undec("the conversion of grammars: %s" % x)
        return set()
    out = set()
    for f in c.fails:
        if f.what != "never returns":
            continue
        w = c.witness(f.root, f.st)
        if w is not None:
            name = c.rootname(f.root)
            rep.violate("%s:%s" % (name, f.what), "%s never returns, for the grammar text %r" % (name, w), f.where, "")
            out.add(f.where.split(" < ")[0])
    # the line of a call or loop there is what was asked about
    return set(s for s in spots if s in out or any(near(s, o) for o in out))


def near(a, b):
    x, y = a.split(":"), b.split(":")
    return x[0] == y[0] and abs(int(x[1]) - int(y[1])) <= 12


def once_more(K, p, graphs, path):
    """conditions on which a call arrives with what its function was called with"""
    k = path[0][0]
    g = graphs[k]
    binds = {q: q for q in g.params}
    gs = []
    for s in path[:3]:
        k1, src, e, c, k2 = s
        if src != "entry":
            return
        memo = {}
        gs += [(subst(c1, binds, memo), v) for c1, v in e.guards if not any(x is c for x in walk(c1))]
        binds = dict(zip(graphs[k2].params, [subst(a, binds, memo) for a in c.args[1:]]))
    if path[:3][-1][4] != k:
        return
    cs = []
    for q in g.params:
        t = binds[q]
        if t is q:
            continue
        if K is not None and (is_status(K, q) or is_status(K, t)):
            cs += [eqi(slen(K.S(t, "it")), slen(K.S(q, "it"))), eqi(K.P(t, "n"), K.P(q, "n"))]
        elif q.ty in ("uint", "int", "char") or lin_like(t):
            cs.append(eqi(t, q))
        else:
            cs.append(eqs(t, q))
    if any(c.op == "bool" and not c.args[0] for c in cs):
        return
    yield gs + [(c, True) for c in cs if c.op != "bool"]
