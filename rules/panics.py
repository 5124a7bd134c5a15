"""Panics: every path that ends in one is shown impossible, or an input is
named on which it is taken."""
import heapq
import itertools
import re
import time

from common import *
from conv import consumers_of, explored, Opaque
from errrules import known, guards, stages_in, where_str
from effects import roots_of

import parserspec as PS


# ------------------------------------------------- which text ends which
def texty(p, t):
    """could this be a text or list, or hold one?"""
    return t.op == "agg" or t.op in ("seq", "drop", "take", "init") or (t.op in ("sym", "phi", "fld", "app", "nth") and is_text(p, t) is not False)


def is_text(p, t):
    if t.ty is None or isinstance(t.ty, str):
        return None
    x = p.types[p.strip(t.ty)]
    if x["k"] == "str":
        return True
    if x["k"] == "adt":
        return x["path"] in ("std::string::String", "std::str::Chars") or None if x["path"] in ("std::string::String", "std::str::Chars") else False
    return x["k"] not in ("uint", "int", "bool", "char", "tuple", "closure") or None


class Ends:
    """what is the end of what: relations between texts that hold at a place"""

    def __init__(self, kit, pairs=()):
        self.K = kit
        self.up = {}
        for a, b in pairs:
            self.up.setdefault(a, []).append(b)

    def tails(self, x):
        """texts x is surely an end of"""
        seen, work = [x], [x]
        while work:
            y = work.pop()
            for z in self.step(y):
                if z not in seen:
                    seen.append(z)
                    work.append(z)
        return seen

    def step(self, y):
        out = list(self.up.get(y, ()))
        if y.op == "drop":
            out.append(y.args[0])
        K = self.K
        if K is not None and y.op == "fld":
            s = y.args[0]
            r = result_of(K, s)
            if r is not None:
                if y is K.S(s, "it"):
                    out.append(K.S(r, "it"))
                    out.append(K.S(s, "text"))
                elif y is K.S(s, "text"):
                    out.append(K.S(r, "text"))
        return out

    def holds(self, x, y):
        if const_str(x) == "":
            return True
        if x.op == "seq" and not x.args[0]:
            return True
        ts = self.tails(x)
        if y in ts:
            return True
        K = self.K
        if K is not None and y.op == "fld":
            r = result_of(K, y.args[0])
            if r is not None and y is K.S(y.args[0], "text"):
                return self.holds(x, K.S(r, "text"))
        ps = parts_of(y)
        if len(ps) > 1 and ps[-1][0] == "S":
            return self.holds(x, ps[-1][1])
        return False


def result_of(K, s):
    """the status that was given to the call this status comes from"""
    # Ok payload, first of the pair
    if s.op != "fld" or s.args[0].op != "fld":
        return None
    a = s.args[0].args[0]
    if a.op == "app" and a.args[0] == "fn:" + K.root and s.args[0].args[1] == 0 and s.args[1] == 0 and s.args[2] == 0:
        return a.args[1 + (1 - K.ei)]
    return None


def same_text(K, s, a, pairs):
    """has the status s the text that a has?"""
    x, y = K.S(s, "text"), K.S(a, "text")
    for _ in range(20):
        if x is y:
            return True
        if x.op == "fld" and result_of(K, x.args[0]) is not None and x is K.S(x.args[0], "text"):
            x = K.S(result_of(K, x.args[0]), "text")
            continue
        break
    return (x, y) in pairs and (y, x) in pairs


def is_status(K, t):
    if t.op == "agg":
        return t.args[0] == K.ST
    if result_of(K, t) is not None:
        return True
    return isinstance(t.ty, int) and not isinstance(t.ty, bool) and K.apath(t.ty) == K.ST


def statuses(K, g):
    """status parameters of a function"""
    p = K.p
    out = []
    for q in g.params:
        if isinstance(q.ty, int) and K.apath(q.ty) == K.ST:
            out.append(q)
    return out


def invariants(K, p, g):
    """for the entry and every head: pairs (x, y), x is an end of y"""
    inv = {"entry": []}
    if K is not None:
        for s in statuses(K, g):
            inv["entry"].append((K.S(s, "it"), K.S(s, "text")))
    ins = {}
    for src, es in [("entry", g.entry)] + [(h, H.edges) for h, H in g.heads.items()]:
        for e in es:
            if e.kind == "head":
                ins.setdefault(e.target, []).append((src, e))
    for h, es in ins.items():
        ps = [x for x in es[0][1].binds if all(x in e.binds for _, e in es) and all(texty(p, e.binds[x]) or (K is not None and is_status(K, e.binds[x])) for _, e in es)]
        if K is not None:
            st = [x for x in ps if any(is_status(K, e.binds[x]) for _, e in es)]
            ps = [K.S(x, r) for x in st for r in ("it", "text")] + [x for x in ps if x not in st]
        tg = list(ps)
        # places of the parameters the first arrivals speak of
        for q, w in inv["entry"]:
            tg += [q, w]
        for _, e in es:
            for x in e.binds.values():
                if K is not None and is_status(K, x):
                    continue
                b = x.args[0] if x.op == "drop" else x
                if b.op in ("sym", "fld") and not phis(b) and b not in tg and texty(p, b):
                    tg.append(b)
        tg = tg[:16]
        ps = ps[:16]
        inv[h] = [(x, y) for x in ps for y in tg if x is not y] + list(inv["entry"])
        if K is not None:
            inv[h] += [(K.S(s, "text"), K.S(x, "text")) for s in statuses(K, g) for x in st]
    change = True
    while change:
        change = False
        for h, es in ins.items():
            for src, e in es:
                E = Ends(K, inv.get(src, ()))
                memo = {}
                f = lambda t: subst(t, e.binds, memo)
                keep = [(x, y) for x, y in inv[h] if (x, y) in inv["entry"] or E.holds(f(x), f(y))]
                if len(keep) != len(inv[h]):
                    inv[h] = keep
                    change = True
    return inv


def impossible(K, p, e, pairs):
    """surely no input takes this path"""
    f = known(e)
    if f is None:
        return True
    E = Ends(K, pairs)
    for c, v in e.guards:
        for t in walk(c):
            if t.op == "app" and t.args[0] == "boundary":
                x, a = t.args[1:3]
                if at_char(E, f, x, a):
                    f = f.assume(t, True)
                    if f is None:
                        return True
                if f.eval(t) is True:
                    f = f.assume(le(a, blen(x)), True)
                    if f is None:
                        return True
    ts = []
    for c, v in e.guards:
        for t in walk(c):
            if t.op in ("blen", "len") and t.args[0] not in ts:
                ts.append(t.args[0])
    for x in ts:
        for y in ts:
            if x is not y and E.holds(x, y):
                for n in (blen, slen):
                    f = f.assume(le(n(x), n(y)), True)
                    if f is None:
                        return True
    # what is known of texts and places in them
    terms = set(t for c, _ in e.guards for t in walk(c))
    more = []
    for t in terms:
        if t.op == "blen" and t.args[0].op == "drop":
            x, n = t.args[0].args
            before = sdrop(x, sub(n, I(1)))
            if before.op != "seq" and f.eval(le(I(1), slen(before))) is True:
                more.append(eqi(add(t, mk("chlen", nth(before, ZERO, ty="char"))), blen(before)))
        if t.op == "eq":
            for x, y in (t.args, t.args[::-1]):
                if x.op == "bslice" and E.holds(y, x.args[0]) and x.args[2] is blen(x.args[0]) and x.args[1] is sub(x.args[2], blen(y)):
                    more.append(t)
        if K is not None and t.op == "app" and t.args[0] == "fn:" + K.root:
            s = t.args[2 - K.ei]
            ok, err = fld(t, 0, 0, "std::result::Result", 1), fld(t, 1, 0, "std::result::Result", 1)
            n = K.P(s, "n")
            more.append(le(n, K.P(fld(ok, 0, 0, "tuple", 2), "n")))
            more.append(le(n, K.f(K.f(err, PS.ERR, "pos"), PS.POS, "n")))
    for c in more:
        f = f.assume(c, True)
        if f is None:
            return True
    # the guards once more, now that more is known
    for c, v in e.guards:
        f = f.assume(c, v)
        if f is None:
            return True
    return contradictory(f)


def contradictory(f):
    """do the bounds of linear forms leave no values at all?"""
    cs = set()
    atoms = set()
    for form, (lo, hi) in f.bnd.items():
        atoms.update(a for a, _ in form)
        if lo > -INF:
            cs.add((tuple(sorted(((a, k) for a, k in form), key=lambda q: q[0].id)), lo))
        if hi < INF:
            cs.add((tuple(sorted(((a, -k) for a, k in form), key=lambda q: q[0].id)), -hi))
    for a in atoms:
        if a.op in ("len", "blen", "chlen", "discr") or a.ty in ("uint", "char"):
            cs.add((((a, 1),), 0))
    # Fourier and Motzkin: sum k*a >= lo
    for a in sorted(atoms, key=lambda a: sum(1 for q, _ in cs if any(x is a for x, _ in q))):
        pos, neg, rest = [], [], set()
        for q, lo in cs:
            k = next((k for x, k in q if x is a), 0)
            (pos if k > 0 else neg).append((q, lo, k)) if k else rest.add((q, lo))
        if len(pos) * len(neg) > 400:
            cs = rest
            continue
        for q1, l1, k1 in pos:
            for q2, l2, k2 in neg:
                d = {}
                for q, w in ((q1, -k2), (q2, k1)):
                    for x, k in q:
                        d[x] = d.get(x, 0) + w * k
                q = tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda q: q[0].id))
                lo = -k2 * l1 + k1 * l2
                if not q and lo > 0:
                    return True
                if q:
                    rest.add((q, lo))
        cs = rest
        if len(cs) > 2000:
            return False
    return False


def at_char(E, f, x, n):
    """is this number of bytes surely between two characters of x?"""
    if f.eval(eqi(n, ZERO)) is True or n is blen(x):
        return True
    d = sub(blen(x), n)
    if d.op == "blen" and E.holds(d.args[0], x):
        return True
    return False


# --------------------------------------------------------------- inputs
class Unknown(Exception):
    pass


# what is left uninterpreted and never panics
TOTAL = re.compile(
    r"_print$|fmt|ToString|to_string|to_owned|impl char|to_(upper|lower|ascii)|is_[a-z]+$|from_utf8|chars$|bytes$|char_indices$|lines$|split|find|trim|"
    r"replace$|concat|join|repeat|Clone|clone|Default|Debug|Display|PartialEq|PartialOrd|Ord|Hash|cmp|::eq$|::ne$|::next(_back)?$|into_iter|iter$|from_iter|"
    r"collect|saturating|wrapping|checked|leading|trailing|count|from_str_radix|parse|FromStr|sort|dedup|rev|retain|clear|get(_mut)?$|first|last|contains|"
    r"starts_with|ends_with|strip_|as_(str|ref|bytes|slice|mut)|is_empty|len$|from_u32$|to_digit$|type_name|now$|elapsed|keys|values|From|Into|max$|min$|rsplit|map$|peek"
)
WHITE = "\t\n\x0b\x0c\r \x85\xa0\u2000\u2003\u2028\u2029\u3000"
SAMPLES = ("", "a", "\u00e9", "\n")


class Solver:
    """values of the places in the conditions of a path that make them true"""

    def __init__(self, K, p, gs, roots, budget=6000):
        self.K, self.p, self.gs = K, p, gs
        self.roots = set(roots)
        self.budget = budget
        self.memo = {}

    def solve(self):
        f = Facts()
        for c, v in self.gs:
            f = f.assume(c, v)
            if f is None:
                return None
        self.f = f
        places = []
        for c, v in self.gs:
            self.places(c, places)
        self.kind = {}
        for x, k in places:
            old = self.kind.get(x)
            if old in (None, "any") or (k == "str" and old == "list"):
                self.kind[x] = k
        order = sorted(self.kind, key=lambda x: (nested(x), {"str": 1, "list": 2, "int": 3}.get(self.kind[x], 4), depth(x), x.id))
        # parts of places that get a value as a whole
        ints = set()
        chars = set("a\u00e9\n")
        for c, v in self.gs:
            for t in walk(c):
                if t.op == "int" and 0 < t.args[0] < 5000:
                    ints.add(t.args[0])
                if t.op in ("le0", "eq0"):
                    lp = lin_parts(t.args[0])
                    ints.add(abs(lp[0]))
                    if any(x.op == "nth" and self.charish(x) for x, _ in lp[1]):
                        k = abs(lp[0])
                        if 0 < k < 0x110000 and not 0xD800 <= k < 0xE000:
                            chars.add(chr(k))
                if t.op == "seq":
                    for k, v2 in t.args[0]:
                        if k == "L" and len(v2) < 40:
                            chars.update(v2[:3])
        self.big = sorted(x for x in ints if 5000 <= x < 0x110001)
        self.ints = sorted(x for x in ints if x < 5000)
        self.chars = sorted(chars)[:9]
        self.n = 0
        for n, t in enumerate(order):
            if self.kind[t] == "no":
                return None
        ix = {x: i for i, x in enumerate(order)}
        self.stage = [[] for _ in range(len(order) + 1)]
        for c, v in self.gs:
            self.stage[max([ix[t] + 1 for t in walk(c) if t in ix] or [0])].append((c, v))
        return self.go(order, 0, {})

    def rooted(self, t):
        """a part of an input, or of something that can be anything"""
        steps = []
        while t.op in ("fld", "nth") or (t.op == "app" and t.args[0] in ("map:get", "map:entries")):
            steps.append(t)
            t = t.args[1] if t.op == "app" else t.args[0]
        if t.op in ("sym", "phi"):
            return t in self.roots or str(t.args[0])[:2] == "el"
        return self.K is not None and t.op == "app" and t.args[0] == "fn:" + self.K.root and self.outcome(t, steps[::-1])

    def outcome(self, r, steps):
        """can this part of what the evaluator returns be anything?"""
        K = self.K
        s, e = r.args[2 - K.ei], r.args[1 + K.ei]
        if not self.rooted(e) or not self.unseen(e, r):
            return False
        if not steps or steps[0].op != "fld":
            return not steps
        if steps[0].args[1] == 1:
            # of an error, its priority
            return len(steps) == 1 or (len(steps) == 2 and steps[1] is K.f(steps[0], PS.ERR, "priority"))
        if len(steps) == 1:
            return True
        if steps[1].args[2] == 1:
            return True
        st = steps[1]
        if len(steps) == 2:
            return False
        if steps[2] in (K.S(st, "text"), K.S(st, "it"), K.S(st, "pos")):
            return True
        if len(steps) == 3 and steps[2] is K.S(st, "pot"):
            o = K.S(s, "pot")
            return o.op == "agg" and o.args[1] == 0
        return False

    def unseen(self, e, r):
        """nothing else depends on what this expression is"""
        key = (e, r)
        if key not in self.memo:
            self.memo[key] = True
            root = "fn:" + self.K.root
            for c, _ in self.gs:
                if not self.clear(c, e, r, root):
                    self.memo[key] = False
                    break
        return self.memo[key]

    def clear(self, t, e, r, root):
        todo, seen = [t], set()
        while todo:
            t = todo.pop()
            if t in seen or t is r:
                continue
            seen.add(t)
            if t is e:
                return False
            todo += kids(t)
        return True

    def charish(self, t):
        return t.ty == "char" or (isinstance(t.ty, int) and not isinstance(t.ty, bool) and self.p.types[self.p.strip(t.ty)]["k"] == "char")

    def places(self, t, out, how="any"):
        op = t.op
        if op in ("int", "bool"):
            return
        if op == "app" and t.args[0] == "map:entries" and self.rooted(t):
            out.append((t, "list"))
            return
        if op in ("sym", "phi", "fld") or (op == "app" and str(t.args[0])[:3] == "fn:"):
            if not self.rooted(t):
                out.append((t, "no"))
                return
            out.append((t, how if how != "any" else self.by_type(t)))
            return
        if op == "discr":
            x = t.args[0]
            if self.rooted(x):
                return  # by the facts
            self.places(x, out)
            return
        if op in ("blen",):
            return self.places(t.args[0], out, "str")
        if op == "len":
            return self.places(t.args[0], out, "str" if self.by_type(t.args[0]) == "str" else "list")
        if op == "chlen":
            return self.places(t.args[0], out, "int")
        if op == "nth":
            self.places(t.args[0], out, "str" if self.charish(t) else "list")
            self.places(t.args[1], out, "int")
            return
        if op in ("drop", "take", "init", "bslice"):
            self.places(t.args[0], out, "str" if op == "bslice" else how)
            for x in t.args[1:]:
                self.places(x, out, "int")
            return
        if op == "seq":
            for k, v in t.args[0]:
                if k == "S":
                    self.places(v, out, how)
                elif k == "E":
                    self.places(v, out, "int" if self.charish(v) else "any")
            return
        if op == "app" and t.args[0] == "boundary":
            self.places(t.args[1], out, "str")
            self.places(t.args[2], out, "int")
            return
        if op == "eq":
            h = "str" if any(const_str(x) not in (None, "") for x in t.args) else "any"
            for x in t.args:
                self.places(x, out, h)
            return
        if op == "lin":
            for x, _ in t.args[1]:
                self.places(x, out, "int" if x.op in ("sym", "fld") else "any")
            return
        for x in kids(t):
            self.places(x, out)

    def by_type(self, t):
        if t.ty == "uint" or t.ty == "int":
            return "int"
        if t.ty == "char":
            return "int"
        if isinstance(t.ty, int) and not isinstance(t.ty, bool):
            x = self.p.types[self.p.strip(t.ty)]
            if x["k"] == "str" or x.get("path") in ("std::string::String", "std::str::Chars"):
                return "str"
            if x["k"] in ("uint", "int", "char"):
                return "int"
            if x["k"] == "bool":
                return "bool"
            if x["k"] in ("slice", "array") or x.get("path") == "std::vec::Vec":
                return "list"
        return "any"

    def values(self, x, env):
        k = self.kind[x]
        if k == "str":
            r = self.result(x, env)
            if r is not None:
                yield from r
                return
            cs = self.chars
            for n in range(0, 4):
                for w in itertools.product(cs, repeat=n):
                    yield "".join(w)
                    if n == 3 and len(cs) > 6:
                        break
            for n in self.ints:
                if n > 3:
                    for m in (n - 1, n, n + 1):
                        yield "a" * m
                        yield "a" * (m - 1) + "\u00e9"
                        yield "\u00e9" * m
                        for c in cs:
                            if c not in "a\u00e9":
                                yield c + "a" * m
                                yield c + c + "a" * m
        elif k == "list":
            for n in range(0, 4):
                yield [mk("sym", "el%d" % i, x.id) for i in range(n)]
        elif k == "int":
            r = self.position(x, env)
            if r is not None:
                yield from r
                return
            if self.charish(x):
                for v in sorted(set([97, 98, 233] + [i + d for i in self.ints + self.big for d in (-1, 0, 1)])):
                    if 0 <= v < 0x110000 and not 0xD800 <= v < 0xE000:
                        yield v
                return
            for v in sorted(set([0, 1, 2, 3] + [max(0, i + d) for i in self.ints for d in (-1, 0, 1)])):
                yield v
        elif k == "bool":
            yield True
            yield False
        else:
            yield None

    def result(self, x, env):
        """values of a place in what the evaluator returns: it goes on in the
        same text"""
        K = self.K
        if K is None or x.op != "fld":
            return None
        r = result_of(K, x.args[0])
        if r is None:
            return None
        try:
            if x is K.S(x.args[0], "text"):
                return [self.ev(K.S(r, "text"), env)]
            if x is K.S(x.args[0], "it"):
                t = self.ev(K.S(r, "it"), env)
                return [t[i:] for i in range(len(t) + 1)]
        except Unknown:
            return []
        return None

    def position(self, x, env):
        """numbers of the position in what the evaluator returns"""
        K = self.K
        if K is None or x.op != "fld" or x.args[0].op != "fld":
            return None
        s = x.args[0].args[0]
        if result_of(K, s) is None or x.args[0] is not K.S(s, "pos"):
            return None
        try:
            r = s
            while result_of(K, r) is not None:
                r = result_of(K, r)
            t = self.ev(K.S(r, "text"), env)
            done = t[: len(t) - len(self.ev(K.S(s, "it"), env))]
        except Unknown:
            return []
        want = {"n": len(done), "row": done.count("\n"), "col": len(done) - 1 - done.rfind("\n"), "start_line": done.rfind("\n") + 1}
        for n, v in want.items():
            try:
                if x is K.P(s, n):
                    return [v]
            except Exception:
                pass
        return []

    def go(self, order, i, env):
        self.n += 1
        if self.n > self.budget:
            return None
        if not self.check(env, i, i == len(order)):
            return None
        if i == len(order):
            return dict(env)
        x = order[i]
        for v in self.values(x, env):
            env[x] = v
            r = self.go(order, i + 1, env)
            if r is not None:
                return r
            if self.n > self.budget:
                break
        env.pop(x, None)
        return None

    def distinct(self, env):
        """do different terms for entries of a map speak of different entries?"""
        gets = {}
        for c, _ in self.gs:
            for t in walk(c):
                if t.op == "app" and t.args[0] in ("map:get", "map:entries"):
                    gets.setdefault(t.args[1], set()).add(t)
        for ts in gets.values():
            if len(ts) < 2:
                continue
            ks = []
            for t in ts:
                k = self.maybe(t.args[2], env) if t.args[0] == "map:get" else None
                if not isinstance(k, str) or k in ks:
                    return False
                ks.append(k)
        return True

    def check(self, env, i, last):
        """the conditions on the first i places"""
        for c, v in self.stage[i]:
            try:
                r = self.ev(c, env)
            except Unknown:
                if not self.free(c):
                    return False
                continue
            if r is not v:
                return False
        return not last or self.distinct(env)

    def free(self, c):
        """a condition on the variant of a place alone: the facts decide"""
        if c.op == "not":
            return self.free(c.args[0])
        if c.op in ("eq0", "le0"):
            lp = lin_parts(c.args[0])
            return len(lp[1]) == 1 and lp[1][0][0].op == "discr" and self.rooted(lp[1][0][0].args[0])
        return False

    def ev(self, t, env):
        if t in env:
            v = env[t]
            if v is None:
                raise Unknown()
            return v
        op, a = t.op, t.args
        if op == "int":
            return a[0]
        if op == "bool":
            return a[0]
        if op == "lin":
            return a[0] + sum(k * self.num(x, env) for x, k in a[1])
        if op == "le0":
            return self.num(a[0], env) <= 0
        if op == "eq0":
            return self.num(a[0], env) == 0
        if op == "not":
            return not self.ev(a[0], env)
        if op == "and":
            x, y = self.maybe(a[0], env), self.maybe(a[1], env)
            if x is False or y is False:
                return False
            if x is None or y is None:
                raise Unknown()
            return True
        if op == "len":
            return len(self.ev(a[0], env))
        if op == "blen":
            return len(self.text(a[0], env).encode())
        if op == "chlen":
            n = self.num(a[0], env)
            if not 0 <= n < 0x110000 or 0xD800 <= n < 0xE000:
                raise Unknown()
            return len(chr(n).encode())
        if op == "nth":
            v, i = self.ev(a[0], env), self.num(a[1], env)
            if not 0 <= i < len(v):
                raise Unknown()
            if isinstance(v, str):
                return ord(v[i])
            return self.ev(v[i], env) if isinstance(v[i], T) else v[i]
        if op in ("drop", "take"):
            v, n = self.ev(a[0], env), self.num(a[1], env)
            if n < 0 or not isinstance(v, (str, list)):
                raise Unknown()
            return v[n:] if op == "drop" else v[:n]
        if op == "init":
            return self.ev(a[0], env)[:-1]
        if op == "seq":
            ps = []
            for k, v in a[0]:
                ps.append(v if k == "L" else [v] if k == "E" and not self.charish(v) else self.ev(v, env))
            if any(isinstance(x, int) and (not 0 <= x < 0x110000 or 0xD800 <= x < 0xE000) for x in ps):
                raise Unknown()
            ps = [chr(x) if isinstance(x, int) else x for x in ps]
            if any(isinstance(x, str) for x in ps):
                ps = [chr(x[0].args[0]) if isinstance(x, list) and len(x) == 1 and isinstance(x[0], T) and x[0].op == "int" and (0 <= x[0].args[0] < 0xD800 or 0xDFFF < x[0].args[0] < 0x110000) else x for x in ps]
            if all(isinstance(x, str) for x in ps):
                return "".join(ps)
            if all(isinstance(x, list) for x in ps):
                return sum(ps, [])
            raise Unknown()
        if op == "eq":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if isinstance(x, str) and isinstance(y, str):
                return x == y
            raise Unknown()
        if op == "bslice":
            v = self.text(a[0], env).encode()
            try:
                return v[self.num(a[1], env) : self.num(a[2], env)].decode()
            except UnicodeDecodeError:
                raise Unknown()
        if op == "app":
            n = a[0]
            if n == "boundary":
                v = self.text(a[1], env).encode()
                for x in a[2:3]:
                    i = self.num(x, env)
                    if not 0 <= i <= len(v):
                        return False
                    try:
                        v[:i].decode()
                    except UnicodeDecodeError:
                        return False
                return True
            if n in ("trimmed", "trimmed_matches"):
                v, q, start = self.text(a[1], env), self.text(a[2], env), a[3].args[0]
                if n == "trimmed":
                    w = v.lstrip(WHITE) if start else v.rstrip(WHITE)
                else:
                    w = v
                    while q and (w.startswith(q) if start else w.endswith(q)):
                        w = w[len(q) :] if start else w[: -len(q)]
                return len(v) - len(w)
            if n == "bytes":
                return list(self.text(a[1], env).encode())
            if n in ("contains", "starts_with", "ends_with"):
                v, q = self.text(a[1], env), self.ev(a[2], env)
                if isinstance(q, int) and not isinstance(q, bool):
                    q = chr(q) if 0 <= q < 0xD800 or 0xDFFF < q < 0x110000 else "?"
                if not isinstance(q, str):
                    raise Unknown()
                return q in v if n == "contains" else v.startswith(q) if n == "starts_with" else v.endswith(q)
            if n in ("str.split", "str.rsplit") and len(a) == 3:
                v = self.text(a[1], env).split(self.text(a[2], env))
                return v[::-1] if n == "str.rsplit" else v
            if n == "overflow":
                v, lo, hi = (self.num(x, env) for x in a[1:4])
                return not lo <= v <= hi
            if n in ("op:Div", "op:Rem"):
                x, y = self.num(a[1], env), self.num(a[2], env)
                if y == 0:
                    raise Unknown()
                return x // y if n == "op:Div" else x % y
            if n == "display" or n == "str":
                x = self.ev(a[1], env)
                if isinstance(x, str):
                    return x
        raise Unknown()

    def maybe(self, t, env):
        try:
            return self.ev(t, env)
        except Unknown:
            return None

    def num(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unknown()
        return v

    def text(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, list) and all(isinstance(x, T) and x.op == "int" and (0 <= x.args[0] < 0xD800 or 0xDFFF < x.args[0] < 0x110000) for x in v):
            v = "".join(chr(x.args[0]) for x in v)
        if not isinstance(v, str):
            raise Unknown()
        return v


def depth(t):
    n = 0
    while t.op in ("fld", "nth") or (t.op == "app" and t.args[0] in ("map:get", "map:entries")):
        t = t.args[1] if t.op == "app" else t.args[0]
        n += 1
    return n


def nested(t):
    return sum(1 for x in walk(t) if x.op == "app" and str(x.args[0])[:3] == "fn:")


# ------------------------------------------------------------------ walks
class Walks:
    """ways from the public functions to a place, as conditions on their inputs"""

    TURNS = 3
    LIMIT = 30000

    def __init__(self, ctx, K, graphs, cands, dead):
        self.end = time.time() + 240
        self.ctx, self.K, self.p = ctx, K, ctx.prog
        self.graphs = graphs
        self.dead = dead
        self.want = {}
        for k, e in cands:
            self.want.setdefault(k, set()).add(id(e))
        self.found = {}
        self.spots = set()
        self.allspots = {self.spot(e) for _, e in cands}
        self.calls = {}
        for k, g in graphs.items():
            for e in g.edges():
                self.calls[id(e)] = [x for x in stages_in(e, set(graphs))]
        # from where something wanted can be reached
        self.leads = set(self.want)
        ch = True
        while ch:
            ch = False
            for k, g in graphs.items():
                if k in self.leads:
                    continue
                if any(c.args[0][3:] in self.leads for e in g.edges() for c in self.calls[id(e)]):
                    self.leads.add(k)
                    ch = True
        self.near = {k: self.nodes(k) for k in self.leads}

    def nodes(self, k):
        g = self.graphs[k]
        src = {"entry": g.entry}
        src.update({h: H.edges for h, H in g.heads.items()})
        good = set()
        ch = True
        while ch:
            ch = False
            for n, es in src.items():
                if n in good:
                    continue
                for e in es:
                    if id(e) in self.want.get(k, ()) or any(c.args[0][3:] in self.leads for c in self.calls[id(e)]) or (e.kind == "head" and e.target in good):
                        good.add(n)
                        ch = True
                        break
        return good

    def run(self, key, seconds, given={}, turns=TURNS):
        self.t0 = time.time()
        self.seconds = min(seconds, self.end - time.time())
        self.roots = self.graphs[key].params
        self.key, self.given, self.turns = key, given, turns
        self.steps = 0
        # first what takes few steps
        n = 0
        queue = [(0, n, (key, "entry", dict(given), (), (), 0))]
        while queue:
            st = heapq.heappop(queue)[2]
            for nx in self.step(*st):
                n += 1
                # with a text given, first what it alone decides
                heapq.heappush(queue, (len(nx[3]) if given else 0, n, nx))
            self.steps += 1
            if self.steps > self.LIMIT or len(queue) > 20000 or time.time() - self.t0 > self.seconds:
                return
            if self.spots >= self.allspots:
                return

    def step(self, key, node, binds, gs, trail, turns):
        g = self.graphs[key]
        es = g.entry if node == "entry" else g.heads[node].edges
        for e in es:
            if e.kind == "stuck":
                continue
            wanted = id(e) in self.want.get(key, ()) and self.spot(e) not in self.spots
            calls = [c for c in self.calls[id(e)] if c.args[0][3:] in self.leads]
            goes = e.kind == "head" and e.target in self.near[key]
            if not wanted and not calls and not goes:
                continue
            if id(e) in self.dead and not calls:
                continue
            memo = {}
            sub1 = lambda t: subst(t, binds, memo)
            cs = []
            f = Facts()
            ok = True
            for c, v in gs:
                f = f.assume(c, v) if f is not None else None
            if f is None:
                continue
            for c, v in e.guards:
                # what is called on the way, before its result matters
                for call in list(calls):
                    if contains(c, lambda x: x is call):
                        calls.remove(call)
                        yield from self.enter(call, sub1, gs + tuple(cs), trail + ((key, e.where),), turns)
                c = sub1(c)
                if c.op == "bool":
                    if c.args[0] != v:
                        ok = False
                        break
                    continue
                f = f.assume(c, v)
                if f is None:
                    ok = False
                    break
                cs.append((c, v))
            if not ok:
                continue
            for call in calls:
                yield from self.enter(call, sub1, gs + tuple(cs), trail + ((key, e.where),), turns)
            if wanted and not (self.given and len(gs) + len(cs) > 40):
                w = Solver(self.K, self.p, gs + tuple(cs), self.roots, 300 if self.given else 6000).solve()
                if w is not None:
                    w.update(self.given)
                    self.spots.add(self.spot(e))
                    self.found[id(e)] = (self.key, w, trail + ((key, e.where),))
            if goes and turns < self.turns + 2:
                nb = {k: v for k, v in binds.items() if k in g.params}
                nb.update((q, sub1(t)) for q, t in e.binds.items())
                yield (key, e.target, nb, gs + tuple(cs), trail, turns + 1)

    def spot(self, e):
        return e.msg, where_str(e.where).split(" < ")[0]

    def enter(self, call, sub1, gs, trail, turns):
        k = call.args[0][3:]
        if len(trail) > 3 or k not in self.leads:
            return
        ps = self.graphs[k].params
        if len(ps) != len(call.args) - 1:
            return
        yield (k, "entry", {q: sub1(a) for q, a in zip(ps, call.args[1:])}, gs, trail, 0)


# ------------------------------------------------------------------- check
def collect(ctx, p, K, cons):
    roots = roots_of(p, ("\0",))
    roots = [k for k in roots if p.raw[k]["krate"] == p.crate]
    cut = set(cons)
    for n in ("parse", "parse_debug", "peg::rules_from_peg"):
        cut.add(ctx.public(n))
    if K is not None:
        cut.add(K.root)
    graphs = {}
    work = list(roots)
    while work:
        k = work.pop(0)
        if k in graphs or k in cons:
            continue
        graphs[k] = g = ctx.graph(k, cut=sorted(cut - {k}))
        for e in g.edges():
            for c, _ in e.guards:
                work += callees(p, c)
            for t in [e.value] + list((e.binds or {}).values()) + list((e.cells or {}).values()):
                if t is not None:
                    work += callees(p, t)
    return roots, graphs


def callees(p, t):
    return [x.args[0][3:] for x in walk(t) if x.op == "app" and isinstance(x.args[0], str) and x.args[0][:3] == "fn:" and x.args[0][3:] in p.raw]


def describe(env, p):
    out = []
    for x, v in env.items():
        if isinstance(v, T):
            v = const_str(v)
        if isinstance(v, list):
            v = "a list of %d" % len(v)
        elif isinstance(v, str):
            v = repr(v) if len(v) < 60 else repr(v[:20]) + "... (%d characters)" % len(v)
        out.append("%s = %s" % (pretty(x, p)[:80], v))
    return "; ".join(out)


def conversion(ctx, rep):
    """panics of the functions that convert grammars, on the nodes they get"""
    try:
        c = explored(ctx, rep)
    except Opaque as x:
        rep.undec("the conversion of grammars: %s" % x)
        return None
    rep.count("functions of the conversion", len(c.functions))
    rep.count("paths along streams of nodes", sum(r["paths"] for r in c.results.values()))
    for u in c.undec:
        rep.undec(u)
    bad = set()
    for f in c.fails:
        if "panic" not in f.what:
            continue
        bad.add(f.root)
        w = c.witness(f.root, f.st)
        k = "%s:%s" % (c.rootname(f.root), f.what[:60])
        if w is None:
            rep.undec("%s %s on nodes for which no text was found" % (c.rootname(f.root), f.what))
        else:
            rep.violate(k, "%s %s, for the grammar text %r" % (c.rootname(f.root), f.what, w), f.where, "")
    rep.ok(sum(x["paths"] for r, x in c.results.items() if r not in bad))
    return c


def c11(ctx, rep):
    p = ctx.prog
    try:
        K = ctx.kit
    except GiveUp as x:
        K = None
        rep.undec("the evaluator: %s" % x)
    cons = consumers_of(p)
    roots, graphs = collect(ctx, p, K, cons)
    rep.count("public functions", len(roots))
    rep.count("functions with their own paths", len(graphs))
    cands, dead = [], set()
    npanic = 0
    for k, g in graphs.items():
        path = p.raw[k]["path"]
        for m in g.stuck:
            rep.undec("%s: %s" % (path, m))
        for n in g.opaque:
            if not TOTAL.search(n):
                rep.undec("%s calls %s, which is not known never to panic" % (path, n))
        inv = invariants(K, p, g)
        for src, es in [("entry", g.entry)] + [(h, H.edges) for h, H in g.heads.items()]:
            for e in es:
                if e.kind == "panic":
                    npanic += 1
                    if impossible(K, p, e, inv.get(src, ())):
                        rep.ok()
                        dead.add(id(e))
                    else:
                        cands.append((k, e))
                elif known(e) is not None and K is not None:
                    onward(K, rep, p, k, g, e, inv.get(src, ()))
    rep.count("paths that end in a panic", npanic)
    conv = conversion(ctx, rep)
    sure = settled(p, ctx, cands, conv)
    left = []
    for k, e in cands:
        f = known(e)
        for t, ok in sure.items():
            f = f and f.assume(eqi(discr(t), ZERO), ok)
        if f is None:
            rep.ok()
            dead.add(id(e))
        else:
            left.append((k, e))
    if not left:
        return
    W = Walks(ctx, K, graphs, left, dead)
    for k in roots:
        if k in W.leads:
            W.run(k, 30)
    # places only long texts lead to
    for k, e in left:
        if W.spot(e) not in W.spots:
            for v in texts_for(K, p, graphs[k], e):
                for r in roots:
                    q = graphs[r].params
                    if W.spot(e) not in W.spots and r in W.leads and q and is_str(p, q[0]):
                        W.run(r, 20, {q[0]: S(v)}, 2 * len(v) + 10)
    for k, e in left:
        w = W.found.get(id(e))
        at = where_str(e.where)
        if w is not None:
            r, env, trail = w
            name, path = p.raw[r]["path"], p.raw[k]["path"]
            rep.violate("%s:%s:%s" % (path, e.msg, at.split(":")[0]), "%s panics (%s%s), with %s" % (name, e.msg, "" if r == k else " in " + path, describe(env, p)), at, "\n".join("    called from %s" % where_str(x) for _, x in trail[:-1]))
        elif W.spot(e) not in W.spots:
            rep.undec("%s may panic (%s) at %s" % (p.raw[k]["path"], e.msg, at.split(" < ")[0]))


def is_str(p, q):
    return isinstance(q.ty, int) and not isinstance(q.ty, bool) and p.types[p.strip(q.ty)]["k"] == "str"


def texts_for(K, p, g, e):
    """texts that may lead to a path: what its conditions ask for, whatever
    came before it"""
    roots = set(g.params) | set(x for c, _ in e.guards for x in walk(c) if x.op == "phi")
    w = Solver(K, p, tuple(e.guards), roots).solve()
    out = []
    for v in (w or {}).values():
        if isinstance(v, str) and len(v) > Walks.TURNS and v not in out:
            out.append(v)
    return out[:2]


def settled(p, ctx, cands, conv):
    """grammars that are part of the program: are they accepted?"""
    rfp = ctx.public("peg::rules_from_peg")
    out = {}
    if conv is None or conv.undec or conv.fails:
        return out
    for k, e in cands:
        for c, _ in e.guards:
            for t in walk(c):
                if t.op == "app" and t.args[0] == "fn:" + rfp and const_str(t.args[1]) is not None:
                    out[t] = conv.gram.parse(const_str(t.args[1])) is not None
    return out


def onward(K, rep, p, k, g, e, pairs):
    """what the evaluator is given, and returns, is an end of its text"""
    E = Ends(K, pairs)
    path = p.raw[k]["path"]
    seen = set()
    for t in [c for c, _ in e.guards] + [e.value] + list((e.binds or {}).values()):
        if t is None:
            continue
        for x in walk(t):
            if x.op == "app" and x.args[0] == "fn:" + K.root and x not in seen:
                seen.add(x)
                s = x.args[2 - K.ei]
                if E.holds(K.S(s, "it"), K.S(s, "text")):
                    rep.ok()
                else:
                    rep.undec("%s hands on a status whose rest is not shown to be an end of its text (%s)" % (path, where_str(e.where).split(" < ")[0]))
    if k == K.root and e.kind == "ret" and e.value is not None:
        v = e.value
        a = K.args(g)[0]
        if v.op == "agg" and v.args[1] == 0 and v.args[2][0].op == "agg":
            s = v.args[2][0].args[2][0]
        elif v.op == "app" and v.args[0] == "fn:" + K.root:
            s = v.args[2 - K.ei]
        elif v.op == "agg" and v.args[1] == 1:
            return
        else:
            rep.undec("%s returns %s" % (path, pretty(v, p)[:100]))
            return
        if same_text(K, s, a, pairs) and E.holds(K.S(s, "it"), K.S(a, "it")):
            rep.ok()
        else:
            rep.undec("%s: the rest is not shown to be an end of the text before (%s)" % (path, where_str(e.where).split(" < ")[0]))
