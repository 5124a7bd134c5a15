"""Where an induction over the tree fails: trees of given shapes, with any names
and texts, are followed along the paths of the functions, to tell a form the
equations do not cover from a result that is none of theirs.

The names and texts stay symbols while a path is followed; a path counts when
texts are found under which all of its conditions hold and the result differs
from what the equations say of that very tree."""
from common import *
from parserspec import NODE
from terms import feasible
import conv

MAXC = 24


class Enough(Exception):
    pass


class State:
    def __init__(self, facts=None, conds=(), m=None):
        self.facts = facts or Facts()
        self.conds = conds
        self.m = m or {}

    def assume(self, t, v):
        f = self.facts.assume(t, v)
        if f is None:
            return None
        return State(f, self.conds + ((t, v),), self.m)

    def with_call(self, pairs):
        m = dict(self.m)
        m.update(pairs)
        return State(self.facts, self.conds, m)


def is_call(t):
    return t.op == "app" and isinstance(t.args[0], str) and t.args[0].startswith("fn:")


class Follow:
    """paths of functions of a recursion on arguments whose shape is known"""

    def __init__(self, graphs, budget=4000, turns=10):
        self.graphs, self.budget, self.turns = graphs, budget, turns
        self.whole = budget
        self.cut = False
        self.last = None

    def used(self):
        return self.whole - max(0, self.budget)

    def val(self, t, st):
        memo = {}

        def go(x):
            r = memo.get(x)
            if r is None:
                y = st.m.get(x)
                if y is not None:
                    r = y
                else:
                    z = conv.fold(rebuild(x, go))
                    r = z if z is x or z not in st.m else st.m[z]
                memo[x] = r
            return r

        for _ in range(8):
            memo.clear()
            y = go(t)
            if y is t:
                break
            t = y
        return t

    def first_call(self, t):
        seen = set()

        def go(x):
            if x in seen:
                return None
            seen.add(x)
            for k in kids(x):
                r = go(k)
                if r is not None:
                    return r
            return x if is_call(x) else None

        return go(t)

    def values(self, ts, env, st, depth):
        ts = [self.val(subst(t, env), st) for t in ts]
        for t in ts:
            c = self.first_call(t)
            if c is not None:
                break
        else:
            yield ts, st
            return
        key = c.args[0][3:].split("#mut")[0]
        name = "fn:" + key
        for v, cells, s in self.call(key, c.args[1:], st, depth + 1):
            pairs = {}
            if v is not None:
                pairs[app(name, *c.args[1:], ty=c.ty)] = v
            n = 0
            for i, p in enumerate(self.graphs[key].params):
                if p.op == "mref":
                    pairs[app(name + "#mut%d" % n, *c.args[1:])] = cells.get("p%d" % i)
                    n += 1
            pairs = {k: v for k, v in pairs.items() if v is not None}
            if c not in pairs:
                self.cut = True
                continue
            yield from self.values(ts, {}, s.with_call(pairs), depth)

    def call(self, key, args, st, depth=0):
        g = self.graphs.get(key)
        if g is None or g.stuck or depth > 12:
            self.cut = True
            return
        env = {}
        for i, (p, a) in enumerate(zip(g.params, args)):
            env[g.pointees[i] if p.op == "mref" else p] = a
        yield from self.at(g, g.entry, env, st, depth, {})

    def at(self, g, edges, env, st, depth, turns):
        self.budget -= 1
        if self.budget < 0:
            raise Enough()
        for e, s in self.choose([(e, 0) for e in edges], env, st, depth):
            if e.kind == "ret":
                self.last = e
                cs = {c: t for c, t in e.cells.items() if c[0] == "p"}
                ts = ([] if e.value is None else [e.value]) + list(cs.values())
                for vs, s2 in self.values(ts, env, s, depth):
                    v = vs.pop(0) if e.value is not None else None
                    yield v, dict(zip(cs, vs)), s2
            elif e.kind == "head":
                n = turns.get(e.target, 0) + 1
                if n > self.turns:
                    self.cut = True
                    continue
                ps = list(e.binds)
                for vs, s2 in self.values([e.binds[p] for p in ps], env, s, depth):
                    env2 = dict(env)
                    env2.update(zip(ps, vs))
                    yield from self.at(g, g.heads[e.target].edges, env2, s2, depth, dict(turns, **{e.target: n}) if isinstance(e.target, str) else {**turns, e.target: n})
            else:
                self.cut = True

    def choose(self, cands, env, st, depth):
        live = []
        first = None
        for e, i in cands:
            no = False
            while i < len(e.guards):
                c, v = e.guards[i]
                t = self.val(subst(c, env), st)
                k = self.first_call(t)
                if k is not None:
                    for _, s in self.values([t], {}, st, depth):
                        yield from self.choose(cands, env, s, depth)
                    return
                r = t.args[0] if t.op == "bool" else st.facts.eval(t)
                if r is None:
                    first = first if first is not None else t
                    break
                if r != v:
                    no = True
                    break
                i += 1
            if no:
                continue
            if i == len(e.guards) and not live:
                yield e, st
                return
            live.append((e, i))
        if first is None:
            return
        for v in (True, False):
            s = st.assume(first, v)
            if s is not None:
                self.budget -= 1
                if self.budget < 0:
                    raise Enough()
                yield from self.choose(live, env, s, depth)


# ------------------------------------------------------------------- shapes
# V: a text, E: the end, (..): a rule of these nodes
MORE = [
    ("V", "V", "V", "V"), ("V", ("V", "V"), "V"), ((("V",), "V"), "V"), (("V",), "V", ("V",)), (((("V",),),),), (("V", "V"), ("V", "V")),
    ("V", "E", "V", "V"), ((("V",),), ("V",)), (("V", (), "V"),), ("V", ("V",), "V", "V"), ((("V", "V"),), "V"), (("V",), ("E",), ("V",)),
]


def forests(n):
    """all lists of trees of n nodes"""
    if n == 0:
        return [()]
    return [(t,) + f for k in range(1, n + 1) for t in trees(k) for f in forests(n - k)]


def trees(n):
    return ["V", "E", ()] if n == 1 else forests(n - 1)


SHAPES = ["V", "E"] + [f for n in range(4) for f in forests(n)] + MORE + forests(4)


class Trees:
    def __init__(self, K):
        self.K = K

    def build(self, shape, syms):
        """the node as a term, its names and texts symbols"""
        K = self.K

        def sym(kind):
            s = mk("sym", "%s%d" % (kind, len(syms)), "shape")
            s.ty = "str"
            syms.append(s)
            return s

        def go(x):
            if x == "V":
                return K.new(NODE, "Val", sym("text"))
            if x == "E":
                return K.new(NODE, "EOF")
            n = sym("name")
            return K.new(NODE, "Rule", tup(n, vec_of([go(y) for y in x])))

        return go(shape)

    def read(self, t, path=NODE):
        """a node as tuples, None when it is not all known"""
        if t.op != "agg" or t.args[0] != path:
            return None
        v = self.K.adt(path)["variants"][t.args[1]]["name"]
        if v == "EOF":
            return ("E",)
        x = t.args[2][0] if t.args[2] else None
        if v == "Rule":
            if x is None or x.op != "agg" or len(x.args[2]) != 2:
                return None
            n, xs = const_str(conv.canon(x.args[2][0])), self.read_list(x.args[2][1], path)
            return None if n is None or xs is None else ("R", n, xs)
        n = const_str(conv.canon(x)) if x is not None else None
        return None if n is None else (v, n)

    def read_list(self, t, path=NODE):
        t = conv.canon(t)
        if t.op != "seq":
            return None
        out = []
        for k, v in parts_of(t):
            if k != "E":
                return None
            r = self.read(v, path)
            if r is None:
                return None
            out.append(r)
        return tuple(out)


def texts_of(conds):
    out = ["a", "b", "", " ", "_"]
    for c, _ in conds:
        for x in walk(c):
            k = const_str(x) if x.op == "seq" else chr(x.args[0]) if x.op == "int" and 32 <= x.args[0] < 127 else None
            if k:
                for w in (k, k + "a", "a" + k, k + k, "a" + k + "a"):
                    if w not in out:
                        out.append(w)
    return out[:MAXC]


def ground(t, m):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            r = memo[x] = m[x] if x in m else conv.fold(rebuild(x, go))
        return r

    for _ in range(6):
        y = go(t)
        if y is t:
            break
        t = y
        memo.clear()
    return t


def assignments(syms, conds, limit=6000):
    """texts for the symbols under which the conditions hold"""
    words = texts_of(conds)
    at = [[] for _ in range(len(syms) + 1)]
    for c, v in conds:
        inside = set(walk(c))
        at[max([i + 1 for i, s in enumerate(syms) if s in inside] or [0])].append((c, v))
    left = [limit]

    def go(i, m):
        left[0] -= 1
        if left[0] < 0:
            return
        if not all(ground(c, m) is B(v) for c, v in at[i]):
            return
        if i == len(syms):
            yield dict(m)
            return
        # different symbols get different texts first
        k = i % len(words)
        for w in words[k:] + words[:k]:
            m[syms[i]] = S(w)
            yield from go(i + 1, m)
            del m[syms[i]]

    yield from go(0, {})


def show(x):
    if isinstance(x, tuple) and x and isinstance(x[0], tuple):
        return "[%s]" % ", ".join(show(y) for y in x)
    if x == ():
        return "[]"
    if x[0] == "E":
        return "EOF"
    if x[0] == "R":
        return "%r%s" % (x[1], show(x[2]) if x[2] else "[]")
    if x[0] == "Val":
        return "%r" % x[1]
    return "%s %r" % (x[0], x[1])
