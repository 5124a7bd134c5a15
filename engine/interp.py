"""Abstract interpretation of MIR over value terms.

The state of a program point is a map from places to terms plus the facts known
there.  Paths are kept apart between loop heads; at a loop head the incoming
states are joined by anti-unification, every place where they differ becomes a
phi symbol, until the head is stable.  The result for a function is a finite
transition system: entry and loop heads as nodes, and edges carrying the guards
passed and the values bound to the phis, or ending in a return or a panic.
Nothing is executed and no solver is asked; loops and recursion are covered for
every number of iterations.
"""
import models
import re
from terms import *


class Stuck(Exception):
    pass


class Frame:
    __slots__ = ("fn", "bb", "locals", "dest", "ret", "destty", "callline")

    def __init__(self, fn, bb, locals, dest, ret, destty, callline):
        self.fn, self.bb, self.locals = fn, bb, locals
        self.dest, self.ret, self.destty, self.callline = dest, ret, destty, callline

    def copy(self):
        return Frame(self.fn, self.bb, dict(self.locals), self.dest, self.ret, self.destty, self.callline)


class State:
    __slots__ = ("frames", "cells", "facts", "guards", "loops", "where", "steps", "arrive", "notes")

    def __init__(self):
        self.frames = []
        self.cells = {}
        self.facts = Facts()
        self.guards = ()
        self.loops = ()
        self.where = ()
        self.steps = 0
        self.arrive = False
        self.notes = ()

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.cells = dict(self.cells)
        s.facts = self.facts
        s.guards = self.guards
        s.loops = self.loops
        s.where = self.where
        s.steps = self.steps
        s.arrive = self.arrive
        s.notes = self.notes
        return s


class Edge:
    __slots__ = ("src", "guards", "kind", "target", "binds", "value", "cells", "facts", "where", "msg", "inc", "notes")

    def __repr__(self):
        return "<%s %s->%s>" % (self.kind, self.src, self.target)


# heads are numbered through the whole process: terms are shared by all graphs,
# and a variable of one graph must not carry the type of another's
_heads = [0]


class Head:
    def __init__(self, uid, key, state, fn, line):
        self.uid, self.key, self.state = uid, key, state
        self.nphi = 0
        self.fn = fn
        self.line = line
        self.rounds = 0
        self.edges = []


class Graph:
    """transition system of one function"""

    def __init__(self):
        self.entry = []
        self.heads = {}
        self.stuck = []
        self.ret_cells = {}

    def edges(self):
        for e in self.entry:
            yield e
        for h in self.heads.values():
            for e in h.edges:
                yield e

    def returns(self):
        return [e for e in self.edges() if e.kind == "ret"]

    def panics(self):
        return [e for e in self.edges() if e.kind == "panic"]


CALLS = ("call", "call_mut", "call_once")


def limits(tk):
    """least and greatest value of a type of numbers"""
    n = 8 * tk["bytes"]
    return (I(-(1 << (n - 1))), I((1 << (n - 1)) - 1)) if tk.get("signed") else (ZERO, I((1 << n) - 1))


class Interp:
    def __init__(self, prog, cut=(), inline=None, opaque=None, max_steps=400000, max_edges=6000, summaries=None):
        self.summaries = summaries.get if summaries else lambda k: None
        self.p = prog
        self.cut = set(cut)
        self.opaque = opaque
        self.max_steps = max_steps
        self.max_edges = max_edges
        self.total = 0
        self.cutcalls = {}
        self.opaque_calls = {}
        self.visited = set()
        self.live_cache = {}

    # ---------------------------------------------------------------- types
    def fields_of(self, path, variant, ti=None):
        """number of fields, field type tags"""
        if ti is not None:
            t = self.p.types[ti]
            if t["k"] == "tuple":
                return [self.p.tag(e) for e in t["es"]]
            if t["k"] == "closure":
                return [self.p.tag(e) for e in t["ups"]]
            if t["k"] == "adt" and t["variants"]:
                return [self.p.tag(f[1]) for f in t["variants"][variant]["fields"]]
        t = self.p.adt(path)
        if t and t["variants"]:
            return [self.p.tag(f[1]) for f in t["variants"][variant]["fields"]]
        return None

    def sym(self, name, ti):
        """a parameter; terms are shared, so the name says whose it is"""
        return mk("sym", name, self.p.serial, self.fkey, ty=self.p.tag(ti))

    # ----------------------------------------------------------------- cells
    def get_cell(self, st, c):
        d, l = c
        if d == "c":
            return st.cells.get(l)
        return st.frames[d].locals.get(l)

    def set_cell(self, st, c, v):
        d, l = c
        if d == "c":
            st.cells[l] = v
        else:
            st.frames[d].locals[l] = v

    def proj(self, v, p):
        if v is None:
            return mk("undef")
        k = p[0]
        if k == "f":
            _, variant, idx, basety, fty = p
            t = self.p.types[basety]
            if t["k"] == "adt" and t["path"] in models.TRANSPARENT:
                return v
            if v.op == "mref":
                return v
            fs = self.fields_of(None, variant, basety)
            nf = len(fs) if fs is not None else 0
            if v.op != "agg" and fs is None:
                return mk("fld", v, variant, idx, "?", 0, ty=self.p.tag(fty))
            return fld(v, variant, idx, self.p.tpath(basety), nf, ty=self.p.tag(fty))
        if k == "i":
            return nth(v, p[1], ty=self.elem_tag(v, p[2]))
        if k == "last":
            return slast(v, ty=self.elem_tag(v, p[1]))
        if k == "ss":
            _, a, b, fe = p
            r = sdrop(v, I(a))
            if fe:
                n = sub(slen(v), I(a + b))
                return stake(r, n) if b else r
            return stake(r, I(b - a))
        raise Stuck("proj %s" % (p,))

    def elem_tag(self, v, ety):
        return ety

    def read(self, st, cell, projs):
        v = self.get_cell(st, cell)
        for p in projs:
            if v is not None and v.op == "mref":
                if p[0] == "f" and self.p.types[p[3]].get("path") in models.TRANSPARENT:
                    continue
                v = self.read_mref(st, v)
            v = self.proj(v, p)
        return v

    def read_mref(self, st, m):
        return self.read(st, m.args[0], m.args[1])

    def upd(self, v, projs, x):
        if not projs:
            return x
        p = projs[0]
        k = p[0]
        if k == "f":
            _, variant, idx, basety, fty = p
            t = self.p.types[basety]
            if t["k"] == "adt" and t["path"] in models.TRANSPARENT:
                return self.upd(v, projs[1:], x)
            path = self.p.tpath(basety)
            fs = self.fields_of(path, variant, basety)
            if fs is None:
                raise Stuck("write to unknown field")
            if v is not None and v.op == "agg" and v.args[1] == variant:
                cur = list(v.args[2])
            elif v is None or v.op in ("undef",) or v.op == "agg":
                cur = [None] * len(fs)
            else:
                cur = [fld(v, variant, i, path, len(fs), ty=fs[i]) for i in range(len(fs))]
            cur[idx] = self.upd(cur[idx], projs[1:], x)
            return agg(path, variant, cur, ty=v.ty if v is not None else None)
        if k == "i":
            old = self.proj(v, p) if len(projs) > 1 else None
            return supd(v, p[1], self.upd(old, projs[1:], x))
        if k == "last":
            old = self.proj(v, p) if len(projs) > 1 else None
            return supd(v, sub(slen(v), I(1)), self.upd(old, projs[1:], x))
        raise Stuck("write through %s" % (p,))

    def write(self, st, cell, projs, x):
        # follow references met on the way
        v = self.get_cell(st, cell)
        for i, p in enumerate(projs):
            if v is not None and v.op == "mref":
                return self.write(st, v.args[0], v.args[1] + tuple(projs[i:]), x)
            if v is None:
                break
            if i < len(projs):
                v = self.proj(v, p) if not (v.op == "undef") else None
        v = self.get_cell(st, cell)
        self.set_cell(st, cell, self.upd(v, list(projs), x) if projs else x)

    def write_mref(self, st, m, x):
        if m.op != "mref":
            raise Stuck("write through opaque reference")
        self.write(st, m.args[0], m.args[1], x)

    def resolve(self, st, place):
        """place -> (cell, projs); derefs of &mut lead to the cell behind"""
        fr = len(st.frames) - 1
        cell = (fr, place[0])
        projs = []
        variant = 0
        for e in place[1]:
            k = e[0]
            if k == "D":
                v = self.read(st, cell, projs)
                if v is not None and v.op == "mref":
                    cell, projs = v.args[0], list(v.args[1])
            elif k == "v":
                variant = e[1]
            elif k == "f":
                v = self.read(st, cell, projs) if projs or True else None
                if v is not None and v.op == "mref" and self.p.types[e[3]]["k"] not in ("ref", "raw"):
                    bt = self.p.types[e[3]]
                    if not (bt["k"] == "adt" and bt["path"] in models.TRANSPARENT):
                        cell, projs = v.args[0], list(v.args[1])
                projs.append(("f", variant, e[1], e[3], e[2]))
                variant = 0
            elif k == "i":
                iv = st.frames[fr].locals.get(e[1])
                projs.append(("i", iv, None))
            elif k == "ci":
                if e[3]:
                    v = self.read(st, cell, projs)
                    projs.append(("i", sub(slen(v), I(e[1])), None))
                else:
                    projs.append(("i", I(e[1]), None))
            elif k == "ss":
                projs.append(("ss", e[1], e[2], e[3]))
            elif k == "oc":
                pass
            else:
                raise Stuck("place %s" % (e,))
        return cell, tuple(projs)

    def place(self, st, place):
        if not place[1]:
            return st.frames[-1].locals.get(place[0])
        c, p = self.resolve(st, place)
        return self.read(st, c, p)

    # -------------------------------------------------------------- operands
    def const(self, c, ti):
        k = c[0]
        if k == "int":
            return I(int(c[1]))
        if k == "bool":
            return B(c[1])
        if k == "char":
            return I(c[1])
        if k == "str":
            return S(c[1])
        ts = self.p.strip(ti)
        t = self.p.types[ts]
        if k == "arr":
            et = t.get("e", ti)
            return vec_of([self.const(x, et) for x in c[1]])
        if k == "tuple":
            es = t.get("es", [])
            return agg("tuple", 0, [self.const(x, es[i]) for i, x in enumerate(c[1])])
        if k == "adt":
            path = self.p.tpath(ts)
            if path in models.SEQ_TYPES:
                return EMPTY
            if t["k"] == "adt" and path in models.TRANSPARENT and c[2]:
                return self.const(c[2][0], t["variants"][0]["fields"][0][1])
            fs = t["variants"][c[1]]["fields"]
            return agg(path, c[1], [self.const(x, fs[i][1]) for i, x in enumerate(c[2])], ty=ts)
        if k == "fndef":
            return mk("fn", t.get("inst"), t.get("path"))
        if k == "fn":
            return mk("fn", c[1], None)
        if k == "closure":
            return agg("clo:" + str(t["inst"]), 0, [])
        if k == "zst":
            if t["k"] == "fndef":
                return mk("fn", t.get("inst"), t.get("path"))
            if t["k"] == "closure":
                return agg("clo:" + str(t["inst"]), 0, [])
            if t["k"] == "adt" and len(t["variants"]) == 1:
                return agg(self.p.tpath(ts), 0, [])
            return UNIT
        return mk("atom", "const:%s" % t["s"], ty=self.p.tag(ti))

    def operand(self, st, o):
        if o[0] == "k":
            return self.const(o[1][0], o[1][1])
        v = self.place(st, o[1])
        return mk("undef") if v is None else v

    # --------------------------------------------------------------- rvalues
    def rvalue(self, st, r):
        """list of (state, value)"""
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, r[1]))]
        if k == "ref":
            if r[1] == "m":
                c, p = self.resolve(st, r[2])
                v = self.read(st, c, p)
                if v is not None and v.op == "mref" and r[2][1] and r[2][1][-1][0] == "D":
                    return [(st, v)]
                return [(st, mk("mref", c, p))]
            v = self.place(st, r[2])
            if v is not None and v.op == "mref" and r[2][1] and r[2][1][-1][0] == "D":
                v = self.read_mref(st, v)
            return [(st, mk("undef") if v is None else v)]
        if k == "discr":
            v = self.place(st, r[1])
            if v.op == "mref":
                v = self.read_mref(st, v)
            d = discr(v)
            if d.op == "discr":
                t = self.p.types[r[2]]
                if t["k"] == "adt":
                    ds = [x["discr"] for x in t["variants"]]
                    f = st.facts.assume(le(I(min(ds)), d))
                    f = f and f.assume(le(d, I(max(ds))))
                    if f is None:
                        return []
                    st.facts = f
            return [(st, d)]
        if k == "len":
            v = self.place(st, r[1])
            return [(st, slen(v))]
        if k in ("bin", "cbin"):
            a, b = self.operand(st, r[2]), self.operand(st, r[3])
            return self.binop(st, r[1], a, b, r[4], k == "cbin")
        if k == "un":
            a = self.operand(st, r[2])
            if r[1] == "Not":
                return [(st, NOT(a) if self.isbool(a) else app("bitnot", a, ty=a.ty))]
            if r[1] == "Neg":
                return [(st, scale(a, -1))]
            if r[1] == "PtrMetadata":
                if a.op == "mref":
                    a = self.read_mref(st, a)
                return [(st, slen(a))]
            return [(st, app("un:" + r[1], a))]
        if k == "cast":
            v = self.operand(st, r[2])
            if v.op == "fn" or v.op == "mref":
                return [(st, v)]
            dt = self.p.tag(r[4])
            if r[1] in ("IntToInt",):
                sb = self.p.types[r[3]].get("bytes")
                db = self.p.types[r[4]].get("bytes")
                if self.p.types[r[3]]["k"] == "adt":
                    v = discr(v)
                    return [(st, v)]
                top = self.p.types[r[4]]["k"] == "int" and I((1 << (8 * db - (1 if self.p.types[r[4]]["signed"] else 0))) - 1)
                if v.op == "discr" and sb and db and top and st.facts.eval(le(ZERO, v)) is True and st.facts.eval(le(v, top)) is True:
                    # the number of a variant that is known to fit
                    return [(st, v)]
                if sb and db and db < sb and not is_int(v):
                    return [(st, app("trunc%d" % db, v, ty=dt))]
                if is_int(v) and db and self.p.types[r[4]]["k"] == "int":
                    n = v.args[0] & ((1 << (8 * db)) - 1)
                    if self.p.types[r[4]]["signed"] and n >> (8 * db - 1):
                        n -= 1 << (8 * db)
                    return [(st, I(n))]
                return [(st, v)]
            return [(st, v)]
        if k == "repeat":
            v = self.operand(st, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return [(st, vec_of([v] * n))]
            return [(st, app("repeat", v, I(n or 0)))]
        if k == "agg":
            ops = [self.operand(st, o) for o in r[2]]
            if r[1] == "arr":
                return [(st, vec_of(ops))]
            if r[1] == "tuple":
                return [(st, agg("tuple", 0, ops))]
            if r[1] == "adt":
                path = self.p.tpath(r[3])
                if path in models.TRANSPARENT and ops:
                    return [(st, ops[0])]
                return [(st, agg(path, r[4], ops, ty=r[3]))]
            if r[1] == "clo":
                return [(st, agg(self.p.tpath(r[3]), 0, ops, ty=r[3]))]
            if r[1] == "rawptr":
                return [(st, ops[0])]
        return [(st, app("rvalue:" + str(r[1])[:30]))]

    def isbool(self, a):
        return a.op in ("bool", "not", "and", "le0", "eq0", "eq") or a.ty == "bool"

    def binop(self, st, op, a, b, ty, checked):
        tk = self.p.types[ty]
        if a.op == "mref":
            a = self.read_mref(st, a)
        if b.op == "mref":
            b = self.read_mref(st, b)
        k = tk["k"]
        if op in ("Eq", "Ne"):
            if k == "bool":
                if b.op == "bool":
                    e = a if b.args[0] else NOT(a)
                elif a.op == "bool":
                    e = b if a.args[0] else NOT(b)
                else:
                    e = eqs(a, b)
            elif k in ("int", "char", "adt"):
                e = eqi(a, b)
            else:
                e = eqs(a, b)
            return [(st, e if op == "Eq" else NOT(e))]
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op in ("Gt", "Ge"):
                a, b = b, a
            e = lt(a, b) if op in ("Lt", "Gt") else le(a, b)
            if k == "bool":
                e = AND(NOT(a), b) if op in ("Lt", "Gt") else NOT(AND(a, NOT(b)))
            return [(st, e)]
        if op in ("BitAnd", "BitOr", "BitXor") and k == "bool":
            if op == "BitAnd":
                return [(st, AND(a, b))]
            if op == "BitOr":
                return [(st, OR(a, b))]
            return [(st, NOT(eqs(a, b)) if a.op != "bool" and b.op != "bool" else (NOT(b) if a is TRUE else b if a is FALSE else NOT(a) if b is TRUE else a))]
        if op == "Cmp":
            out = []
            for c, v in ((lt(a, b), 0), (eqi(a, b), 1), (lt(b, a), 2)):
                for s2 in self.assume(st.copy(), c, True):
                    out.append((s2, agg("std::cmp::Ordering", v, [])))
            return out
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            v = add(a, b)
            if is_int(v) and k == "int" and not tk["signed"]:
                v = I(v.args[0] & ((1 << (8 * tk["bytes"])) - 1))
            ov = FALSE
            if checked and not (a.op == "int" and b.op == "int"):
                # a count of things in memory cannot reach the end of a wide
                # integer; narrow ones can
                if tk["bytes"] < 8:
                    ov = app("overflow", v, *limits(tk), ty="bool")
            elif checked:
                ov = B(v is not add(a, b))
            if checked:
                return [(st, tup(v, ov))]
            return [(st, v)]
        if op in ("Sub", "SubUnchecked"):
            v = sub(a, b)
            if checked:
                return [(st, tup(v, FALSE if tk.get("signed") else lt(a, b)))]
            return [(st, v)]
        if op in ("Mul", "MulUnchecked"):
            if is_int(a):
                v = scale(b, a.args[0])
            elif is_int(b):
                v = scale(a, b.args[0])
            else:
                v = app("mul", a, b, ty=self.p.tag(ty))
            ov = FALSE
            if checked and tk["bytes"] < 8 and not is_int(v):
                ov = app("overflow", v, *limits(tk), ty="bool")
            return [(st, tup(v, ov) if checked else v)]
        if is_int(a) and is_int(b) and not checked:
            x, y = a.args[0], b.args[0]
            bits = 8 * tk.get("bytes", 8)
            m = (1 << bits) - 1
            try:
                r = {
                    "BitAnd": lambda: x & y,
                    "BitOr": lambda: x | y,
                    "BitXor": lambda: x ^ y,
                    "Shl": lambda: (x << (y % bits)) & m,
                    "Shr": lambda: x >> (y % bits),
                    "Div": lambda: x // y,
                    "Rem": lambda: x % y,
                }[op]()
                return [(st, I(r))]
            except (KeyError, ZeroDivisionError):
                pass
        v = app("op:" + op, a, b, ty=self.p.tag(ty))
        return [(st, tup(v, FALSE) if checked else v)]

    # ------------------------------------------------------------ branching
    def assume(self, st, cond, val):
        """states (0 or 1+) in which cond == val; records the guard"""
        while cond.op == "not":
            cond, val = cond.args[0], not val
        if cond.op == "bool":
            return [st] if cond.args[0] == val else []
        e = st.facts.eval(cond)
        if e is not None:
            return [st] if e == val else []
        if cond.op == "and":
            a, b = cond.args
            if val:
                out = []
                for s in self.assume(st, a, True):
                    out += self.assume(s, b, True)
                return out
            out = self.assume(st.copy(), a, False)
            for s in self.assume(st, a, True):
                out += self.assume(s, b, False)
            return out
        f = st.facts.assume(cond, val)
        if f is None:
            return []
        st.facts = f
        st.guards = st.guards + ((cond, val),)
        return [st]

    def split(self, st, cond):
        """[(state, truth)] for both outcomes"""
        out = [(s, True) for s in self.assume(st.copy(), cond, True)]
        out += [(s, False) for s in self.assume(st, cond, False)]
        return out

    # ------------------------------------------------------------- the walk
    def analyse(self, key, args=None, facts=None):
        """transition system of function `key` for symbolic arguments"""
        self.graph = g = Graph()
        self.heads = {}
        self.queue = []
        fn = self.p.fn(key)
        st = State()
        loc = {}
        self.params = []
        self.fkey = key
        self.ptys = {}
        for i in range(fn.nargs):
            ti = fn.locals[i + 1]
            t = self.p.types[ti]
            v = args[i] if args and i < len(args) and args[i] is not None else None
            if v is None:
                name = "arg%d" % i
                if t["k"] == "ref" and t["mut"]:
                    st.cells["p%d" % i] = self.ptys[i] = self.sym(name, t["e"])
                    v = mk("mref", ("c", "p%d" % i), ())
                else:
                    v = self.sym(name, ti)
            self.params.append(v)
            loc[i + 1] = v
        if facts:
            for c in facts:
                f = st.facts.assume(c)
                st.facts = f
        st.frames = [Frame(fn, 0, loc, None, None, fn.locals[0], 0)]
        self.total = 0
        g.entry = self.explore("entry", st)
        while self.queue:
            k = self.queue.pop(0)
            h = self.heads.get(k)
            if h is None or not h.dirty:
                continue
            h.dirty = False
            h.edges = self.explore(h.uid, self.enter(h))
            if self.total > self.max_steps:
                g.stuck.append("analysis budget exceeded in %s" % fn.path)
                break
        # keep what is reachable
        by_uid = {h.uid: h for h in self.heads.values()}
        seen = set()
        work = [e.target for e in g.entry if e.kind == "head"]
        while work:
            u = work.pop()
            if u in seen:
                continue
            seen.add(u)
            work += [e.target for e in by_uid[u].edges if e.kind == "head"]
        g.heads = {u: by_uid[u] for u in sorted(seen)}
        for e in g.edges():
            if e.kind == "head":
                h = by_uid[e.target]
                e.binds = self.match_states(h, e.inc)
                if e.binds is None:
                    g.stuck.append("unstable loop head in %s" % h.fn)
                    e.binds = {}
            if e.kind == "stuck":
                g.stuck.append(e.msg)
        g.params = self.params
        g.pointees = self.ptys
        g.fn = fn
        return g

    def enter(self, h):
        st = h.state.copy()
        st.guards = ()
        st.arrive = False
        st.notes = ()
        return st

    def edge(self, src, st, kind, **kw):
        e = Edge()
        e.src, e.guards, e.kind = src, st.guards, kind
        e.target = kw.get("target")
        e.binds = None
        e.value = kw.get("value")
        e.cells = dict(st.cells)
        e.facts = st.facts
        e.where = st.where
        e.msg = kw.get("msg")
        e.inc = kw.get("inc")
        e.notes = st.notes
        return e

    def explore(self, src, st0):
        self.src = src
        self.cur = edges = []
        work = [st0]
        first = True
        while work:
            st = work.pop()
            if len(edges) > self.max_edges or self.total > self.max_steps:
                e = self.edge(src, st, "stuck", msg="too many paths in %s" % st.frames[0].fn.path)
                edges.append(e)
                break
            try:
                nxt = self.run(src, st, edges, first)
            except Stuck as x:
                edges.append(self.edge(src, st, "stuck", msg="%s at %s" % (x, st.where[-1:])))
                nxt = []
            first = False
            work.extend(reversed(nxt))
        return edges

    def run(self, src, st, edges, first):
        """runs one path until it forks or ends; returns the forks"""
        skip_arrival = first and src != "entry"
        while True:
            fr = st.frames[-1]
            fn = fr.fn
            b = fr.bb
            self.total += 1
            st.steps += 1
            if st.steps > 60000:
                raise Stuck("path too long")
            if b in fn.headers and not skip_arrival:
                if self.arrival(src, st, edges):
                    return []
                fr = st.frames[-1]
                fn, b = fr.fn, fr.bb
                if b in fn.headers and not st.arrive:
                    continue
            st.arrive = False
            skip_arrival = False
            ss, t = fn.blocks[b]
            self.visited.add(fn.key)
            forks = None
            for i, s in enumerate(ss):
                if s[0] == "=":
                    if fn.krate in (self.p.crate, "dynparser") and (not st.where or st.where[-1] != (fn.file, s[3])):
                        st.where = st.where[-7:] + ((fn.file, s[3]),)
                    rs = self.rvalue(st, s[2])
                    if len(rs) == 1:
                        st2, v = rs[0]
                        st = st2
                        self.assign(st, s[1], v)
                    else:
                        # finish the block for each
                        outs = []
                        for st2, v in rs:
                            self.assign(st2, s[1], v)
                            outs.append((st2, i + 1))
                        res = []
                        for st2, j in outs:
                            res += self.finish_block(st2, fn, ss, j, t)
                        return self.after(src, res, edges)
                elif s[0] == "setd":
                    self.set_discr(st, s[1], s[2])
            res = self.term(st, t)
            if res is None:
                return []
            if len(res) == 1:
                st = res[0]
                if not st.frames:
                    self.finish(src, st, edges)
                    return []
                continue
            return self.after(src, res, edges)

    def finish_block(self, st, fn, ss, j, t):
        for i in range(j, len(ss)):
            s = ss[i]
            if s[0] == "=":
                rs = self.rvalue(st, s[2])
                if len(rs) != 1:
                    res = []
                    for st2, v in rs:
                        self.assign(st2, s[1], v)
                        res += self.finish_block(st2, fn, ss, i + 1, t)
                    return res
                st, v = rs[0]
                self.assign(st, s[1], v)
            elif s[0] == "setd":
                self.set_discr(st, s[1], s[2])
        return self.term(st, t) or []

    def after(self, src, res, edges):
        out = []
        for s in res:
            if not s.frames:
                self.finish(src, s, edges)
            else:
                out.append(s)
        return out

    def finish(self, src, st, edges):
        v = st.cells.get("#ret")
        edges.append(self.edge(src, st, "ret", value=v))

    def assign(self, st, place, v):
        if not place[1]:
            st.frames[-1].locals[place[0]] = v
            return
        c, p = self.resolve(st, place)
        self.write(st, c, p, v)

    def set_discr(self, st, place, variant):
        c, p = self.resolve(st, place)
        v = self.read(st, c, p)
        if v is not None and v.op == "agg" and v.args[1] == variant:
            return
        raise Stuck("set discriminant")

    def panic(self, st, msg):
        self.cur.append(self.edge(self.src, st, "panic", msg=msg))

    # ----------------------------------------------------------- terminators
    def term(self, st, t):
        fr = st.frames[-1]
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            return [st]
        if k == "switch":
            v = self.operand(st, t[1])
            ty = self.p.types[t[4]]
            if v.op == "mref":
                v = self.read_mref(st, v)
            out = []
            if ty["k"] == "bool" or self.isbool(v):
                f_bb = None
                for val, bb in t[2]:
                    if val == "0":
                        f_bb = bb
                    else:
                        raise Stuck("bool switch")
                for s, truth in self.split(st, v):
                    s.frames[-1].bb = t[3] if truth else f_bb
                    out.append(s)
                return out
            bits = 8 * ty.get("bytes", 8)
            rest = [st]
            for val, bb in t[2]:
                n = int(val)
                if ty.get("signed") and n >> (bits - 1):
                    n -= 1 << bits
                c = eqi(v, I(n))
                nrest = []
                for s in rest:
                    for s2, truth in self.split(s, c):
                        if truth:
                            s2.frames[-1].bb = bb
                            out.append(s2)
                        else:
                            nrest.append(s2)
                rest = nrest
            for s in rest:
                s.frames[-1].bb = t[3]
                out.append(s)
            return out
        if k == "return":
            v = fr.locals.get(0)
            if v is None:
                v = UNIT
            return [self.ret(st, v)]
        if k == "assert":
            c = self.operand(st, t[1])
            out = []
            for s, truth in self.split(st, c if t[2] else NOT(c)):
                if truth:
                    s.frames[-1].bb = t[4]
                    out.append(s)
                else:
                    if fr.fn.krate in (self.p.crate, "dynparser"):
                        s.where = s.where + ((fr.fn.file, t[5]),)
                    self.panic(s, "assert:" + t[3])
            return out
        if k == "call":
            return self.call(st, t)
        if k in ("unreachable", "resume"):
            return []
        raise Stuck("terminator " + k)

    def ret(self, st, v):
        fr = st.frames.pop()
        d = len(st.frames)
        if st.loops:
            st.loops = tuple(l for l in st.loops if l[0] < d)
        if not st.frames:
            st.cells["#ret"] = v
            return st
        self.assign(st, fr.dest, v)
        st.frames[-1].bb = fr.ret
        return st

    def done(self, st, t, v):
        """a call modelled as value v"""
        if t[4] is None:
            return []
        self.assign(st, t[3], v)
        st.frames[-1].bb = t[4]
        return [st]

    def call(self, st, t):
        fr = st.frames[-1]
        c = t[1]
        if fr.fn.krate in (self.p.crate, "dynparser"):
            st.where = st.where[-7:] + ((fr.fn.file, t[5]),)
        args = [self.operand(st, a) for a in t[2]]
        if "dyn" in c:
            f = self.operand(st, c["dyn"])
            if f.op == "fn" and f.args[0]:
                return self.invoke(st, t, f.args[0], args)
            return self.done(st, t, self.opaque_call(st, "dyn", args, t))
        rpath = c.get("rpath") or c["path"]
        name = c["name"]
        tr = c.get("trait") or ""
        # calls of closures and functions passed around
        if name in CALLS and tr.startswith("std::ops::Fn"):
            f = args[0]
            if f.op == "mref":
                f0 = self.read_mref(st, f)
            else:
                f0 = f
            while f0.op == "mref":
                f, f0 = f0, self.read_mref(st, f0)
            rest = list(args[1].args[2]) if args[1].op == "agg" else [args[1]]
            if f0.op == "fn" and f0.args[0]:
                return self.invoke(st, t, f0.args[0], rest)
            if f0.op == "agg" and f0.args[0].startswith("clo:"):
                return self.invoke(st, t, f0.args[0][4:], [f] + rest, env=True)
            return self.done(st, t, self.opaque_call(st, "callback", [f0] + rest, t))
        inst = c.get("inst")
        callee = self.p.raw.get(inst) if inst else None
        if callee is not None and "{closure" in callee["path"] and callee["nargs"] != len(args) or (
            callee is not None and "{closure" in callee["path"] and len(args) == 2 and args[1].op == "agg" and args[1].args[0] == "tuple"
            and self.p.types[c["targs"][-1]]["k"] == "tuple" and name in CALLS
        ):
            rest = list(args[1].args[2]) if args[1].op == "agg" else [args[1]]
            return self.invoke(st, t, inst, [args[0]] + rest, env=True)
        if inst and self.is_cut(st, inst) and not self.self_tail(st, t, inst):
            return self.done(st, t, self.cut_call(st, inst, args, t))
        sm = self.summaries(inst)
        if sm is not None:
            return self.done(st, t, sm([models.val(self, st, a) for a in args]))
        m = models.find(rpath, c["path"], tr, name)
        if m is not None:
            r = m(self, st, args, c, t)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return self.done(st, t, r)
                out = []
                for s, v in r:
                    out += self.done(s, t, v)
                return out
        if c.get("model") and self.p.raw.get(c["model"]):
            return self.invoke(st, t, c["model"], args)
        if c.get("raw") and self.p.raw.get(c["raw"]):
            return self.invoke(st, t, c["raw"], args)
        if callee is not None and (self.in_crate(callee) or models.may_inline(callee["path"])):
            return self.invoke(st, t, inst, args)
        return self.done(st, t, self.opaque_call(st, rpath, args, t))

    def in_crate(self, f):
        return f["krate"] in (self.p.crate, "dynparser", "idata", "models")

    def is_cut(self, st, inst):
        return inst in self.cut or any(f.fn.key == inst for f in st.frames)

    def self_tail(self, st, t, key):
        """a self call in tail position is a loop"""
        fr = st.frames[-1]
        return fr.fn.key == key and fr.bb in fr.fn.tail_calls and fr.fn.blocks[fr.bb][1] is t

    def cut_call(self, st, inst, args, t):
        f = self.p.raw.get(inst)
        self.cutcalls[inst] = f["path"] if f else inst
        return self.app_call(st, "fn:" + inst, args, t)

    def opaque_call(self, st, name, args, t):
        self.opaque_calls[name] = self.opaque_calls.get(name, 0) + 1
        return self.app_call(st, "std:" + name, args, t)

    def app_call(self, st, name, args, t):
        ins = []
        mrefs = []
        for i, a in enumerate(args):
            if a.op == "mref":
                mrefs.append((i, a))
                a = self.read_mref(st, a) or mk("undef")
            else:
                a = self.deep_read(st, a, mrefs, i)
            ins.append(a)
        v = app(name, *ins, ty=self.p.tag(t[6]))
        for n, (i, m) in enumerate(mrefs):
            old = self.read_mref(st, m)
            self.write_mref(st, m, app(name + "#mut%d" % n, *ins, ty=old.ty if old is not None else None))
        return v

    def deep_read(self, st, a, mrefs, i):
        """values of references held inside a"""
        if not contains(a, lambda x: x.op == "mref"):
            return a
        def go(x):
            if x.op == "mref":
                mrefs.append((i, x))
                return self.read_mref(st, x) or mk("undef")
            return rebuild(x, go)
        return go(a)

    def modelled(self, st, t, f, key, args):
        """a function of std that is called through a value"""
        path = f["path"]
        name = path.split("::")[-1]
        mt = re.match(r"<.* as ([\w:]+)(<.*>)?>::\w+$", path)
        m = models.find(path, path, mt.group(1) if mt else "", name)
        if m is None:
            return None
        ops = [["k", [None, ti]] for ti in f["locals"][1 : 1 + len(args)]]
        t2 = [t[0], {"path": path, "name": name, "targs": [], "inst": key}, ops] + list(t[3:])
        try:
            r = m(self, st, args, t2[1], t2)
        except (KeyError, IndexError):
            return None
        if r is NotImplemented:
            return None
        if isinstance(r, T):
            return self.done(st, t, r)
        return [x for s, v in r for x in self.done(s, t, v)]

    def invoke(self, st, t, key, args, env=False):
        f = self.p.raw.get(key)
        if f is None:
            return self.done(st, t, self.opaque_call(st, "extern:" + str(key), args, t))
        fr = st.frames[-1]
        if self.self_tail(st, t, key):
            fr.locals = {i + 1: a for i, a in enumerate(args)}
            fr.bb = 0
            return [st]
        if self.is_cut(st, key):
            return self.done(st, t, self.cut_call(st, key, args, t))
        sm = self.summaries(key)
        if sm is not None and not env:
            return self.done(st, t, sm([models.val(self, st, a) for a in args]))
        if not env and not self.in_crate(f) and f["nargs"] == len(args):
            r = self.modelled(st, t, f, key, args)
            if r is not None:
                return r
        if len(st.frames) > 60:
            raise Stuck("call depth")
        fn = self.p.fn(key)
        loc = {}
        if fn.nargs != len(args):
            if fn.nargs == len(args) - 1 and not env:
                args = args[1:]
            else:
                raise Stuck("arity of %s" % fn.path)
        for i, a in enumerate(args):
            loc[i + 1] = a
        if env and fn.nargs:
            ty = self.p.types[fn.locals[1]]
            if ty["k"] == "ref" and ty["mut"] and args[0].op != "mref":
                # the environment of a FnMut called by value
                loc[-1] = args[0]
                loc[1] = mk("mref", (len(st.frames), -1), ())
            elif not (ty["k"] == "ref" and ty["mut"]) and args[0].op == "mref":
                loc[1] = self.read_mref(st, args[0])
        if t[4] is None:
            ret = None
        else:
            ret = t[4]
        st.frames.append(Frame(fn, 0, loc, t[3], ret, t[6], t[5]))
        return [st]

    # ---------------------------------------------------------------- loops
    def live_locals(self, st):
        """cells that matter at a loop head"""
        keep = []
        n = len(st.frames)
        for d, f in enumerate(st.frames):
            li = f.fn.live_in[f.bb] if d == n - 1 else None
            if li is None:
                nx = st.frames[d + 1]
                r = nx.ret
                li = set(f.fn.live_in[r]) if r is not None else set()
                li = set(li)
                if nx.dest is not None and not nx.dest[1]:
                    li.discard(nx.dest[0])
            for l in f.locals:
                if l in li:
                    keep.append((d, l))
        keep = set(keep)
        work = list(keep)
        for c in st.cells:
            work.append(("c", c))
        seen = set(work)
        while work:
            c = work.pop()
            v = self.get_cell(st, c)
            if v is None:
                continue
            for x in walk(v):
                if x.op == "mref":
                    b = x.args[0]
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
        return seen

    def restrict(self, st):
        live = self.live_locals(st)
        for d, f in enumerate(st.frames):
            f.locals = {l: v for l, v in f.locals.items() if (d, l) in live}
        return st

    def shape(self, v, d=0, it=False):
        if v is None:
            return "-"
        if v.op == "bool":
            return v.args[0]
        if v.op == "agg":
            en = self.p.is_enum(v.args[0])
            if v.args[0].startswith("clo:"):
                return "c"
            # what iterators are made of does not count as depth
            it = v.args[0].startswith("std::iter::") or it and v.args[0].startswith("std::option::")
            if d < 4:
                fs = tuple(self.shape(x, d + (not it), it) for x in v.args[2])
                if not en and not any(isinstance(x, (tuple, bool)) for x in fs):
                    return "s"
                return (v.args[1] if en else "s",) + fs
            return v.args[1] if en else "s"
        return "."

    def shape_of(self, st):
        out = []
        for d, f in enumerate(st.frames):
            for l in sorted(f.locals):
                s = self.shape(f.locals[l])
                if s not in (".", "c", "s", "-"):
                    out.append((d, l, s))
        return tuple(out)

    def leaves_loop(self, st):
        """does the state leave the loop straight from its head?  If so run it
        there and return True"""
        s = st.copy()
        d = len(s.frames)
        fn = s.frames[-1].fn
        h = s.frames[-1].bb
        body = fn.loops[h]
        if h == 0 and h in fn.headers and fn.tail_calls:
            return None
        for _ in range(12):
            f = s.frames[-1]
            ss, t = fn.blocks[f.bb]
            if t[0] not in ("goto", "switch"):
                return None
            try:
                for x in ss:
                    if x[0] != "=":
                        return None
                    rs = self.rvalue(s, x[2])
                    if len(rs) != 1:
                        return None
                    s, v = rs[0]
                    self.assign(s, x[1], v)
                if t[0] == "switch":
                    v = self.operand(s, t[1])
                    if v.op not in ("int", "bool"):
                        return None
                res = self.term(s, t)
            except Stuck:
                return None
            if not res or len(res) != 1:
                return None
            s = res[0]
            if s.frames[-1].bb not in body:
                return s
            if s.frames[-1].bb == h:
                return None
        return None

    def arrival(self, src, st, edges):
        """state at a loop head; True when the path ends there"""
        fr = st.frames[-1]
        d = len(st.frames) - 1
        here = (d, fr.fn.key, fr.bb)
        s2 = self.leaves_loop(st)
        if s2 is not None:
            st.frames, st.cells, st.facts = s2.frames, s2.cells, s2.facts
            st.guards = s2.guards
            st.loops = tuple(l for l in st.loops if l[:3] != here)
            st.arrive = False
            # may land on another head; the caller looks again
            return False
        inst = None
        for l in st.loops:
            if l[:3] == here:
                inst = l[3]
        if inst is None:
            # deeper loops of this frame that were left
            chain = tuple((f.fn.key, f.callline) for f in st.frames)
            sig = tuple((g.id, v) for g, v in st.guards)
            inst = (src, here, hash((chain, sig)))
            st.loops = tuple(l for l in st.loops if l[0] < d or (l[0] == d and fr.bb in fr.fn.loops.get(l[2], ()))) + (here + (inst,),)
        else:
            ix = [i for i, l in enumerate(st.loops) if l[:3] == here][0]
            st.loops = st.loops[: ix + 1]
        inc = self.restrict(st.copy())
        key = (inst, self.shape_of(inc))
        h = self.heads.get(key)
        if h is None:
            same = [k for k in self.heads if k[0] == inst]
            if len(same) > 24:
                raise Stuck("too many shapes at a loop of %s" % fr.fn.path)
            _heads[0] += 1
            h = Head(_heads[0], key, inc, fr.fn.path, fr.fn.line)
            h.dirty = True
            h.state = self.with_drop_facts(inc.copy())
            h.state.where = ()
            self.heads[key] = h
            self.queue.append(key)
        else:
            if self.match_states(h, inc) is None or not self.facts_ok(h, inc):
                self.widen(h, inc)
                if not h.dirty:
                    h.dirty = True
                    self.queue.append(key)
                h.rounds += 1
                if h.rounds > 40:
                    raise Stuck("loop of %s does not stabilise" % fr.fn.path)
        e = self.edge(src, st, "head", target=h.uid)
        e.inc = inc
        edges.append(e)
        return True

    def with_drop_facts(self, st):
        """a dropped prefix is never longer than its list"""
        f = st.facts
        for d, fr in enumerate(st.frames):
            for v in fr.locals.values():
                if v is None or not phis(v):
                    continue
                for x in walk(v):
                    if x.op == "drop" and phis(x.args[1]):
                        g = f.assume(le(x.args[1], slen(x.args[0])))
                        f = g or f
        st.facts = f
        return st

    def cells_of(self, st):
        for d, f in enumerate(st.frames):
            for l, v in f.locals.items():
                yield (d, l), v
        for c, v in st.cells.items():
            yield ("c", c), v

    def match_states(self, h, inc):
        binds = {}
        a = dict(self.cells_of(h.state))
        b = dict(self.cells_of(inc))
        for c, v in a.items():
            w = b.get(c)
            if v is None or w is None:
                if v is not w:
                    return None
                continue
            if not self.match(h, v, w, binds):
                return None
        return binds

    def own(self, h, t):
        return any(p.args[0] == h.uid for p in phis(t))

    def match(self, h, g, t, binds):
        if g.op == "phi" and g.args[0] == h.uid:
            o = binds.get(g)
            if o is None:
                binds[g] = t
                return True
            return o is t
        if not self.own(h, g):
            return g is t
        if g.op in ("lin",):
            # c + k*phi + rest
            c, ps = g.args
            unb = [(a, k) for a, k in ps if a.op == "phi" and a.args[0] == h.uid and a not in binds]
            bound = subst(lin(c, [(a, k) for a, k in ps if (a, k) not in unb]), binds)
            if len(unb) == 1 and abs(unb[0][1]) == 1:
                r = sub(t, bound)
                binds[unb[0][0]] = r if unb[0][1] == 1 else scale(r, -1)
                return True
            if not unb:
                return bound is t
            return False
        if g.op == "drop" and g.args[0] is not None and not self.own(h, g.args[0]):
            b, o = base_off(t)
            if b is g.args[0]:
                return self.match(h, g.args[1], o, binds)
            return False
        if g.op == "agg" and t.op != "agg":
            ex = self.expand(t, g)
            if ex is None:
                return False
            return all(
                (x is None) if y is None else (x is None or self.match(h, x, y, binds)) for x, y in zip(g.args[2], ex)
            )
        if g.op in ("nth", "take") and g.op != t.op and g.args[0] is t:
            if g.op == "take":
                return self.match(h, g.args[1], slen(t), binds)
        if g.op != t.op or len(g.args) != len(t.args):
            return False
        for x, y in zip(g.args, t.args):
            if not self.match_arg(h, x, y, binds):
                return False
        return True

    def expand(self, o, x):
        """fields of the opaque struct value o, shaped like the aggregate x"""
        if x.args[0].startswith(("clo:", "#")) or self.p.is_enum(x.args[0]) or not x.args[2]:
            return None
        if o.op not in ("sym", "fld", "nth", "phi", "app"):
            return None
        if x.args[0] == "tuple":
            tys = [None] * len(x.args[2])
        else:
            tys = self.fields_of(x.args[0], x.args[1])
            if not tys or len(tys) != len(x.args[2]):
                return None
        n = len(tys)
        return [fld(o, x.args[1], i, x.args[0], n, ty=tys[i]) for i in range(n)]

    def match_arg(self, h, x, y, binds):
        if isinstance(x, T):
            return isinstance(y, T) and self.match(h, x, y, binds)
        if isinstance(x, tuple):
            return (
                isinstance(y, tuple)
                and len(x) == len(y)
                and all(self.match_arg(h, p, q, binds) for p, q in zip(x, y))
            )
        return x == y

    def facts_ok(self, h, inc):
        """facts assumed at the head hold for the incoming state"""
        binds = self.match_states(h, inc)
        return self.facts_kept(h.state.facts, inc.facts, binds)[1]

    def facts_kept(self, hf, incf, binds):
        """(facts of the head that hold for the incoming state, all of them?)"""
        bnd, ne, boo = {}, {}, {}
        ok = True
        for form, (lo, hi) in hf.bnd.items():
            t = lin(0, list(form))
            t2 = subst(t, binds)
            l2, h2 = incf.int_range(t2) if t2.op != "int" else (t2.args[0],) * 2
            nl = lo if l2 >= lo else -INF
            nh = hi if h2 <= hi else INF
            if (nl, nh) != (lo, hi):
                ok = False
            if nl != -INF or nh != INF:
                bnd[form] = (nl, nh)
        for form, s in hf.ne.items():
            t = subst(lin(0, list(form)), binds)
            s2 = frozenset(x for x in s if incf.eval(eqi(t, I(x))) is False)
            if s2 != s:
                ok = False
            if s2:
                ne[form] = s2
        for b, v in hf.boo.items():
            if incf.eval(subst(b, binds)) == v:
                boo[b] = v
            else:
                ok = False
        return Facts(bnd, ne, boo), ok

    def widen(self, h, inc):
        memo = {}
        claimed = {}
        old = h.state
        new = inc.copy()
        a = dict(self.cells_of(old))
        b = dict(self.cells_of(inc))
        fresh = []

        def newphi(g, t):
            h.nphi += 1
            ty = g.ty if g.ty is not None else t.ty
            if ty is None and (is_int(g) or g.op == "lin") and (t.op in ("int", "lin")):
                ty = "uint"
            p = mk("phi", h.uid, h.nphi, ty=ty)
            fresh.append((p, g, t))
            return p

        def au(g, t):
            k = (g, t)
            r = memo.get(k)
            if r is None:
                r = memo[k] = au1(g, t)
            return r

        def au1(g, t):
            if g.op == "phi" and g.args[0] == h.uid:
                o = claimed.get(g)
                if o is None:
                    claimed[g] = t
                    return g
                return g if o is t else newphi(g, t)
            if g is t and not self.own(h, g):
                return g
            if g.op == "mref" or t.op == "mref":
                if g is t:
                    return g
                raise Stuck("references differ at a loop")
            if g.op == "agg" and t.op == "agg":
                if g.args[:2] == t.args[:2] and len(g.args[2]) == len(t.args[2]):
                    return agg(
                        g.args[0],
                        g.args[1],
                        [x if x is None or y is None else au(x, y) for x, y in zip(g.args[2], t.args[2])],
                        ty=g.ty,
                    )
                return newphi(g, t)
            if g.op == "agg" or t.op == "agg":
                x, o = (g, t) if g.op == "agg" else (t, g)
                ex = None if o.op == "phi" and o.args[0] == h.uid else self.expand(o, x)
                if ex is not None:
                    pairs = zip(x.args[2], ex) if g is x else zip(ex, x.args[2])
                    return agg(x.args[0], x.args[1], [None if p is None or q is None else au(p, q) for p, q in pairs], ty=x.ty)
                return newphi(g, t)
            bg, og = base_off(g)
            bt, ot = base_off(t)
            if bg is bt and (g.op == "drop" or t.op == "drop") and not self.own(h, bg):
                return sdrop(bg, au(og, ot))
            if g.op == t.op == "nth" and g.args[0] is t.args[0] and not self.own(h, g.args[0]):
                return nth(g.args[0], au(g.args[1], t.args[1]), ty=g.ty)
            if g.op == t.op == "take" and g.args[0] is t.args[0] and not self.own(h, g.args[0]):
                return stake(g.args[0], au(g.args[1], t.args[1]))
            if g.op == "lin" and self.own(h, g):
                # c + phi against a value of the same form
                c, ps = g.args
                own = [(x, k) for x, k in ps if x.op == "phi" and x.args[0] == h.uid]
                rest = lin(c, [(x, k) for x, k in ps if (x, k) not in own])
                if len(own) == 1 and own[0][1] == 1 and not self.own(h, rest):
                    return add(au(own[0][0], sub(t, rest)), rest)
            return newphi(g, t)

        for c, v in a.items():
            w = b.get(c)
            if v is None or w is None:
                r = None
            else:
                r = au(v, w)
            self.set_cell(new, c, r)
        for c in b:
            if c not in a:
                self.set_cell(new, c, None)
        # facts: what the old head knew and the new state confirms, and bounds
        # of the new phis
        nf = Facts()
        tmp = Head(h.uid, h.key, new, h.fn, h.line)
        binds = self.match_states(tmp, inc)
        obinds = self.match_states(tmp, old)
        if binds is None or obinds is None:
            raise Stuck("join failed in %s" % h.fn)
        kept, _ = self.facts_kept(old.facts, inc.facts, binds)
        # a fact about a phi that got another meaning is dropped
        live = set()
        for _, v in self.cells_of(new):
            if v is not None:
                live |= phis(v)
        def fine(ts):
            return all(p in live or p.args[0] != h.uid for t in ts for p in phis(t)) and all(
                obinds.get(p, p) is p for t in ts for p in phis(t)
            )
        nf.bnd = {f: b for f, b in kept.bnd.items() if fine([x for x, _ in f])}
        nf.ne = {f: b for f, b in kept.ne.items() if fine([x for x, _ in f])}
        nf.boo = {f: b for f, b in kept.boo.items() if fine([f])}
        new.facts = nf
        for p, g, t in fresh:
            if p.ty in ("uint", "int", "char"):
                l1, h1 = old.facts.int_range(g)
                l2, h2 = inc.facts.int_range(t)
                lo = min(l1, l2)
                if lo != -INF and lo > (0 if p.ty == "uint" else -INF):
                    f = new.facts.assume(le(I(int(lo)), p))
                    new.facts = f or new.facts
        new.where = ()
        new.loops = old.loops
        h.state = self.with_drop_facts(new)


def show_graph(g, full=False):
    out = []

    def pe(e):
        out.append("  edge %s -> %s" % (e.src, e.kind if e.kind != "head" else "H%s" % e.target))
        for c, v in e.guards:
            out.append("      %s %s" % ("if  " if v else "not ", show(c)))
        if e.kind == "ret":
            out.append("      = %s" % show(e.value))
            for c, v in e.cells.items():
                if c != "#ret":
                    out.append("      cell %s := %s" % (c, show(v)))
        if e.kind == "head":
            for p, v in sorted(e.binds.items(), key=lambda x: x[0].id):
                out.append("      %s := %s" % (show(p), show(v)))
        if e.kind in ("panic", "stuck"):
            out.append("      %s %s" % (e.msg, e.where[-1:]))

    out.append("ENTRY")
    for e in g.entry:
        pe(e)
    for u, h in g.heads.items():
        out.append("HEAD H%d in %s" % (u, h.fn))
        for d, f in enumerate(h.state.frames):
            for l, v in sorted(f.locals.items()):
                if v is not None:
                    out.append("   [%d]_%d %s = %s" % (d, l, f.fn.names.get(str(l), ""), show(v)))
        for e in h.edges:
            pe(e)
    for s in g.stuck:
        out.append("STUCK " + s)
    return "\n".join(out)
