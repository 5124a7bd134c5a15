"""Hash-consed value terms in normal form.

A term stands for the value a MIR place holds, as a function of the values the
analysed function started with.  Two places that always hold equal values get
the same term, whatever local names, temporaries or helper functions the source
uses, so rules can be stated on values and not on text.
"""
from math import gcd

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "args", "id", "ty", "ph")

    def __repr__(self):
        return show(self)


def mk(op, *args, ty=None):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _n[0]
        t.ty = ty
        t.ph = None
        _n[0] += 1
        _tab[k] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


# ----------------------------------------------------------------- scalars
def I(n):
    return mk("int", n)


def B(b):
    return mk("bool", bool(b))


TRUE = B(True)
FALSE = B(False)
ZERO = I(0)


def is_int(t):
    return t.op == "int"


def lin_parts(t):
    if t.op == "int":
        return t.args[0], ()
    if t.op == "lin":
        return t.args
    return 0, ((t, 1),)


def lin(c, parts):
    d = {}
    for a, k in parts:
        d[a] = d.get(a, 0) + k
    ps = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id))
    if not ps:
        return I(c)
    if c == 0 and len(ps) == 1 and ps[0][1] == 1:
        return ps[0][0]
    return mk("lin", c, ps)


def add(a, b, kb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    return lin(ca + kb * cb, list(pa) + [(x, kb * k) for x, k in pb])


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, p = lin_parts(a)
    return lin(c * k, [(x, y * k) for x, y in p])


def NOT(a):
    if a.op == "bool":
        return B(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def le0(a):
    """a <= 0"""
    if a.op == "int":
        return B(a.args[0] <= 0)
    return mk("le0", a)


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def eq0(a):
    if a.op == "int":
        return B(a.args[0] == 0)
    c, p = lin_parts(a)
    if p[0][1] < 0:
        a = scale(a, -1)
    return mk("eq0", a)


def eqi(a, b):
    return eq0(sub(a, b))


def AND(a, b):
    if a.op == "bool":
        return b if a.args[0] else FALSE
    if b.op == "bool":
        return a if b.args[0] else FALSE
    return mk("and", a, b)


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


# ------------------------------------------------------------- aggregates
def agg(path, variant, fields, ty=None):
    fields = tuple(fields)
    if fields:
        f0 = fields[0]
        if f0 is not None and f0.op == "fld" and f0.args[1] == variant and f0.args[2] == 0:
            v = f0.args[0]
            if (
                v.op != "agg"
                and all(
                    f is not None and f.op == "fld" and f.args[0] is v and f.args[1] == variant and f.args[2] == i
                    for i, f in enumerate(fields)
                )
                and f0.args[3] == path
                and f0.args[4] == len(fields)
            ):
                return v
    return mk("agg", path, variant, fields, ty=ty)


def fld(t, variant, i, path, nf, ty=None):
    """field i of variant of t; path and nf: type path and field count"""
    if t.op == "agg":
        if t.args[1] != variant or i >= len(t.args[2]):
            return mk("bot", ty=ty)
        r = t.args[2][i]
        return mk("undef") if r is None else r
    return mk("fld", t, variant, i, path, nf, ty=ty)


UNIT = mk("agg", "tuple", 0, ())


def tup(*fs):
    return agg("tuple", 0, fs)


# -------------------------------------------------------------- sequences
# strings, str, Vec, slices, Chars, slice iterators: one kind of value.
def seq(parts, ty=None):
    out = []
    for k, v in parts:
        if k == "S":
            if v.op == "seq":
                sub_parts = v.args[0]
            else:
                sub_parts = ((k, v),)
        else:
            sub_parts = ((k, v),)
        for k2, v2 in sub_parts:
            if k2 == "L" and v2 == "":
                continue
            if k2 == "E" and v2.op == "int" and v2.ty == "char":
                k2, v2 = "L", chr(v2.args[0])
            if out:
                pk, pv = out[-1]
                if k2 == "L" and pk == "L":
                    out[-1] = ("L", pv + v2)
                    continue
                # nth(s,i) ++ drop(s,i+1)  =  drop(s,i)
                if pk == "E" and k2 == "S" and pv.op == "nth":
                    b, o = base_off(v2)
                    if b is pv.args[0] and o is add(pv.args[1], I(1)):
                        out[-1] = ("S", sdrop(b, pv.args[1]))
                        continue
                # take(s,i) ++ nth(s,i) = take(s,i+1)
                if k2 == "E" and v2.op == "nth" and pk == "S" and pv.op == "take":
                    if pv.args[0] is v2.args[0] and pv.args[1] is v2.args[1]:
                        out[-1] = ("S", stake(pv.args[0], add(pv.args[1], I(1))))
                        continue
                # init(s) ++ last(s) = s
                if k2 == "E" and v2.op == "nth" and pk == "S" and pv.op == "init" and v2.args[0] is pv.args[0]:
                    if v2.args[1] is sub(slen(pv.args[0]), I(1)):
                        out[-1] = ("S", pv.args[0])
                        continue
            elif k2 == "E" and v2.op == "nth" and v2.args[1] is ZERO:
                pass
            out.append((k2, v2))
    if len(out) == 1 and out[0][0] == "S":
        return out[0][1]
    return mk("seq", tuple(out), ty=ty)


def CH(c):
    """a character constant"""
    t = mk("int", c)
    return t


def S(text):
    return seq([("L", text)])


EMPTY = mk("seq", ())


def parts_of(t):
    return t.args[0] if t.op == "seq" else (("S", t),)


def concat(*ts):
    ps = []
    for t in ts:
        ps.extend(parts_of(t))
    return seq(ps)


def vec_of(ts):
    return seq([("E", t) for t in ts])


def push_elem(s, x, char=False):
    if char and x.op == "int":
        return seq(list(parts_of(s)) + [("L", chr(x.args[0]))])
    return seq(list(parts_of(s)) + [("E", x)])


def const_str(t):
    """python text of a constant string term, or None"""
    if t.op == "seq":
        if t.args[0] == ():
            return ""
        if len(t.args[0]) == 1 and t.args[0][0][0] == "L":
            return t.args[0][0][1]
    return None


def base_off(s):
    if s.op == "drop":
        return s.args
    return s, ZERO


def slen(s):
    if s.op == "seq":
        r = ZERO
        for k, v in s.args[0]:
            r = add(r, I(len(v)) if k == "L" else I(1) if k == "E" else slen(v))
        return r
    if s.op == "drop":
        return sub(slen(s.args[0]), s.args[1])
    if s.op == "take":
        return s.args[1]
    if s.op == "init":
        return sub(slen(s.args[0]), I(1))
    if s.op == "upd":
        return slen(s.args[0])
    if s.op == "app" and s.args[0] == "bytes":
        return blen(s.args[1])
    return mk("len", s)


def blen(s):
    """length in bytes of a string"""
    if s.op == "seq":
        r = ZERO
        for k, v in s.args[0]:
            r = add(r, I(len(v.encode())) if k == "L" else mk("chlen", v) if k == "E" else blen(v))
        return r
    if s.op == "bslice":
        return sub(s.args[2], s.args[1])
    return mk("blen", s)


def sdrop(s, n):
    if n is ZERO:
        return s
    if s.op == "drop":
        return sdrop(s.args[0], add(s.args[1], n))
    if s.op == "seq" and n.op == "int":
        k = n.args[0]
        ps = list(s.args[0])
        while ps and k > 0:
            t, v = ps[0]
            if t == "E":
                ps.pop(0)
                k -= 1
            elif t == "L":
                if len(v) <= k:
                    k -= len(v)
                    ps.pop(0)
                else:
                    ps[0] = ("L", v[k:])
                    k = 0
            else:
                r = sdrop(v, I(k)) if len(ps) == 1 else None
                if r is not None:
                    return r
                return mk("drop", seq(ps), I(k), ty=s.ty)
        if k == 0:
            return seq(ps)
        return EMPTY
    if s.op == "seq":
        # drop(a ++ b, len(a)+k)
        ps = list(s.args[0])
        acc = ZERO
        for i, (t, v) in enumerate(ps):
            acc = add(acc, I(len(v)) if t == "L" else I(1) if t == "E" else slen(v))
            d = sub(n, acc)
            if d.op == "int" and d.args[0] >= 0:
                return sdrop(seq(ps[i + 1 :]), d)
    return mk("drop", s, n, ty=s.ty)


def stake(s, n):
    if n is ZERO:
        return EMPTY
    if n is slen(s):
        return s
    if s.op == "take" and s.args[1].op == "int" and n.op == "int":
        return stake(s.args[0], I(min(n.args[0], s.args[1].args[0])))
    if s.op == "seq" and n.op == "int":
        k = n.args[0]
        out = []
        for t, v in s.args[0]:
            if k <= 0:
                break
            if t == "E":
                out.append((t, v))
                k -= 1
            elif t == "L":
                out.append((t, v[:k]))
                k -= min(k, len(v))
            else:
                return mk("take", s, n, ty=s.ty)
        return seq(out)
    return mk("take", s, n, ty=s.ty)


def nth(s, i, ty=None):
    if s.op == "drop":
        return nth(s.args[0], add(s.args[1], i), ty)
    if s.op == "take":
        return nth(s.args[0], i, ty)
    if s.op == "seq" and i.op == "int":
        k = i.args[0]
        for t, v in s.args[0]:
            if t == "E":
                if k == 0:
                    return v
                k -= 1
            elif t == "L":
                if k < len(v):
                    return I(ord(v[k]))
                k -= len(v)
            else:
                break
        else:
            return mk("bot", ty=ty)
    if s.op == "seq":
        # from the back: last element
        d = sub(slen(s), i)
        if d.op == "int" and d.args[0] >= 1 and s.args[0]:
            k = d.args[0]
            for t, v in reversed(s.args[0]):
                if t == "E":
                    if k == 1:
                        return v
                    k -= 1
                elif t == "L":
                    if k <= len(v):
                        return I(ord(v[-k]))
                    k -= len(v)
                else:
                    break
    if s.op == "upd":
        if s.args[1] is i:
            return s.args[2]
        d = sub(s.args[1], i)
        if d.op == "int":
            return nth(s.args[0], i, ty)
    return mk("nth", s, i, ty=ty)


def slast(s, ty=None):
    if s.op == "seq" and s.args[0]:
        t, v = s.args[0][-1]
        if t == "E":
            return v
        if t == "L":
            return I(ord(v[-1]))
    return nth(s, sub(slen(s), I(1)), ty)


def sinit(s):
    if s.op == "seq" and s.args[0]:
        t, v = s.args[0][-1]
        if t == "E":
            return seq(s.args[0][:-1])
        if t == "L":
            return seq(list(s.args[0][:-1]) + [("L", v[:-1])])
        return seq(list(s.args[0][:-1]) + [("S", sinit(v))])
    return mk("init", s, ty=s.ty)


def supd(s, i, v):
    if s.op == "seq":
        d = sub(slen(s), i)
        if d.op == "int" and d.args[0] == 1 and s.args[0]:
            return push_elem(sinit(s), v)
        if i.op == "int":
            k = i.args[0]
            ps = list(s.args[0])
            for j, (t, x) in enumerate(ps):
                if t != "E":
                    break
                if k == 0:
                    ps[j] = ("E", v)
                    return seq(ps)
                k -= 1
    d = sub(slen(s), i)
    if d.op == "int" and d.args[0] == 1:
        return push_elem(sinit(s), v)
    return mk("upd", s, i, v, ty=s.ty)


def eqs(a, b):
    """equality of two strings / sequences / opaque values"""
    if a is b:
        return TRUE
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return B(ca == cb)
    if ca == "" and b.op != "agg":
        return le0(slen(b))
    if cb == "" and a.op != "agg":
        return le0(slen(a))
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)


def app(name, *args, ty=None):
    return mk("app", name, *args, ty=ty)


def discr(t):
    if t.op == "agg":
        # the only std enum whose discriminants are not its indexes
        return I(t.args[1] - 1 if t.args[0] == "std::cmp::Ordering" else t.args[1])
    return mk("discr", t, ty="int")


# ------------------------------------------------------------------ walking
def kids(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            yield c


def phis(t):
    """set of phi symbols in t"""
    if t.ph is None:
        # iterative
        stack = [t]
        while stack:
            x = stack[-1]
            if x.ph is not None:
                stack.pop()
                continue
            todo = [k for k in kids(x) if k.ph is None]
            if todo:
                stack.extend(todo)
                continue
            r = frozenset([x]) if x.op == "phi" else frozenset()
            for k in kids(x):
                if k.ph:
                    r = r | k.ph
            x.ph = r
            stack.pop()
    return t.ph


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def rebuild(t, f):
    """t with children mapped by f, normalised again"""
    op, a = t.op, t.args
    if op in ("sym", "phi", "int", "bool", "fn", "bot", "undef", "mref", "atom"):
        if op == "mref":
            return t
        return t
    if op == "lin":
        r = I(a[0])
        for x, k in a[1]:
            r = add(r, scale(f(x), k))
        return r
    if op == "agg":
        return agg(a[0], a[1], [None if x is None else f(x) for x in a[2]], ty=t.ty)
    if op == "fld":
        return fld(f(a[0]), *a[1:], ty=t.ty)
    if op == "seq":
        return seq([(k, v if k == "L" else f(v)) for k, v in a[0]], ty=t.ty)
    if op == "drop":
        return sdrop(f(a[0]), f(a[1]))
    if op == "take":
        return stake(f(a[0]), f(a[1]))
    if op == "nth":
        return nth(f(a[0]), f(a[1]), ty=t.ty)
    if op == "len":
        return slen(f(a[0]))
    if op == "blen":
        return blen(f(a[0]))
    if op == "init":
        return sinit(f(a[0]))
    if op == "upd":
        return supd(f(a[0]), f(a[1]), f(a[2]))
    if op == "le0":
        return le0(f(a[0]))
    if op == "eq0":
        return eq0(f(a[0]))
    if op == "not":
        return NOT(f(a[0]))
    if op == "and":
        return AND(f(a[0]), f(a[1]))
    if op == "eq":
        return eqs(f(a[0]), f(a[1]))
    if op == "discr":
        return discr(f(a[0]))
    if op == "app" and a[0] == "join":
        return join(f(a[1]), f(a[2]), ty=t.ty)
    return mk(op, *[f(x) if isinstance(x, T) else x for x in a], ty=t.ty)


def join(v, sep, ty=None):
    """the texts (or lists) in the list v with sep between them"""
    ps = parts_of(v)
    if all(k == "E" for k, _ in ps):
        out = []
        for i, (_, x) in enumerate(ps):
            if i:
                out.append(("S", sep))
            out.append(("S", x))
        return seq(out)
    return mk("app", "join", v, sep, ty=ty)


def subst(t, m, memo=None):
    if not m:
        return t
    memo = {} if memo is None else memo

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


# ----------------------------------------------------------------- printing
def show(t, d=0):
    if t is None:
        return "?"
    if d > 14:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "bool":
        return str(a[0]).lower()
    if op in ("sym",):
        return a[0]
    if op == "phi":
        return "φ%s.%s" % a
    if op == "fn":
        return "fn:" + str(a[0])[-40:]
    if op == "lin":
        r = " + ".join((("%d*" % k) if k != 1 else "") + s(x) for x, k in a[1])
        return "(%s%s)" % (r, "" if a[0] == 0 else " %+d" % a[0])
    if op == "agg":
        n = a[0].split("::")[-1]
        return "%s%s(%s)" % ("" if n == "tuple" else n, "#%d" % a[1] if n != "tuple" else "", ", ".join(s(x) for x in a[2]))
    if op == "fld":
        return "%s.%s%d" % (s(a[0]), "" if a[1] == 0 else "@%d." % a[1], a[2])
    if op == "seq":
        if not a[0]:
            return "[]"
        return "[" + " ".join(repr(v) if k == "L" else s(v) if k == "E" else "…" + s(v) for k, v in a[0]) + "]"
    if op == "nth":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "drop":
        return "%s[%s..]" % (s(a[0]), s(a[1]))
    if op == "take":
        return "%s[..%s]" % (s(a[0]), s(a[1]))
    if op == "not":
        return "!(%s)" % s(a[0])
    if op == "le0":
        return "%s<=0" % s(a[0])
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "eq":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, T) else str(x) for x in a[1:]))
    return "%s(%s)" % (op, ", ".join(s(x) if isinstance(x, T) else str(x) for x in a))


# -------------------------------------------------------------------- facts
INF = float("inf")


def norm_form(t):
    """linear term -> (form, sign*gcd, const) with t = c + g*form"""
    c, p = lin_parts(t)
    g = 0
    for _, k in p:
        g = gcd(g, abs(k))
    if p[0][1] < 0:
        g = -g
    return tuple((a, k // g) for a, k in p), g, c


class Facts:
    """What is known on a path: interval bounds of linear forms, excluded
    values, truth of boolean atoms."""

    __slots__ = ("bnd", "ne", "boo")

    def __init__(self, bnd=None, ne=None, boo=None):
        self.bnd = bnd or {}
        self.ne = ne or {}
        self.boo = boo or {}

    def copy(self):
        return Facts(dict(self.bnd), dict(self.ne), dict(self.boo))

    def atom_rng(self, a):
        lo, hi = self.bnd.get(((a, 1),), (-INF, INF))
        if a.op in ("len", "blen", "chlen", "discr") or a.ty in ("uint", "char"):
            lo = max(lo, 0)
        ex = self.ne.get(((a, 1),))
        if ex:
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
        return lo, hi

    def rng(self, form, depth=1):
        lo, hi = self.bnd.get(form, (-INF, INF))
        if len(form) == 1 and form[0][1] == 1:
            l2, h2 = self.atom_rng(form[0][0])
            lo, hi = max(lo, l2), min(hi, h2)
            l2 = h2 = None
        else:
            l2 = h2 = 0
            for a, k in form:
                al, ah = self.atom_rng(a)
                if k > 0:
                    l2, h2 = l2 + k * al, h2 + k * ah
                else:
                    l2, h2 = l2 + k * ah, h2 + k * al
            lo, hi = max(lo, l2), min(hi, h2)
        if depth > 0 and (lo == -INF or hi == INF or len(form) >= 1):
            atoms = set(a for a, _ in form)
            for f2, (fl, fh) in self.bnd.items():
                if f2 == form or not any(a in atoms for a, _ in f2):
                    continue
                for sg in (1, -1):
                    d = lin(0, list(form) + [(a, -sg * k) for a, k in f2])
                    if d.op == "int":
                        dl = dh = d.args[0]
                    else:
                        c, p = lin_parts(d)
                        if len(p) > max(1, len(form) - 1) and len(p) >= len(form):
                            continue
                        nf, g, c = norm_form(d)
                        xl, xh = self.rng(nf, depth - 1)
                        dl, dh = (c + g * xl, c + g * xh) if g > 0 else (c + g * xh, c + g * xl)
                    a, b = (fl, fh) if sg > 0 else (-fh, -fl)
                    lo, hi = max(lo, dl + a), min(hi, dh + b)
        if lo == hi or lo != -INF or hi != INF:
            ex = self.ne.get(form)
            if ex:
                while lo in ex:
                    lo += 1
                while hi in ex:
                    hi -= 1
        return lo, hi

    def int_range(self, t):
        if t.op == "int":
            return t.args[0], t.args[0]
        f, g, c = norm_form(t)
        lo, hi = self.rng(f)
        return (c + g * lo, c + g * hi) if g > 0 else (c + g * hi, c + g * lo)

    def val(self, t):
        """constant value of an int term, or None"""
        lo, hi = self.int_range(t)
        return lo if lo == hi else None

    def eval(self, b):
        op = b.op
        if op == "bool":
            return b.args[0]
        if op == "not":
            r = self.eval(b.args[0])
            return None if r is None else not r
        if op == "and":
            x, y = self.eval(b.args[0]), self.eval(b.args[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if op == "le0":
            lo, hi = self.int_range(b.args[0])
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if op == "eq0":
            f, g, c = norm_form(b.args[0])
            lo, hi = self.rng(f)
            if (-c) % g:
                return False
            v = -c // g
            if v < lo or v > hi:
                return False
            if lo == hi == v:
                return True
            if v in self.ne.get(f, ()):
                return False
            return None
        if op == "eq":
            r = self.boo.get(b)
            if r is not None:
                return r
            x, y = b.args
            for p, q in ((x, y), (y, x)):
                cq = const_str(q)
                if cq is None:
                    continue
                for k, v in self.boo.items():
                    if v and k.op == "eq" and p in k.args:
                        o = k.args[0] if k.args[1] is p else k.args[1]
                        co = const_str(o)
                        if co is not None:
                            return co == cq
                # length knowledge
                lo, hi = self.int_range(slen(p))
                if lo > len(cq) or hi < len(cq):
                    return False
            return None
        return self.boo.get(b)

    def assume(self, b, v=True):
        """facts with b == v, or None when that is impossible"""
        while b.op == "not":
            b, v = b.args[0], not v
        e = self.eval(b)
        if e is not None:
            return self if e == v else None
        f = self.copy()
        op = b.op
        if op == "le0":
            form, g, c = norm_form(b.args[0])
            lo, hi = f.bnd.get(form, (-INF, INF))
            # c + g*form <= 0   /   >= 1
            if v:
                if g > 0:
                    hi = min(hi, (-c) // g)
                else:
                    lo = max(lo, _ceil_div(c, -g))
            else:
                if g > 0:
                    lo = max(lo, _ceil_div(1 - c, g))
                else:
                    hi = min(hi, (c - 1) // (-g))
            f.bnd[form] = (lo, hi)
            lo, hi = f.rng(form)
            if lo > hi:
                return None
            return f
        if op == "eq0":
            form, g, c = norm_form(b.args[0])
            val = -c // g
            if v:
                lo, hi = f.bnd.get(form, (-INF, INF))
                f.bnd[form] = (max(lo, val), min(hi, val))
                lo, hi = f.rng(form)
                if lo > hi:
                    return None
            else:
                f.ne[form] = f.ne.get(form, frozenset()) | {val}
                lo, hi = f.rng(form)
                if lo > hi:
                    return None
            return f
        if op == "and" and v:
            g = f.assume(b.args[0], True)
            return g.assume(b.args[1], True) if g else None
        f.boo[b] = v
        if op == "eq" and v:
            x, y = b.args
            for p, q in ((x, y), (y, x)):
                cq = const_str(q)
                if cq is not None and slen(p).op != "int":
                    g = f.assume(eqi(slen(p), I(len(cq))))
                    if g is None:
                        return None
                    f = g
        return f

    def join(self, other):
        bnd = {}
        for k, (lo, hi) in self.bnd.items():
            if k in other.bnd:
                l2, h2 = other.bnd[k]
                lo, hi = min(lo, l2), max(hi, h2)
                if lo != -INF or hi != INF:
                    bnd[k] = (lo, hi)
        ne = {}
        for k, s in self.ne.items():
            s2 = s & other.ne.get(k, frozenset())
            if s2:
                ne[k] = s2
        boo = {k: v for k, v in self.boo.items() if other.boo.get(k) == v}
        return Facts(bnd, ne, boo)

    def same(self, other):
        return self.bnd == other.bnd and self.ne == other.ne and self.boo == other.boo


def _ceil_div(a, b):
    return -((-a) // b)


# ------------------------------------------------------- linear feasibility
def _tight(co, c):
    """sum co + c <= 0 over the integers, divided by the gcd"""
    import math

    g = 0
    for k in co.values():
        g = math.gcd(g, k)
    if g > 1:
        co = {a: k // g for a, k in co.items()}
        c = _ceil_div(c, g)
    return co, c


def fm_feasible(cons, cap=600):
    """is there a rational solution (with integer tightening)?  True when in
    doubt"""
    todo = []
    for co, c in cons:
        co, c = _tight({a: k for a, k in co.items() if k}, c)
        if not co:
            if c > 0:
                return False
            continue
        todo.append((co, c))
    while True:
        best = {}
        for co, c in todo:
            k = frozenset(co.items())
            if k not in best or best[k] < c:
                best[k] = c
        todo = [(dict(k), c) for k, c in best.items()]
        if not todo:
            return True
        occ = {}
        for co, _ in todo:
            for a, k in co.items():
                p = occ.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        a = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        pos = [x for x in todo if x[0].get(a, 0) > 0]
        neg = [x for x in todo if x[0].get(a, 0) < 0]
        rest = [x for x in todo if a not in x[0]]
        for p, pc in pos:
            for n, nc in neg:
                kp, kn = p[a], -n[a]
                co = {}
                for x, k in p.items():
                    if x is not a:
                        co[x] = co.get(x, 0) + k * kn
                for x, k in n.items():
                    if x is not a:
                        co[x] = co.get(x, 0) + k * kp
                co = {x: k for x, k in co.items() if k}
                c = pc * kn + nc * kp
                if not co:
                    if c > 0:
                        return False
                    continue
                rest.append(_tight(co, c))
        if len(rest) > cap:
            return True
        todo = rest


def placed(ts, f):
    """places in lists named in other words than the numbers they are known to be"""
    m = {}
    for t in ts:
        for x in walk(t):
            if x.op in ("nth", "drop", "take") and x not in m and x.args[1].op not in ("int", "phi"):
                v = f.val(x.args[1])
                if v is not None and v != INF and v >= 0:
                    m[x] = rebuild(x, lambda y: I(v) if y is x.args[1] else y)
    return m


def settled(f):
    """the same facts with those places named by their numbers; None: they contradict"""
    ts = [a for form in list(f.bnd) + list(f.ne) for a, _ in form] + list(f.boo)
    m = placed(ts, f)
    if not m:
        return f
    g = Facts()
    for form, (lo, hi) in f.bnd.items():
        t = subst(lin(0, form), m)
        if hi != INF and g is not None:
            g = g.assume(le0(sub(t, I(int(hi)))), True)
        if lo != -INF and g is not None:
            g = g.assume(le0(sub(I(int(lo)), t)), True)
        if g is None:
            return None
    for form, vs in f.ne.items():
        t = subst(lin(0, form), m)
        for v in vs:
            g = g.assume(eqi(t, I(v)), False)
            if g is None:
                return None
    for b, v in f.boo.items():
        g = g.assume(subst(b, m), v)
        if g is None:
            return None
    return g


def feasible(f, dom=None, splits=64):
    """can all that is known hold at once?"""
    f = settled(f)
    if f is None:
        return False
    cons = []
    atoms = set()
    for form, (lo, hi) in f.bnd.items():
        for a, _ in form:
            atoms.add(a)
        if hi != INF:
            cons.append(({a: k for a, k in form}, -int(hi)))
        if lo != -INF:
            cons.append(({a: -k for a, k in form}, int(lo)))
    for form in f.ne:
        for a, _ in form:
            atoms.add(a)
    for a in atoms:
        lo, hi = f.atom_rng(a)
        if dom:
            d = dom(a)
            if d:
                lo, hi = max(lo, d[0]), min(hi, d[1])
        if lo != -INF:
            cons.append(({a: -1}, int(lo)))
        if hi != INF:
            cons.append(({a: 1}, -int(hi)))
    nes = [(form, v) for form, s in f.ne.items() for v in s]
    # independent parts are looked at one by one
    root = {}

    def find(a):
        while root.get(a, a) is not a:
            a = root[a]
        return a

    def join(xs):
        xs = list(xs)
        for x in xs[1:]:
            p, q = find(xs[0]), find(x)
            if p is not q:
                root[p] = q

    for co, _ in cons:
        join(co)
    for form, _ in nes:
        join(a for a, _ in form)
    parts = {}
    for c in cons:
        parts.setdefault(find(next(iter(c[0]))), ([], []))[0].append(c)
    for x in nes:
        parts.setdefault(find(x[0][0][0]), ([], []))[1].append(x)
    for cs, ns in parts.values():
        k = (frozenset((frozenset(co.items()), c) for co, c in cs), frozenset(ns))
        r = _feas.get(k)
        if r is None:
            r = _feas[k] = _part_feasible(cs, ns, splits)
        if not r:
            return False
    return True


_feas = {}


def _part_feasible(cons, nes, splits):
    budget = [splits]

    def go(cons, i):
        if not fm_feasible(cons):
            return False
        if i == len(nes) or budget[0] <= 0:
            return True
        form, v = nes[i]
        up = {a: k for a, k in form}
        # does the excluded value matter at all?
        budget[0] -= 1
        if not fm_feasible(cons + [(up, -v), ({a: -k for a, k in form}, v)]):
            return go(cons, i + 1)
        return go(cons + [(up, -(v - 1))], i + 1) or go(cons + [({a: -k for a, k in form}, v + 1)], i + 1)

    return go(cons, 0)
