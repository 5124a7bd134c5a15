"""Grammar rules as automata over characters, rule calls and breaks, texts
derived from them, and the meaning of a grammar as a parser of texts."""
import heapq

MAXC = 0x10FFFF


def subtract(rs, ex):
    out = []
    for a, b in rs:
        cur = [(a, b)]
        for c, d in ex:
            nxt = []
            for x, y in cur:
                if d < x or c > y:
                    nxt.append((x, y))
                    continue
                if x < c:
                    nxt.append((x, c - 1))
                if y > d:
                    nxt.append((d + 1, y))
            cur = nxt
        out += cur
    return tuple(out)


def reps(rs):
    """some characters of a class, the plain ones first"""
    out = []
    pref = [ord("a"), ord("b"), ord("0"), ord("A"), ord("_"), ord("-"), ord("."), ord(" "), ord("x")]
    for p in pref:
        if any(a <= p <= b for a, b in rs):
            out.append(p)
        if len(out) >= 3:
            break
    for a, b in rs:
        for c in (a, b):
            if c not in out and len(out) < 5 and not (0xD800 <= c <= 0xDFFF):
                out.append(c)
    return out


class Nfa:
    """one rule: edges ("c", ranges) a character, ("r", name) a rule whose
    nodes stay, ("b", name) something that leaves no node but separates values,
    ("e", None)"""

    def __init__(self, gram, name, expr):
        self.g = gram
        self.name = name
        self.edges = [[]]
        self.approx = False
        self.start = 0
        self.final = self.build(expr, 0, [])
        if self.final is None:
            self.final = self.new()
        self._clo = {}

    def new(self):
        self.edges.append([])
        return len(self.edges) - 1

    def arc(self, s, kind, data, t=None):
        t = self.new() if t is None else t
        self.edges[s].append((kind, data, t))
        return t

    def build(self, e, s, ex):
        """the state after e, None when e cannot succeed; ex: characters a
        lookahead right before forbids"""
        k = e[0]
        if k == "lit":
            for i, c in enumerate(e[1]):
                r = ((ord(c), ord(c)),)
                if i == 0 and ex:
                    r = subtract(r, ex)
                    if not r:
                        return None
                s = self.arc(s, "c", r)
            return s
        if k in ("dot", "match"):
            r = ((0, MAXC),) if k == "dot" else self.g.charset(e[1], e[2])
            r = subtract(r, ex) if ex else r
            return self.arc(s, "c", r) if r else None
        if k == "eof":
            return self.arc(s, "b", None)
        if k == "error":
            return None
        if k == "not":
            if self.g.one_char(e[1]) is None:
                self.approx = True
            return s
        if k == "and":
            ex = list(ex)
            for x in e[1]:
                if x[0] == "not":
                    c = self.g.one_char(x[1])
                    if c is None:
                        self.approx = True
                    else:
                        ex += c
                    continue
                s = self.build(x, s, ex)
                ex = []
                if s is None:
                    return None
            return s
        if k == "or":
            end = self.new()
            n = 0
            for x in e[1]:
                s1 = self.arc(s, "e", None)
                t = self.build(x, s1, ex)
                if t is not None:
                    self.arc(t, "e", None, end)
                    n += 1
            return end if n else None
        if k == "rep":
            for _ in range(min(e[2], 8)):
                s = self.build(e[1], s, ex)
                ex = []
                if s is None:
                    return None
            if e[3] is None:
                loop = self.arc(s, "e", None)
                t = self.build(e[1], loop, [])
                if t is not None:
                    self.arc(t, "e", None, loop)
                return self.arc(loop, "e", None)
            end = self.new()
            self.arc(s, "e", None, end)
            for _ in range(min(e[3] - e[2], 8)):
                s = self.build(e[1], s, [])
                if s is None:
                    break
                self.arc(s, "e", None, end)
            return end
        if k == "ref":
            if e[1] not in self.g.rules:
                return None
            if e[1] in self.g.pruned:
                return self.arc(s, "b", e[1])
            return self.arc(s, "r", e[1])
        raise ValueError(k)

    def closure(self, q):
        q = frozenset(q)
        r = self._clo.get(q)
        if r is None:
            seen = set(q)
            st = list(q)
            while st:
                for k, _, t in self.edges[st.pop()]:
                    if k == "e" and t not in seen:
                        seen.add(t)
                        st.append(t)
            r = self._clo[q] = frozenset(seen)
        return r

    def over_breaks(self, q):
        """states after at least one break, and more"""
        seen = set()
        st = list(self.closure(q))
        while st:
            for k, _, t in self.edges[st.pop()]:
                if k == "b" and t not in seen:
                    for u in self.closure([t]):
                        if u not in seen:
                            seen.add(u)
                            st.append(u)
        return frozenset(seen)

    def step(self, q, c):
        return self.closure([t for s in q for k, d, t in self.edges[s] if k == "c" and any(a <= c <= b for a, b in d)])

    def other_moves(self, s):
        """what can follow state s other than characters"""
        q = self.closure([s])
        m = set()
        if self.final in q:
            m.add(("end",))
        for x in q:
            for k, d, t in self.edges[x]:
                if k in ("r", "b"):
                    m.add((k, d, t))
        return frozenset(m)

    def run_ends(self, q):
        """{moves: states} in which a run of characters from q can end"""
        seen = set()
        st = [t for s in self.closure(q) for k, _, t in self.edges[s] if k == "c"]
        st = list(set(st))
        seen |= set(st)
        while st:
            for s in self.closure([st.pop()]):
                for k, _, t in self.edges[s]:
                    if k == "c" and t not in seen:
                        seen.add(t)
                        st.append(t)
        out = {}
        for s in seen:
            m = self.other_moves(s)
            if m:
                out.setdefault(m, set()).add(s)
        return out

    def accepts(self, q, ends, w):
        q = self.closure(q)
        for c in w:
            q = self.step(q, ord(c))
            if not q:
                return False
        return any(e in q for e in ends)

    def words(self, q, ends, limit=12, tries=3000):
        """some words from q to one of the ends, short first"""
        out = []
        seen = set()
        n = 0
        h = [(0, 0, "", self.closure(q))]
        i = 1
        while h and n < tries and len(out) < limit:
            ln, _, w, cur = heapq.heappop(h)
            n += 1
            if w and any(e in cur for e in ends):
                out.append(w)
            cs = []
            for s in sorted(cur):
                for k, d, t in self.edges[s]:
                    if k == "c":
                        for c in reps(d):
                            if c not in cs:
                                cs.append(c)
            for c in cs:
                w2 = w + chr(c)
                if w2 in seen:
                    continue
                seen.add(w2)
                heapq.heappush(h, (ln + 1, i, w2, self.step(cur, c)))
                i += 1
        return out

    def all_words(self, q, ends, limit=300):
        """every word, or None when there are more than limit"""
        out = []
        st = [("", self.closure(q))]
        good = self.coreach(ends)
        n = 0
        while st:
            w, cur = st.pop()
            n += 1
            if n > 40 * limit or len(w) > 12:
                return None
            if w and any(e in cur for e in ends):
                out.append(w)
                if len(out) > limit:
                    return None
            rs = [r for s in cur for k, d, t in self.edges[s] if k == "c" and t in good for r in d]
            if not rs:
                continue
            tot = set()
            for a, b in rs:
                if b - a > limit:
                    return None
                tot |= set(range(a, b + 1))
            for c in sorted(tot):
                st.append((w + chr(c), self.step(cur, c)))
        return out

    def coreach(self, ends):
        good = set(ends)
        ch = True
        while ch:
            ch = False
            for s, es in enumerate(self.edges):
                if s not in good and any(k in "ce" and t in good for k, _, t in es):
                    good.add(s)
                    ch = True
        return good

    def shape(self, q, ends):
        """[class, ...] when every word takes one character of each class, in
        any combination"""
        good = self.coreach(ends)
        cur = self.closure(q)
        out = []
        while len(out) < 8:
            es = {}
            for s in cur:
                for k, d, t in self.edges[s]:
                    if k == "c" and t in good:
                        es.setdefault(t, []).extend(d)
            done = out and any(e in cur for e in ends)
            if not es:
                return out if done else None
            if done or len(es) != 1:
                return None
            t, d = es.popitem()
            out.append(tuple(d))
            cur = self.closure([t])
        return None

    def min_len(self, q, ends):
        cur = self.closure(q)
        n = 0
        seen = set()
        while cur and cur not in seen:
            if n and any(e in cur for e in ends):
                return n
            seen.add(cur)
            cur = self.closure([t for s in cur for k, _, t in self.edges[s] if k == "c"])
            n += 1
        return n


class Gram:
    def __init__(self, rules, pruned, charset):
        self.rules, self.pruned, self.charset = rules, set(pruned), charset
        self._texts = {}
        self._short = {}
        self.nfa = {k: Nfa(self, k, e) for k, e in rules.items()}
        self.mintext()

    def one_char(self, e, d=0):
        """the characters of an expression that takes exactly one, or None"""
        if d > 8:
            return None
        if e[0] == "lit" and len(e[1]) == 1:
            return [(ord(e[1]), ord(e[1]))]
        if e[0] == "dot":
            return [(0, MAXC)]
        if e[0] == "match":
            return list(self.charset(e[1], e[2]))
        if e[0] == "ref" and e[1] in self.rules:
            return self.one_char(self.rules[e[1]], d + 1)
        if e[0] in ("or", "and") and (e[0] == "or" or len(e[1]) == 1):
            out = []
            for x in e[1]:
                r = self.one_char(x, d + 1)
                if r is None:
                    return None
                out += r
            return out
        return None

    # ------------------------------------------------------- shortest texts
    def mintext(self):
        self.mint = {}
        ch = True
        while ch:
            ch = False
            for n, a in self.nfa.items():
                t = self.path_text(a, a.start)
                if t is not None and (n not in self.mint or len(t) < len(self.mint[n])):
                    self.mint[n] = t
                    ch = True

    def path_text(self, a, s, goal=None):
        """shortest text from s to the end of the rule"""
        goal = a.final if goal is None else goal
        h = [(0, 0, s, "")]
        seen = set()
        i = 1
        while h:
            n, _, x, w = heapq.heappop(h)
            if x in seen:
                continue
            seen.add(x)
            if x == goal:
                return w
            for k, d, t in a.edges[x]:
                if t in seen:
                    continue
                if k == "e":
                    u = ""
                elif k == "c":
                    r = reps(d)
                    if not r:
                        continue
                    u = chr(r[0])
                elif d is None:
                    u = ""
                else:
                    u = self.mint.get(d)
                    if u is None:
                        continue
                heapq.heappush(h, (n + len(u), i, t, w + u))
                i += 1
        return None

    # ------------------------------------------- texts for a list of tokens
    def realise(self, name, toks, fuel=4000):
        """texts of rule `name` whose body has the given tokens, generated
        short first: ("V", word) ("Z", rule name, text) ("T", rule name, tokens)
        and None for "whatever is shortest from here on" """
        a = self.nfa[name]
        budget = [fuel]

        def go(s, i, w, fresh, seen):
            # at state s with tokens from i left
            if budget[0] <= 0:
                return
            budget[0] -= 1
            if i == len(toks) and s == a.final:
                yield ""
            tok = toks[i] if i < len(toks) else ("end",)
            if tok is None:
                t = self.path_text(a, s)
                if t is not None:
                    yield t
                return
            for k, d, t in a.edges[s]:
                if k == "e":
                    if (t, i, w, fresh) in seen:
                        continue
                    yield from go(t, i, w, fresh, seen | {(t, i, w, fresh)})
                elif k == "c":
                    if tok[0] != "V" or (w == 0 and not fresh):
                        continue
                    c = tok[1][w]
                    if not any(x <= ord(c) <= y for x, y in d):
                        continue
                    if w + 1 == len(tok[1]):
                        for r in go(t, i + 1, 0, False, frozenset()):
                            yield c + r
                    else:
                        for r in go(t, i, w + 1, fresh, frozenset()):
                            yield c + r
                elif w:
                    continue
                elif k == "b":
                    m = "" if d is None else self.mint.get(d)
                    if m is None or (t, i, w, True) in seen:
                        continue
                    for r in go(t, i, 0, True, seen | {(t, i, w, True)}):
                        yield m + r
                elif k == "r":
                    if tok[0] == "Z" and tok[1] == d:
                        for r in go(t, i + 1, 0, True, frozenset()):
                            yield tok[2] + r
                    elif tok[0] == "T" and tok[1] == d:
                        for u in self.realise(d, tok[2], budget[0] // 2 + 1):
                            for r in go(t, i + 1, 0, True, frozenset()):
                                yield u + r

        yield from go(a.start, 0, 0, True, frozenset())

    # --------------------------------------------------- meaning of a grammar
    def parse(self, text, root="main"):
        """the tree a grammar gives a text, or None"""
        import sys

        sys.setrecursionlimit(20000)
        memo = {}

        class Critical(Exception):
            pass

        def ev(e, i):
            k = e[0]
            if k == "lit":
                return (i + len(e[1]), [e[1]]) if text.startswith(e[1], i) else None
            if k == "dot":
                return (i + 1, [text[i]]) if i < len(text) else None
            if k == "match":
                if i < len(text) and any(a <= ord(text[i]) <= b for a, b in self.charset(e[1], e[2])):
                    return i + 1, [text[i]]
                return None
            if k == "eof":
                return (i, []) if i == len(text) else None
            if k == "error":
                raise Critical()
            if k == "not":
                return (i, []) if ev(e[1], i) is None else None
            if k == "and":
                ns = []
                for x in e[1]:
                    r = ev(x, i)
                    if r is None:
                        return None
                    i = r[0]
                    ns = ns + r[1]
                return i, ns
            if k == "or":
                for x in e[1]:
                    r = ev(x, i)
                    if r is not None:
                        return r
                return None
            if k == "rep":
                ns, n, still = [], 0, False
                while e[3] is None or n < e[3]:
                    r = ev(e[1], i)
                    if r is None:
                        break
                    n += 1
                    ns = ns + r[1]
                    if r[0] == i:
                        still = True
                        break
                    i = r[0]
                return (i, ns) if n >= e[2] or still else None
            if k == "ref":
                m = (e[1], i)
                if m not in memo:
                    if e[1] not in self.rules:
                        raise Critical()
                    r = ev(self.rules[e[1]], i)
                    memo[m] = None if r is None else (r[0], [(e[1], r[1], i, r[0])])
                return memo[m]
            raise ValueError(k)

        try:
            r = ev(("ref", root), 0)
        except (Critical, RecursionError):
            return None
        if r is None or r[0] != len(text):
            return None
        return r[1][0]

    def tokens(self, node):
        """compacted, pruned, as nested lists: words and (name, tokens)"""
        out = []
        run = None
        for x in node[1]:
            if isinstance(x, str):
                run = (run or "") + x
                continue
            if run is not None:
                out.append(run)
                run = None
            if x[0] not in self.pruned:
                out.append((x[0], self.tokens(x)))
        if run is not None:
            out.append(run)
        return out

    def find(self, node, name, a, b):
        """the nodes called name that span a..b"""
        if node[0] == name and node[2] == a and node[3] == b:
            yield node
        for x in node[1]:
            if not isinstance(x, str):
                yield from self.find(x, name, a, b)

    def texts(self, name, n):
        """some texts of a rule, short first"""
        k = (name, n)
        if k not in self._texts:
            a = self.nfa[name]
            out = []
            h = [(0, 0, a.start, "", frozenset())]
            i = 1
            tries = 0
            while h and tries < 4000 and len(out) < n:
                ln, _, s, w, eps = heapq.heappop(h)
                tries += 1
                if s == a.final and w not in out:
                    out.append(w)
                for kind, d, t in a.edges[s]:
                    if kind == "e":
                        if t not in eps:
                            heapq.heappush(h, (ln, i, t, w, eps | {t}))
                            i += 1
                        continue
                    if kind == "c":
                        us = [chr(c) for c in reps(d)]
                    elif d is None:
                        us = [""]
                    elif kind == "b":
                        us = [self.mint[d]] if d in self.mint else []
                    else:
                        us = self.short(d)
                    for u in us:
                        heapq.heappush(h, (ln + len(u), i, t, w + u, frozenset() if u else eps | {t}))
                        i += 1
            self._texts[k] = out
        return self._texts[k]

    def short(self, d):
        """a few texts of a rule inside another"""
        if d in self._short:
            return self._short[d]
        self._short[d] = [self.mint[d]] if d in self.mint else []
        self._short[d] = self.texts(d, 5) or self._short[d]
        return self._short[d]
