"""Loads a MIR dump: types, function bodies, control flow, liveness, loops."""
import json


class Fn:
    pass


def place_reads(p, out):
    out.append(p[0])
    for e in p[1]:
        if e[0] == "i":
            out.append(e[1])


def op_reads(o, out):
    if o[0] in "cm":
        place_reads(o[1], out)


def rv_reads(r, out):
    k = r[0]
    if k == "use":
        op_reads(r[1], out)
    elif k == "ref":
        place_reads(r[2], out)
    elif k in ("discr", "len"):
        place_reads(r[1], out)
    elif k in ("bin", "cbin"):
        op_reads(r[2], out)
        op_reads(r[3], out)
    elif k in ("un", "cast"):
        op_reads(r[2], out)
    elif k == "repeat":
        op_reads(r[1], out)
    elif k == "agg":
        for o in r[2]:
            op_reads(o, out)


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[4]]
    return []


def term_reads(t, out):
    k = t[0]
    if k == "switch":
        op_reads(t[1], out)
    elif k == "call":
        if "dyn" in t[1]:
            op_reads(t[1]["dyn"], out)
        for a in t[2]:
            op_reads(a, out)
        if t[3][1]:
            place_reads(t[3], out)
    elif k == "assert":
        op_reads(t[1], out)


_serial = [0]


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.crate = d["crate"]
        self.roots = d["roots"]
        self.generic = d["generic"]
        self.raw = d["fns"]
        self.statics = d.get("statics", [])
        self.adts = d.get("adts", [])
        self._fns = {}
        _serial[0] += 1
        self.serial = _serial[0]
        self._adt = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self._adt.setdefault(t["path"], t)

    def fn(self, key):
        f = self._fns.get(key)
        if f is None and key in self.raw:
            f = self._fns[key] = self.prepare(key, self.raw[key])
        return f

    def adt(self, path):
        return self._adt.get(path)

    def is_enum(self, path):
        t = self._adt.get(path)
        return bool(t and t["enum"])

    def by_path(self, path):
        """functions with that definition path"""
        return [k for k, f in self.raw.items() if f["path"] == path]

    # -------------------------------------------------------------------
    def prepare(self, key, d):
        f = Fn()
        f.key = key
        f.path = d["path"]
        f.name = d["name"]
        f.krate = d["krate"]
        f.nargs = d["nargs"]
        f.locals = d["locals"]
        f.spread = d["spread"]
        f.file, f.line = d["file"], d["line"]
        f.names = d["names"]
        f.targs = d["targs"]
        blocks = [[list(b["s"]), b["t"]] for b in d["blocks"]]
        # drops do nothing to values
        for b in blocks:
            if b[1][0] == "drop":
                b[1] = ["goto", b[1][2]]
        changed = True
        while changed:
            changed = False
            # thread empty gotos
            def final(i, seen):
                while not blocks[i][0] and blocks[i][1][0] == "goto" and i not in seen:
                    seen.add(i)
                    i = blocks[i][1][1]
                return i

            for b in blocks:
                t = b[1]
                k = t[0]
                if k == "goto":
                    n = final(t[1], set())
                    if n != t[1]:
                        b[1] = ["goto", n]
                        changed = True
                elif k == "switch":
                    br = [[v, final(x, set())] for v, x in t[2]]
                    o = final(t[3], set())
                    unreach = blocks[o][1][0] == "unreachable" and not blocks[o][0]
                    tg = set(x for _, x in br) | (set() if unreach else {o})
                    if len(tg) == 1:
                        b[1] = ["goto", tg.pop()]
                        changed = True
                    elif br != t[2] or o != t[3]:
                        b[1] = ["switch", t[1], br, o, t[4]]
                        changed = True
                elif k == "call" and t[4] is not None:
                    n = final(t[4], set())
                    if n != t[4]:
                        b[1] = t[:4] + [n] + t[5:]
                        changed = True
                elif k == "assert":
                    n = final(t[4], set())
                    if n != t[4]:
                        b[1] = t[:4] + [n] + t[5:]
                        changed = True
            # dead stores
            live_out, _ = self.liveness(blocks, f.nargs)
            taken = set()
            for b in blocks:
                for s in b[0]:
                    if s[0] == "=" and s[2][0] == "ref":
                        taken.add(s[2][2][0])
            for bi, b in enumerate(blocks):
                live = set(live_out[bi])
                r = []
                term_reads(b[1], r)
                if b[1][0] == "call" and not b[1][3][1]:
                    live.discard(b[1][3][0])
                live.update(r)
                if b[1][0] == "return":
                    live.add(0)
                keep = []
                for s in reversed(b[0]):
                    l, pr = s[1]
                    if s[0] == "=" and not pr and l != 0 and l not in live and l not in taken:
                        changed = True
                        continue
                    if s[0] == "=" and not pr:
                        live.discard(l)
                    elif any(e[0] == "D" for e in pr):
                        live.add(l)
                    for e in pr:
                        if e[0] == "i":
                            live.add(e[1])
                    r = []
                    if s[0] == "=":
                        rv_reads(s[2], r)
                    live.update(r)
                    keep.append(s)
                keep.reverse()
                b[0] = keep
        f.blocks = [(b[0], b[1]) for b in blocks]
        lo, li = self.liveness(blocks, f.nargs)
        f.live_in = li
        f.live_out = lo
        f.headers, f.loops = self.headers(f.blocks)
        f.tail_calls = set()
        for i, (ss, t) in enumerate(f.blocks):
            if t[0] == "call" and t[1].get("inst") == key and t[4] is not None and self.is_tail(f, t):
                f.tail_calls.add(i)
        if f.tail_calls:
            f.headers = set(f.headers) | {0}
            f.loops.setdefault(0, set(range(len(f.blocks))))
        return f

    def is_tail(self, f, t):
        cur = t[3]
        if cur[1]:
            return False
        l = cur[0]
        b = t[4]
        for _ in range(20):
            ss, tt = f.blocks[b]
            for s in ss:
                if s[0] == "=" and s[2][0] == "use" and s[2][1][0] in "cm" and s[2][1][1] == [l, []] and not s[1][1]:
                    l = s[1][0]
                else:
                    return False
            if tt[0] == "return":
                return l == 0
            if tt[0] != "goto":
                return False
            b = tt[1]
        return False

    def liveness(self, blocks, nargs):
        n = len(blocks)
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        for i, (ss, t) in enumerate(blocks):
            u, d = use[i], df[i]

            def rd(rs):
                for r in rs:
                    if r not in d:
                        u.add(r)

            for s in ss:
                r = []
                if s[0] == "=":
                    rv_reads(s[2], r)
                pr = s[1][1]
                for e in pr:
                    if e[0] == "i":
                        r.append(e[1])
                if pr:
                    # a partial write keeps the rest
                    r.append(s[1][0])
                rd(r)
                if s[0] == "=" and not pr:
                    d.add(s[1][0])
            r = []
            term_reads(t, r)
            if t[0] == "return":
                r.append(0)
            rd(r)
            if t[0] == "call" and not t[3][1]:
                d.add(t[3][0])
        li = [set() for _ in range(n)]
        lo = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in term_succ(blocks[i][1]):
                    o |= li[s]
                ni = use[i] | (o - df[i])
                if o != lo[i] or ni != li[i]:
                    lo[i], li[i] = o, ni
                    ch = True
        return lo, li

    def headers(self, blocks):
        """targets of back edges in a depth first walk, and their loop bodies"""
        color = {}
        back = []
        st = [(0, iter(term_succ(blocks[0][1])))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    back.append((b, s))
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(term_succ(blocks[s][1]))))
                    break
            else:
                color[b] = 2
                st.pop()
        pred = {}
        for i, (_, t) in enumerate(blocks):
            for s in term_succ(t):
                pred.setdefault(s, []).append(i)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(p for p in pred.get(x, []) if p in color)
        return set(loops), loops

    # ----------------------------------------------------------------- types
    def strip(self, ti):
        """type behind references and boxes"""
        while True:
            t = self.types[ti]
            if t["k"] in ("ref", "raw"):
                ti = t["e"]
            elif t["k"] == "adt" and t["box"]:
                ti = t["args"][0]
            else:
                return ti

    def tag(self, ti):
        t = self.types[ti]
        k = t["k"]
        if k == "int":
            return "int" if t["signed"] else "uint"
        if k in ("char", "bool"):
            return k
        if k == "ref" and t["mut"]:
            return ti
        s = self.strip(ti)
        if s != ti:
            return self.tag(s)
        return ti

    def tpath(self, ti):
        """path that names the type of an aggregate"""
        t = self.types[ti]
        k = t["k"]
        if k == "adt":
            return t["path"]
        if k == "tuple":
            return "tuple"
        if k == "closure":
            return "clo:" + str(t["inst"])
        return k
