"""The tree transformations (prune, pass_through_except, compact, flatten).

Each is given by equations over the tree.  The functions that take part in the
recursion are found in the call graph, each is assigned the equation its
signature stands for (node -> node, nodes -> nodes, collector variants), and
every one of them has to refine its equation when the recursive calls are taken
as theirs: an induction over the tree."""
import itertools
from common import *
from parserspec import ANY, NODE
from astrules import FNODE, kit_of, findings
import refine
from refine import Kit, Spec, ret, GiveUp, Mach
from evalrules import no_kit, path_str

OPT = "std::option::Option"


class Role:
    """what the parameters and the result of a function of the recursion are"""

    def __init__(self, prog, key, out_node):
        self.key = key
        f = prog.raw[key]
        self.path = f["path"]
        self.node = self.names = self.list = self.acc = self.accmut = None
        self.nodemut = False
        self.bad = None
        ps = [f["locals"][i + 1] for i in range(f["nargs"])]
        vecs = []
        for i, ti in enumerate(ps):
            t = prog.types[ti]
            ref = t["k"] == "ref"
            mut = ref and t["mut"]
            b = prog.types[prog.strip(ti)]
            e = None
            if b["k"] == "slice":
                e = prog.types[prog.strip(b["e"])]
            elif b["k"] == "adt" and b["path"] == "std::vec::Vec":
                e = prog.types[prog.strip(b["args"][0])]
            if b["k"] == "adt" and b["path"] == NODE:
                if self.node is not None:
                    self.bad = "two nodes"
                self.node, self.nodemut = i, mut
            elif e is not None and e["k"] == "adt" and e["path"] in (NODE, out_node):
                vecs.append((i, ref, mut, e["path"]))
            elif e is not None and (e["k"] == "str" or e.get("path") == "std::string::String"):
                if self.names is not None:
                    self.bad = "two lists of names"
                self.names = i
            else:
                self.bad = "parameter %d" % i
        for i, ref, mut, p in vecs:
            if mut or (not ref and len(vecs) + (self.node is not None) > 1) or p != NODE:
                if self.acc is not None:
                    self.bad = "two collectors"
                self.acc, self.accmut = i, mut
            elif self.list is None:
                self.list = i
            else:
                self.bad = "two lists"
        if (self.node is None) == (self.list is None):
            self.bad = self.bad or "neither node nor list"
        r = f["locals"][0]
        b = prog.types[prog.strip(r)]
        if b["k"] == "adt" and b["path"] == NODE:
            self.ret = "node"
        elif b["k"] == "adt" and b["path"] == "std::vec::Vec":
            self.ret = "vec"
        elif b["k"] == "adt" and b["path"] == OPT and prog.types[prog.strip(b["args"][0])].get("path") == NODE:
            self.ret = "opt"
        elif b["k"] == "tuple" and not b["es"]:
            self.ret = "unit"
        elif b["k"] == "bool":
            self.ret = "bool"
        else:
            self.ret = "?"
            self.bad = self.bad or "result"
        if self.ret == "unit" and not self.accmut:
            self.bad = self.bad or "no result"
        if self.ret == "bool" or self.nodemut:
            self.bad = self.bad or "kind of result"

    def kind(self):
        s = "node" if self.node is not None else "list"
        return s + ("+acc" if self.acc is not None else "") + "->" + ("vec" if self.ret == "unit" else self.ret)


def fn_keys(g):
    out = set()

    def note(t):
        if t is None:
            return
        for x in walk(t):
            if x.op == "app" and x.args[0].startswith("fn:"):
                out.add(x.args[0][3:].split("#mut")[0])

    for e in g.edges():
        for c, _ in e.guards:
            note(c)
        for t in (e.binds or {}).values():
            note(t)
        note(e.value)
        for t in e.cells.values():
            note(t)
    return out


class Tree:
    """one transformation: its equations and the functions they are for"""

    out_node = NODE
    uses_names = False
    vec_ok = False
    linear = True  # what becomes of a node does not depend on the nodes before
    leaf_styles = ("node", "self", "same", "val")

    def __init__(self, ctx, path):
        self.ctx, self.path = ctx, path
        self.K = kit_of(ctx)
        self.P = ctx.public(path)
        self.find()

    def find(self):
        keys = {self.P}
        while True:
            more = set()
            self.graphs = {}
            for k in keys:
                g = self.graphs[k] = self.ctx.graph(k, cut=[self.P])
                more |= fn_keys(g)
            if more <= keys:
                break
            keys |= more
            if len(keys) > 8:
                raise GiveUp("recursion through too many functions")
        self.keys = keys
        self.roles = {}
        for k in keys:
            r = Role(self.ctx.prog, k, self.out_node)
            if r.bad:
                raise GiveUp("part of %s in the recursion: %s" % (r.path, r.bad))
            if self.uses_names and r.names is None:
                raise GiveUp("%s is not given the names" % r.path)
            self.roles[k] = r
        self.kinds = {r.kind() for r in self.roles.values()}

    # ------------------------------------------------- calls as equations
    def hook(self, er, t):
        if t.op != "app" or not t.args[0].startswith("fn:"):
            return None
        n = t.args[0][3:]
        key = n.split("#mut")[0]
        r = self.roles.get(key)
        if r is None:
            return None
        a = [er(x) if isinstance(x, T) else x for x in t.args[1:]]
        return self.meaning(r, a)

    def sp(self, n, *a):
        return app("spec:" + n, *a)

    def meaning(self, r, a):
        nm = (a[r.names],) if r.names is not None else ()
        if r.node is not None:
            x = a[r.node]
            if r.ret == "node":
                return self.sp("node", x, *nm)
            if r.ret == "opt":
                return self.sp("opt", x, *nm)
            if self.meanings.get(r.key) == "below":
                v = self.sp("below", x, *nm)
                return concat(a[r.acc], v) if r.acc is not None else v
            return self.collect(a[r.acc] if r.acc is not None else EMPTY, x, nm)
        xs = a[r.list]
        if r.acc is not None:
            return self.collect_all(a[r.acc], xs, nm)
        return self.sp("list", xs, *nm)

    def collect(self, acc, x, nm):
        return concat(acc, self.sp("nodes_of", x, *nm))

    def collect_all(self, acc, xs, nm):
        return concat(acc, self.sp("list", xs, *nm))

    # ------------------------------------- equations where the node is known
    def expand_terms(self, t, facts):
        memo = {}

        def go(x):
            if x is None:
                return None
            r = memo.get(x)
            if r is not None:
                return r
            y = rebuild(x, go)
            if y.op == "seq":
                y = self.without_empty(y, facts)
            if y.op == "app":
                y = self.known(y, facts) or y
            memo[x] = y
            return y

        return go(t)

    def without_empty(self, y, facts):
        ps = parts_of(y)
        qs = [(k, v) for k, v in ps if k != "S" or facts.eval(le0(slen(v))) is not True]
        return y if len(qs) == len(ps) else seq(qs)

    def kind_of(self, x, facts):
        vs = self.K.adt(NODE)["variants"]
        left = [i for i in range(len(vs)) if facts.eval(eqi(discr(x), I(i))) is not False]
        return vs[left[0]]["name"] if len(left) == 1 else None

    def known(self, t, facts):
        """what a call stands for when the facts tell the kind of its node"""
        n = t.args[0]
        if n == "spec:list":
            xs = t.args[1]
            if facts.eval(le0(slen(xs))):
                return EMPTY
            if xs.op == "seq" and self.linear and any(k == "E" for k, _ in parts_of(xs)):
                out, nm = EMPTY, t.args[2:]
                for k, v in parts_of(xs):
                    if k == "E":
                        y = self.sp("nodes_of", v, *nm)
                        out = concat(out, self.known(y, facts) or y)
                    else:
                        out = concat(out, self.sp("list", v, *nm))
                return out
            k = facts.val(slen(xs)) if self.linear else None
            if k is not None and k <= 3:
                out, nm = EMPTY, t.args[2:]
                for i in range(int(k)):
                    y = self.sp("nodes_of", nth(xs, I(i)), *nm)
                    out = concat(out, self.known(y, facts) or y)
                return out
            return None
        if n not in ("spec:node", "spec:nodes_of", "spec:below"):
            return None
        x, nm = t.args[1], t.args[2:]
        k = self.kind_of(x, facts)
        if n == "spec:below":
            return None if k is None else self.sp("list", self.f(x, 1), *nm) if k == "Rule" else EMPTY
        if n == "spec:node":
            if k is None:
                return None
            if k == "Val":
                return x
            if k == "EOF":
                return self.K.new(NODE, "EOF")
            return self.rule(self.f(x, 0), self.sp("list", self.f(x, 1), *nm))
        return self.known_nodes(x, k, nm)

    def known_nodes(self, x, k, nm):
        if k in ("Val", "EOF"):
            return vec_of([self.sp("node", x, *nm)])
        return None

    # --------------------------------------------------------------- specs
    def styles(self, meanings):
        ls = ["call", "loop"]
        if any(k.startswith("list") for k in self.kinds) or "below" in meanings.values():
            ls += ["direct", "cons"]
        es = ["expand"]
        if "nodes_of" in meanings.values():
            es.append("vec")
        if "node->opt" in self.kinds:
            es.append("opt")
        return itertools.product(ls, es)

    def node(self, m, x, nm):
        return self.expand_terms(self.sp("node", x, *nm), m.facts)

    def f(self, x, i):
        """0: name, 1: nodes of a rule node"""
        return fld(self.K.f(x, NODE, 0, "Rule"), 0, i, "tuple", 2)

    def is_rule(self, m, x):
        return m.br(eqi(discr(x), I(self.K.vix(NODE, "Rule"))))

    def is_val(self, m, x):
        return m.br(eqi(discr(x), I(self.K.vix(NODE, "Val"))))

    def val(self, x):
        return self.K.f(x, NODE, 0, "Val")

    def rule(self, n, xs):
        return self.K.new(NODE, "Rule", tup(n, xs))

    def spec(self, r, style):
        ls, es = style
        K = self.K
        me = self

        def out_of(args, v):
            return v

        if ls == "call":

            def call(m, *args):
                return ret(me.expand_terms(me.meaning(r, args), m.facts), "call")

            return Spec("%s (%s)" % (self.path, r.kind()), {"start": call})

        def start(m, *args):
            nm = (args[r.names],) if r.names is not None else ()
            if r.node is not None:
                x = args[r.node]
                if r.ret == "node":
                    if not me.is_rule(m, x):
                        return ret(me.leaf(m, x), "leaf")
                    if ls == "direct":
                        return ret(me.whole(me.f(x, 0), me.sp("list", me.f(x, 1), *nm)), "Rule")
                    return ("list", args + (me.f(x, 1), ZERO, me.before(me.f(x, 0))))
                if r.ret == "opt":
                    return ("opt", args)
                acc = args[r.acc] if r.acc is not None else EMPTY
                if me.meanings.get(r.key) == "below":
                    if not me.is_rule(m, x):
                        return ret(acc, "leaf")
                    if ls == "direct":
                        return ret(me.collect_all(acc, me.f(x, 1), nm), "Rule")
                    return ("list", args + (me.f(x, 1), ZERO, acc))
                return ("one", args + (acc,))
            xs = args[r.list]
            acc = args[r.acc] if r.acc is not None else EMPTY
            if ls == "direct":
                if r.acc is None:
                    raise GiveUp("style")
                return ret(me.collect_all(acc, xs, nm), "list")
            if ls == "cons":
                if m.br(le0(slen(xs))):
                    return ret(acc, "list: end")
                return ("elem", args + (xs, ZERO, acc, nth(xs, ZERO)))
            return ("list", args + (xs, ZERO, acc))

        n = r_n = len(self.ctx.prog.raw[r.key]["locals"]) and self.ctx.prog.raw[r.key]["nargs"]

        def split(vs):
            args, rest = vs[:n], vs[n:]
            nm = (args[r.names],) if r.names is not None else ()
            return args, nm, rest

        def done(args, out):
            if r.ret == "node":
                return ret(me.after(me.f(args[r.node], 0), out), "Rule")
            return ret(out, "list")

        def list_(m, *vs):
            args, nm, (xs, i, out) = split(vs)
            if not m.br(lt(i, slen(xs))):
                return done(args, out)
            return ("elem", args + (xs, i, out, nth(xs, i)))

        def nxt(args, nm, xs, i, out):
            if ls == "cons" and r.list is not None:
                return ret(me.collect_all(out, sdrop(xs, I(1)), nm), "list: head and tail")
            return ("list", args + (xs, add(i, I(1)), out))

        def elem(m, *vs):
            args, nm, (xs, i, out, x) = split(vs)
            if es == "vec":
                return nxt(args, nm, xs, i, me.collect(out, x, nm))
            if es == "opt":
                o = me.sp("opt", x, *nm)
                return nxt(args, nm, xs, i, push_elem(out, K.somev(o)) if m.is_some(o) else out)
            return me.expand(m, args, nm, (xs, i, out, x), nxt, "name")

        def one(m, *vs):
            args, nm, (out,) = split(vs)
            x = args[r.node]
            return me.expand(m, args, nm, (EMPTY, ZERO, out, x), lambda a, nm, xs, i, out: ret(out, "node"), "name1")

        def opt(m, *vs):
            args, nm, _ = split(vs)
            x = args[r.node]

            def fin(a, nm, xs, i, out):
                if out is EMPTY:
                    return ret(K.NONE, "node: none")
                return ret(K.some(parts_of(out)[0][1]), "node: some")

            return me.expand(m, args, nm, (EMPTY, ZERO, EMPTY, x), fin, "name2")

        def namer(fin):
            def name(m, *vs):
                args, nm, (xs, i, out, x, j) = split(vs)
                names = nm[0]
                k = m.known(app("contains", names, me.f(x, 0), ty="bool"))
                if k is None:
                    if not m.br(lt(j, slen(names))):
                        k = False
                    elif m.br(eqs(nth(names, j), me.f(x, 0))):
                        k = True
                    else:
                        return (name.at, args + (xs, i, out, x, add(j, I(1))))
                return fin(args, nm, xs, i, me.named(m, nm, out, x, k))

            return name

        steps = {"start": start, "list": list_, "elem": elem, "one": one, "opt": opt}
        name = namer(nxt)
        name.at = "name"
        name1 = namer(lambda a, nm, xs, i, out: ret(out, "node"))
        name1.at = "name1"

        def fin2(a, nm, xs, i, out):
            if out is EMPTY:
                return ret(K.NONE, "node: none")
            return ret(K.some(parts_of(out)[0][1]), "node: some")

        name2 = namer(fin2)
        name2.at = "name2"
        steps.update(name=name, name1=name1, name2=name2)
        return Spec("%s (%s)" % (self.path, r.kind()), steps)

    # the equations, to be given by each transformation
    def before(self, n):
        return EMPTY

    def after(self, n, out):
        return self.rule(n, out)

    def whole(self, n, xs):
        return self.rule(n, xs)

    def leaf(self, m, x):
        return x

    def named(self, m, nm, out, x, k):
        raise NotImplementedError

    # ----------------------------------------------------------------- run
    def view(self, g):
        v = refine.View(g, refine.Eraser({}, self.hook))
        v.accelerate()
        for es in v.edges.values():
            for e in es:
                x = lambda t: None if t is None else self.expand_terms(t, e.facts)
                e.binds = {p: x(t) for p, t in e.binds.items()}
                e.value = x(e.value)
                e.cells = {c: x(t) for c, t in e.cells.items()}
        return v

    def compare(self, k, graph, meanings):
        """the function k against its equation, in every way of writing it"""
        self.meanings = meanings
        r = self.roles[k]
        v = self.view(graph)

        def final(e):
            if r.ret == "unit":
                return e.cells.get("p%d" % r.acc)
            return e.value

        args = [graph.pointees[i] if p.op == "mref" else p for i, p in enumerate(graph.params)]

        got = []
        for style in self.styles(meanings):
            if style[0] == "call" and (style[1] != "expand" or graph is self.graphs.get(k)):
                continue
            if style[0] == "cons" and r.list is None or style[0] == "direct" and r.list is not None:
                continue
            if style[1] == "vec" and meanings.get(k) == "nodes_of" and not self.vec_ok and style[0] == "loop":
                continue
            try:
                R = refine.Refine(self.K, v, self.spec(r, style), args, final=final, canon=self.expand_terms).run()
            except GiveUp as x:
                self.why = str(x)
                continue
            self.tried += 1
            self.sort_out(R)
            R.style = style
            got.append(R)
            if self.rank(R) == 0:
                break
        return got

    SEQS = ("spec:list", "spec:steps", "spec:step", "spec:nodes_of", "spec:below")

    def sort_out(self, R):
        """mismatches that are down to the way of writing: what the code has
        spelled out on one side is a term of the equations on the other"""
        R.form = bool(R.notes)
        R.hard = None

        def own(t):
            return any(x.op == "app" and x.args[0].startswith("spec:") for x in walk(t))

        def opaque_seq(ps):
            return [v for k, v in ps if k == "S" and v.op == "app" and v.args[0] in self.SEQS]

        for m in R.mis:
            if m.definite and m.whole and R.hard is None:
                # in terms of the arguments alone: no way of writing differs here
                top = [m.impl, m.spec] + [self.expand_terms(x, m.facts) for x in m.top] + [c for c, _ in m.edge.guards]
                if not any(phis(x) or own(x) for x in top if x is not None):
                    R.hard = m
            if m.edge is not None and any(own(c) for c, _ in m.edge.guards):
                m.definite = False
                R.form = True
                continue
            if m.impl is None or m.spec is None:
                continue
            pa, pb = list(parts_of(m.impl)), list(parts_of(m.spec))
            while pa and pb and pa[0] == pb[0]:
                pa.pop(0), pb.pop(0)
            while pa and pb and pa[-1] == pb[-1]:
                pa.pop(), pb.pop()
            oa, ob = opaque_seq(pa), opaque_seq(pb)
            if not oa and not ob:
                continue
            if len(pa) == 1 and len(pb) == 1 and pa[0][0] == pb[0][0] == "S":
                x, y = pa[0][1], pb[0][1]
                if oa and ob and x.args[0] == y.args[0]:
                    continue
                if oa and y in x.args[1:] or ob and x in y.args[1:]:
                    continue
            m.definite = False
            R.form = True

    @staticmethod
    def rank(R):
        """0 agrees, 1 open, 2 refuted"""
        if any(m.definite for m in R.mis):
            return 2
        return 1 if R.mis or R.notes else 0

    def readings(self):
        amb = [k for k in self.order if self.roles[k].kind() in ("node->vec", "node+acc->vec") and k != self.P]
        fixed = {self.P: "nodes_of"} if self.roles[self.P].kind() == "node->vec" else {}
        for c in itertools.product(("nodes_of", "below"), repeat=len(amb)):
            ms = dict(zip(amb, c))
            ms.update(fixed)
            yield ms

    def run(self, rep):
        self.tried = 0
        self.why = "no reading of the function"
        self.order = sorted(self.keys, key=lambda k: (k != self.P, k))
        whole = {k: self.ctx.graph(k, cut=self.order) for k in self.order}
        for k in self.order:
            for s in self.graphs[k].stuck[:5]:
                rep.undec("%s: not analysed: %s" % (self.roles[k].path, s))
        rep.sample({"recursion": [self.roles[k].path + " as " + self.roles[k].kind() for k in self.order]})
        best = None
        for ms in self.readings():
            got = [(k, self.compare(k, whole[k], ms)) for k in self.order]
            got = [(k, min(Rs, key=lambda R: (self.rank(R), R.form, len(R.mis))) if Rs else None) for k, Rs in got]
            bad = sum(1 if R is None else len(R.mis) + len(R.notes) for _, R in got)
            if best is None or bad < best[0]:
                best = (bad, got)
            if not bad:
                break
        refuted = None
        if best[0] and self.on_shapes(rep):
            return
        if best[0]:
            # not shown.  Refuted, if the transformation with its helpers
            # followed differs from the equations however these are written
            worst, n = None, 0
            for ms in self.readings():
                Rs = self.compare(self.P, self.graphs[self.P], ms)
                n += 1
                hard = [R for R in Rs if R.hard is not None]
                if hard:
                    worst = hard[0]
                    worst.mis = [worst.hard]
                    worst.hard.definite = True
                    break
                fit = [R for R in Rs if not R.form]
                if not fit or any(self.rank(R) != 2 for R in fit):
                    worst = None
                    break
                R = min(fit, key=lambda R: len(R.mis))
                worst = R if worst is None or len(R.mis) < len(worst.mis) else worst
            if worst is not None:
                refuted = worst
                best = (1, [(self.P, worst)])
        rep.count("%s: readings tried" % self.path, self.tried)
        for k, R in best[1]:
            if R is None:
                rep.undec("%s: %s" % (self.roles[k].path, self.why))
                continue
            if R is not refuted:
                for m in R.mis:
                    m.definite = False
            findings(self.ctx, rep, R, self.roles[k].path, self.roles[k].path)


    # --------------------------------------------- where the induction fails
    NAMES = (None,)

    def result(self, x, names):
        """the transformation of a node that is known, by its equations"""
        raise NotImplementedError

    def on_shapes(self, rep):
        """is there a tree of which the result is none of the equations'?"""
        import shapes

        T = shapes.Trees(self.K)
        r = self.roles[self.P]
        if r.acc is not None or r.node is None or r.ret not in ("node", "vec"):
            return False
        n = 0
        left, F = 40000, None
        for shape in shapes.SHAPES:
            for k in self.NAMES:
                syms = []
                t = T.build(shape, syms)
                args = [None] * self.ctx.prog.raw[self.P]["nargs"]
                args[r.node] = t
                if r.names is not None:
                    ns = []
                    for i in range(k):
                        s = mk("sym", "given%d" % i, "shape")
                        s.ty = "str"
                        ns.append(s)
                    args[r.names] = vec_of(ns)
                    syms += ns
                left -= F.used() if F else 0
                if left <= 0:
                    break
                F = shapes.Follow(self.graphs)
                try:
                    for v, cells, st in F.call(self.P, args, shapes.State()):
                        n += 1
                        e = F.last
                        for m in itertools.islice(shapes.assignments(syms, st.conds), 40):
                            g = shapes.ground(v, m)
                            got = T.read(g) if r.ret == "node" else T.read_list(g, self.out_node)
                            if got is None:
                                continue
                            tree = T.read(shapes.ground(t, m))
                            names = [const_str(m[s]) for s in ns] if r.names is not None else []
                            want = self.result(tree, names)
                            if got == want:
                                continue
                            what = "makes %s of %s%s" % (shapes.show(got), shapes.show(tree), " with %s" % names if r.names is not None else "")
                            text = "%s %s, the equations give %s" % (self.path, what, shapes.show(want))
                            rep.count("%s: paths on trees of given shapes" % self.path, n)
                            rep.violate("%s: other result than its equations" % self.path, text, "%s:%s" % (e.where[-1] if e is not None and e.where else ("?", 0)))
                            return True
                except shapes.Enough:
                    continue
        rep.count("%s: paths on trees of given shapes" % self.path, n)
        return False


class Named(Tree):
    uses_names = True
    NAMES = (1, 0, 2)

    def expand(self, m, args, nm, st, nxt, name):
        xs, i, out, x = st
        if not self.is_rule(m, x):
            return nxt(args, nm, xs, i, push_elem(out, self.node(m, x, nm)))
        return (name, args + (xs, i, out, x, ZERO))

    def styles(self, meanings):
        out = list(Tree.styles(self, meanings))
        if "nodes_of" in meanings.values() or "node->opt" in self.kinds:
            out += [("kids first", e) for _, e in out if _ == "loop"] + [("name first", e) for _, e in out if _ == "loop"]
        return out

    def spec(self, r, style):
        ls, es = style
        if not (r.node is not None and (self.meanings.get(r.key) == "nodes_of" or r.ret == "opt") and ls in ("kids first", "name first")):
            return Tree.spec(self, r, ("loop" if ls in ("kids first", "name first") else ls, es))
        sp = Tree.spec(self, r, ("loop", es))
        me, n = self, self.ctx.prog.raw[r.key]["nargs"]
        inner = sp.steps["list"]

        def fin(m, args, nm, out, k):
            x = args[r.node]
            acc = args[r.acc] if r.acc is not None else EMPTY
            return res(me.put(m, acc, x, nm, out, k), "Rule")

        def res(v, tag):
            if r.ret != "opt":
                return ret(v, tag)
            return ret(me.K.NONE if v is EMPTY else me.K.some(parts_of(v)[0][1]), tag)

        def start(m, *args):
            x = args[r.node]
            nm = (args[r.names],)
            if not me.is_rule(m, x):
                acc = args[r.acc] if r.acc is not None else EMPTY
                return res(push_elem(acc, me.node(m, x, nm)), "leaf")
            if ls == "name first":
                return ("nm", args + (ZERO, EMPTY, EMPTY))
            return ("list", args + (me.f(x, 1), ZERO, EMPTY))

        def list_(m, *vs):
            args, (xs, i, out) = vs[:n], vs[n : n + 3]
            if not m.br(lt(i, slen(xs))):
                if ls == "name first":
                    return fin(m, args, (args[r.names],), out, True)
                return ("nm", args + (ZERO, out, EMPTY))
            return inner(m, *vs)

        def nm_(m, *vs):
            args, (j, out, _) = vs[:n], vs[n:]
            names = args[r.names]
            k = me.named_by(m, names, args[r.node], j)
            if k is None:
                return ("nm", args + (add(j, I(1)), out, _))
            if ls == "name first":
                if me.needs_kids(k):
                    return ("list" if k else "listn", args + (me.f(args[r.node], 1), ZERO, EMPTY))
                return fin(m, args, (names,), EMPTY, k)
            return fin(m, args, (names,), out, k)

        sp.steps.update(start=start, list=list_, nm=nm_)
        if ls == "name first":
            # the same loop where the name is not one of those given
            sub = Tree.spec(self, r, ("loop", es))

            def listn(m, *vs):
                args, (xs, i, out) = vs[:n], vs[n : n + 3]
                if not m.br(lt(i, slen(xs))):
                    return fin(m, args, (args[r.names],), out, False)
                return to_n(inner(m, *vs))

            def to_n(x):
                return (x[0] + "n" if x[0] in ("list", "elem", "name") else x[0],) + tuple(x[1:])

            for k in ("elem", "name"):
                sp.steps[k + "n"] = (lambda f: lambda m, *vs: to_n(f(m, *vs)))(sp.steps[k])
            sp.steps["listn"] = listn
        return sp

    def named_by(self, m, names, x, j):
        """is x one of the names: known, or found by looking at them in turn"""
        k = m.known(app("contains", names, self.f(x, 0), ty="bool"))
        if k is not None:
            return k
        if not m.br(lt(j, slen(names))):
            return False
        if m.br(eqs(nth(names, j), self.f(x, 0))):
            return True
        return None

    def needs_kids(self, k):
        return True


class Prune(Named):
    def result(self, x, names):
        if x[0] != "R":
            return x
        return ("R", x[1], tuple(self.result(y, names) for y in x[2] if y[0] != "R" or y[1] not in names))

    def needs_kids(self, k):
        return not k

    def put(self, m, acc, x, nm, out, k):
        return acc if k else push_elem(acc, self.rule(self.f(x, 0), out))

    def named(self, m, nm, out, x, k):
        return out if k else push_elem(out, self.node(m, x, nm))


class Pass(Named):
    def result(self, x, names):
        if x[0] != "R":
            return x
        return ("R", x[1], tuple(z for y in x[2] for z in self.results(y, names)))

    def results(self, x, names):
        y = self.result(x, names)
        return (y,) if x[0] != "R" or x[1] in names else y[2]

    def put(self, m, acc, x, nm, out, k):
        return push_elem(acc, self.rule(self.f(x, 0), out)) if k else concat(acc, out)

    def named(self, m, nm, out, x, k):
        if k:
            return push_elem(out, self.node(m, x, nm))
        return concat(out, self.sp("list", self.f(x, 1), *nm))


class Compact(Tree):
    linear = False

    def result(self, x, names):
        if x[0] != "R":
            return x
        out = []
        for y in x[2]:
            if y[0] == "Val" and out and out[-1][0] == "Val":
                out[-1] = ("Val", out[-1][1] + y[1])
            else:
                out.append(self.result(y, names))
        return ("R", x[1], tuple(out))

    def styles(self, meanings):
        return list(Tree.styles(self, meanings)) + [("runs", "expand")]

    def spec(self, r, style):
        """`runs`: the text of neighbouring values is gathered before it is put
        into the list, which comes to the same as joining it to the last one"""
        if style[0] != "runs":
            return Tree.spec(self, r, style)
        if r.acc is not None or r.ret not in ("node", "vec"):
            raise GiveUp("style")
        sp = Tree.spec(self, r, ("loop", "expand"))
        me, n = self, self.ctx.prog.raw[r.key]["nargs"]
        K = self.K
        inner = sp.steps["list"]

        def list_(m, *vs):
            args, (xs, i, out) = vs[:n], vs[n:]
            if not m.br(lt(i, slen(xs))):
                return inner(m, *vs)
            x = nth(xs, i)
            if me.is_val(m, x):
                return ("run", args + (xs, add(i, I(1)), out, me.val(x)))
            return ("list", args + (xs, add(i, I(1)), push_elem(out, me.node(m, x, ()))))

        def run(m, *vs):
            args, (xs, i, out, text) = vs[:n], vs[n:]
            v = K.new(NODE, "Val", text)
            if not m.br(lt(i, slen(xs))):
                return inner(m, *(args + (xs, i, push_elem(out, v))))
            x = nth(xs, i)
            if me.is_val(m, x):
                return ("run", args + (xs, add(i, I(1)), out, concat(text, me.val(x))))
            return ("list", args + (xs, add(i, I(1)), push_elem(push_elem(out, v), me.node(m, x, ()))))

        sp.steps.update(list=list_, run=run)
        return sp

    def expand(self, m, args, nm, st, nxt, name):
        xs, i, out, x = st
        if self.is_val(m, x):
            n = slen(out)
            if m.br(lt(ZERO, n)):
                p = nth(out, sub(n, I(1)))
                if self.is_val(m, p):
                    both = concat(self.val(p), self.val(x))
                    return nxt(args, nm, xs, i, push_elem(sinit(out), self.K.new(NODE, "Val", both)))
            return nxt(args, nm, xs, i, push_elem(out, self.node(m, x, nm)))
        if self.is_rule(m, x):
            return nxt(args, nm, xs, i, push_elem(out, self.node(m, x, nm)))
        return nxt(args, nm, xs, i, push_elem(out, self.node(m, x, nm)))

    def collect(self, acc, x, nm):
        return self.sp("step", acc, x, *nm)

    def collect_all(self, acc, xs, nm):
        if acc is EMPTY:
            return self.sp("list", xs, *nm)
        return self.sp("steps", acc, xs, *nm)


class Flat(Tree):
    out_node = FNODE
    vec_ok = True

    def result(self, x, names):
        if x[0] == "E":
            return ()
        if x[0] != "R":
            return (x,)
        return (("BeginRule", x[1]),) + tuple(z for y in x[2] for z in self.result(y, names)) + (("EndRule", x[1]),)

    def leaf_nodes(self, m, x):
        if self.is_val(m, x):
            return vec_of([self.K.new(FNODE, "Val", self.val(x))])
        return EMPTY

    def known_nodes(self, x, k, nm):
        if k == "Val":
            return vec_of([self.K.new(FNODE, "Val", self.val(x))])
        if k == "EOF":
            return EMPTY
        if k == "Rule":
            return self.around(x, self.sp("list", self.f(x, 1)))
        return None

    def around(self, x, v):
        n = self.f(x, 0)
        return concat(vec_of([self.K.new(FNODE, "BeginRule", n)]), v, vec_of([self.K.new(FNODE, "EndRule", n)]))

    def expand(self, m, args, nm, st, nxt, name):
        xs, i, out, x = st
        v = self.expand_terms(self.sp("nodes_of", x), m.facts)
        return nxt(args, nm, xs, i, concat(out, v))

    def collect(self, acc, x, nm):
        return concat(acc, self.sp("nodes_of", x))

    def spec(self, r, style):
        sp = Tree.spec(self, r, style)
        if style[0] == "call" or r.node is None or self.meanings.get(r.key) == "below":
            return sp
        ls, es = style
        me, n = self, self.ctx.prog.raw[r.key]["nargs"]

        def start(m, *args):
            x = args[r.node]
            acc = args[r.acc] if r.acc is not None else EMPTY
            if not me.is_rule(m, x):
                return ret(concat(acc, me.leaf_nodes(m, x)), "leaf")
            xs = me.f(x, 1)
            if ls == "direct":
                return ret(concat(acc, me.around(x, me.sp("list", xs))), "Rule")
            b = me.K.new(FNODE, "BeginRule", me.f(x, 0))
            return ("list", args + (xs, ZERO, push_elem(acc, b)))

        def list_(m, *vs):
            args, (xs, i, out) = vs[:n], vs[n:]
            if not m.br(lt(i, slen(xs))):
                return ret(push_elem(out, me.K.new(FNODE, "EndRule", me.f(args[r.node], 0))), "Rule")
            return ("elem", args + (xs, i, out, nth(xs, i)))

        sp.steps.update(start=start, list=list_)
        return sp


@no_kit
def c23(ctx, rep):
    Prune(ctx, "ast::Node::prune").run(rep)


@no_kit
def c24(ctx, rep):
    Pass(ctx, "ast::Node::pass_through_except").run(rep)


@no_kit
def c25(ctx, rep):
    Compact(ctx, "ast::Node::compact").run(rep)


@no_kit
def c26(ctx, rep):
    Flat(ctx, "ast::flat::<impl ast::Node>::flatten").run(rep)
