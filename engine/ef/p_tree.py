"""C07, C22, C23: traversals of the quadtree, on one rank and on several."""
import itertools
from .oblig import Ob
from . import adt, common, flow, front, ranks, terms as T
from .terms import mk, num, cint, ZERO, ONE, TRUE, FALSE

E = "EllipticForest::"
OBS = []
MAXLEVEL = 30


# ---------------------------------------------------------------- the forest
class Forest:
    """leaves in Morton order (their paths) and how many consecutive leaves each rank owns"""

    other = None

    def __init__(self, refined, counts=None):
        self.refined = set(refined)
        self.leaves = []

        def go(p):
            if p in self.refined:
                for k in range(4):
                    go(p + str(k))
            else:
                self.leaves.append(p)
        go("0")
        self.counts = counts or [len(self.leaves)]
        assert sum(self.counts) == len(self.leaves)
        self.owner = {}
        i = 0
        for r, c in enumerate(self.counts):
            for p in self.leaves[i:i + c]:
                self.owner[p] = r
            i += c
        self.n = len(self.counts)

    def under(self, p):
        return [q for q in self.leaves if q.startswith(p)]

    def span(self, p):
        o = [self.owner[q] for q in self.under(p)]
        return min(o), max(o)

    def local(self, p, r):
        return any(self.owner[q] == r for q in self.under(p))

    def entered(self, r):
        """quadrants the search over the whole forest visits on rank r"""
        out = []

        def go(p):
            a, b = self.span(p)
            out.append(p)
            if p in self.refined and not (a == b != r):
                for k in range(4):
                    go(p + str(k))
        go("0")
        return out

    def local_num(self, p, r):
        if p in self.refined or self.owner[p] != r:
            return -1
        return [q for q in self.leaves if self.owner[q] == r].index(p)


def quad(ip, path):
    root = ("g", "quadrant " + path)
    if root not in ip.rootinit:
        l = len(path) - 1
        x = y = 0
        for k, c in enumerate(path[1:]):
            h = 1 << (MAXLEVEL - 1 - k)
            x += h * (int(c) & 1)
            y += h * (int(c) >> 1)
        ip.rootinit[root] = T.setf(ip.make_sym("p4est_quadrant", "q" + path), {"level": num(l), "x": num(x), "y": num(y)})
        ip.roottype[root] = "p4est_quadrant"
    return mk("ptr", root, ())


def pointee(ip, st, fr, a):
    return ip.load(st, ip.deref(ip.ev(a, st, fr)))


def h_ancestor(ip, st, fr, e, args, this):
    q = pointee(ip, st, fr, args[0])
    l = cint(ip.ev(args[1], st, fr)) if len(args) > 1 else cint(T.fld(q, "level"))
    x, y = cint(T.fld(q, "x")), cint(T.fld(q, "y"))
    if None in (l, x, y):
        return "r", ip.unk("quadrant that is not one of the forest's")
    if l <= 0:
        return "r", ZERO
    b = MAXLEVEL - l
    return "r", num((x >> b & 1) | (y >> b & 1) << 1)


def forest_at(ip, p):
    """the forest behind the pointer handed to p4est"""
    return ip.forest.other if ip.forest.other is not None and "other" in str(p.a[0]) else ip.forest


def goes_on(ip, st, v):
    c = ip.known(st, T.tobool(v))
    if c in (TRUE, FALSE):
        return c is TRUE
    ip.taint(st, "a traversal callback whose result is not decided")
    return True


def h_search_all():
    def h(ip, st, fr, e, args, this):
        v = [ip.ev(a, st, fr) for a in args]
        forest = forest_at(ip, v[0])

        def go(p):
            if st.dead:
                return
            a, b = forest.span(p)
            k, r = ip.call_value(v[2], [("r", x) for x in (v[0], ZERO, quad(ip, p), num(a), num(b), num(forest.local_num(p, ranks.of(ip).rank)), mk("nullptr"))], e, st, fr)
            if st.dead or not goes_on(ip, st, r) or p not in forest.refined or (a == b != ranks.of(ip).rank):
                return
            for k in range(4):
                go(p + str(k))
        go("0")
        return "r", flow.UNIT
    return h


def ifthen(ip, st, c, f):
    """run f under a condition"""
    if c is TRUE:
        return f(st)
    if c is FALSE:
        return
    a, b = st.copy(), st.copy()
    a.pc += (c,)
    b.pc += (T.lnot(c),)
    f(a)
    m = ip.merge([a, b])
    if m is None:
        st.dead = True
        return
    if a.dead or b.dead:
        m.evs = ip.join_events(a, b)
    st.become(m)


def h_reorder():
    """p4est_search_reorder: the local part of the forest, ancestors before (pre) and after (post) their descendants"""
    def h(ip, st, fr, e, args, this):
        v = [ip.ev(a, st, fr) for a in args]
        forest = forest_at(ip, v[0])
        r = ranks.of(ip).rank
        pre, post = v[3], v[4]
        null = lambda f: f.op == "nullptr" or cint(f) == 0
        if not (v[2].op == "nullptr" or cint(v[2]) == 0):
            ip.taint(st, "an explicit order of children %s" % (v[2],))

        def call(f, p, st):
            return ip.call_value(f, [("r", x) for x in (v[0], ZERO, quad(ip, p), num(forest.local_num(p, r)), mk("nullptr"))], e, st, fr)[1]

        def go(p, st):
            if st.dead or not forest.local(p, r):
                return
            c = TRUE
            if not null(pre):
                x = call(pre, p, st)
                if st.dead:
                    return
                c = ip.known(st, T.tobool(x))

            def rest(st):
                if p in forest.refined:
                    for k in range(4):
                        go(p + str(k), st)
                if not null(post) and not st.dead:
                    call(post, p, st)
            ifthen(ip, st, c, rest)
        start = "0"
        if cint(v[1]) != 0:
            # levels above the smallest quadrant that contains all local leaves are left out
            mine = [p for p in forest.leaves if forest.owner[p] == r]
            while mine and start in forest.refined and any(all(p.startswith(start + str(k)) for p in mine) for k in range(4)):
                start = [start + str(k) for k in range(4) if mine[0].startswith(start + str(k))][0]
        go(start, st)
        return "r", flow.UNIT
    return h


# ---------------------------------------------------------------- what a traversal owes
def value(p):
    return T.declare_int(mk("app", "leafvalue", T.string(p))) or mk("app", "leafvalue", T.string(p))


def merged(forest, p):
    if p not in forest.refined:
        return value(p)
    return mk("app", "combined", T.string(p), *[merged(forest, p + str(k)) for k in range(4)])


def handed(root, p):
    return root if p == "0" else mk("app", "handed", T.string(p[:-1]), handed(root, p[:-1]), num(int(p[-1])))


def ev(ip, st, e, name, *a):
    ip.event(st, "call", name, a, e["l"])


def h_expect(forests):
    """the reference: what every rank's callbacks are given, in order"""
    def h(ip, st, fr, e, args, this):
        v = [ip.ev(a, st, fr) for a in args]
        for forest in forests():
            expect(ip, st, e, forest, v[0].a[0], v[1])
        return "r", flow.UNIT
    return h


def expect(ip, st, e, forest, what, root):
    s = T.string
    ev(ip, st, e, "ef_forest", s(str(forest.counts)))
    for r in range(forest.n):
        ev(ip, st, e, "ef_on_rank", num(r))

        def go(p, pre, post, st):
            if not forest.local(p, r):
                return
            c = pre(p, st) if pre else TRUE

            def rest(st):
                for k in range(4):
                    if p in forest.refined:
                        go(p + str(k), pre, post, st)
                if post:
                    post(p, st)
            ifthen(ip, st, TRUE if c is None or p not in forest.refined and not post else c, rest)

        def node(p, st):
            ev(ip, st, e, "ef_node", s(p), num(len(p) - 1), TRUE if p not in forest.refined else FALSE)

        def data(p, st):
            ev(ip, st, e, "ef_data", handed(root, p))

        def stop(p, st):
            node(p, st)
            return ip.known(st, T.tobool(mk("app", "goon", s(p))))

        def merge(p, st):
            if p not in forest.refined:
                ev(ip, st, e, "ef_leaf", s(p))
            else:
                ev(ip, st, e, "ef_family", s(p), *[x for k in range(4) for x in (s(p + str(k)), merged(forest, p + str(k)))])

        def split(top):
            def f(p, st):
                if p not in forest.refined:
                    ev(ip, st, e, "ef_leaf", s(p))
                    ev(ip, st, e, "ef_data", handed(top, p))
                else:
                    ev(ip, st, e, "ef_family", s(p), *[x for k in range(4) for x in (s(p + str(k)), handed(top, p))])
            return f

        def splitstop(p, st):
            split(root)(p, st)
            return ip.known(st, T.tobool(mk("app", "goon", s(p))))

        def nodes(st):
            def go(p):
                a, b = forest.span(p)
                own = a <= r <= b
                ev(ip, st, e, "ef_slot", s(p), TRUE if own else FALSE, *([num(len(p) - 1), num(a), num(b), TRUE if forest.local_num(p, r) >= 0 else FALSE] if own else [ZERO, ZERO, ZERO, FALSE]))
                if p in forest.refined and not (a == b != r):
                    for k in range(4):
                        go(p + str(k))
            go("0")
            ev(ip, st, e, "ef_data", num(len([p for p in forest.entered(r)])))
        f = {"nodes": nodes, "pre": lambda st: go("0", node, None, st), "post": lambda st: go("0", None, node, st), "stop": lambda st: go("0", stop, None, st),
             "predata": lambda st: go("0", data, None, st), "postdata": lambda st: go("0", None, data, st),
             "merge": lambda st: go("0", None, merge, st), "splitstop": lambda st: go("0", splitstop, None, st), "split": lambda st: go("0", split(root), None, st), "split-merged": lambda st: go("0", split(merged(forest, "0")), None, st)}
        for w in what.split():
            if w == "root":
                if r in forest.owner.values():
                    ev(ip, st, e, "ef_data", merged(forest, "0"))
            else:
                f[w](st)


def h_everywhere(forests):
    def h(ip, st, fr, e, args, this):
        f = ip.ev(args[0], st, fr)
        for ip.forest in forests():
            ev(ip, st, e, "ef_forest", T.string(str(ip.forest.counts)))
            ranks.everywhere(ip, st, f, e, fr, ip.forest.n)
            if st.dead:
                break
        return "r", flow.UNIT
    return h


def app(name):
    def h(ip, st, fr, e, args, this):
        t = mk("app", name, *[a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args])
        T.declare_int(t)
        return "r", t
    return h


def logged(name):
    def h(ip, st, fr, e, args, this):
        ev(ip, st, e, name, *[ip.ev(a, st, fr) for a in args])
        return "r", flow.UNIT
    return h


def models(forests):
    m = dict(common.MODELS)
    m.update(ranks.MODELS)
    m.update({"p4est_quadrant_ancestor_id": h_ancestor, "p4est_quadrant_child_id": h_ancestor, "p4est_search_all": h_search_all(), "p4est_search_reorder": h_reorder(),
              "ef_everywhere": h_everywhere(forests), "ef_expect": h_expect(forests), "ef_leafvalue": app("leafvalue"), "ef_combined": app("combined"), "ef_handed": app("handed"), "ef_goon": app("goon"),
              "ef_ranks": lambda ip, st, fr, e, args, this: ("r", num(ip.forest.n)),
              "ef_local_quadrants": lambda ip, st, fr, e, args, this: ("r", num(ip.forest.counts[ranks.of(ip).rank])),
              "ef_global_quadrants": lambda ip, st, fr, e, args, this: ("r", num(len(ip.forest.leaves))),
              "ef_entered": lambda ip, st, fr, e, args, this: ("r", num(len(ip.forest.entered(ranks.of(ip).rank)))),
              "ef_path": lambda ip, st, fr, e, args, this: ("r", T.string(ip.forest.entered(ranks.of(ip).rank)[cint(ip.ev(args[0], st, fr))])),
              "ef_mine": lambda ip, st, fr, e, args, this: ("r", TRUE if ranks.of(ip).rank in ip.forest.owner.values() else FALSE)})
    for n in ("ef_leaf", "ef_family", "ef_node", "ef_data", "ef_slot"):
        m[n] = logged(n)
    return m


def ob(name, about, code, forests, **k):
    k.setdefault("trials", 0.3)
    k.setdefault("obs", ["ret"])
    if isinstance(forests, Forest):
        forests = (lambda f: lambda: [f])(forests)
    OBS.append(Ob(name, "efs::tree::t_" + code, "tree::r_" + k.pop("ref", code), None, cat=k.pop("cat", "C07"), models=models(forests), about=E + "Quadtree<int>::" + about, setup=adt.setup,
                  keep=k.pop("keep", lambda e: e.name.startswith("ef_") and e.name != "ef_stuck"), **k))


def with_other(refined, other):
    f = Forest(refined)
    f.other = Forest(other)
    return f


SHAPES = {"one leaf": [], "one level": ["0"], "two levels": ["0", "01"], "three levels": ["0", "02", "023", "00"]}
TRAVERSALS = (("pre-order", "traversePreOrder", "pre"), ("post-order", "traversePostOrder", "post"), ("pre-order over data", "traversePreOrder", "predata"), ("post-order over data", "traversePostOrder", "postdata"),
              ("merge", "merge", "merge"), ("split", "split", "split"))
for s, f in SHAPES.items():
    for n, m, c in TRAVERSALS:
        ob(n + ", " + s, m, c, Forest(f))
ob("pre-order stops where the callback says so", "traversePreOrder", "stop", Forest(["0", "01"]))
ob("merge, then split", "split", "mergesplit", Forest(["0", "01"]))
ob("split stops where the family's callback says so", "split", "splitstop", Forest(["0", "01"]))
ob("what merge callbacks answer changes nothing", "merge", "mergestop", Forest(["0", "01"]), ref="merge")
ob("one traversal after another", "traversePostOrder", "several", Forest(["0", "01"]))
ob("two trees over one forest", "merge", "two", Forest(["0", "01"]))
ob("a tree that was moved", "operator=", "moved", Forest(["0", "01"]))
ob("a tree that replaces one over another forest", "operator=", "replaced", with_other(["0", "01"], ["0", "02", "03"]))
ob("a tree that replaces one over a smaller forest", "operator=", "replaced", with_other(["0", "01"], []))
ob("a forest with a pointer of its user", "traversePostOrder", "pointer", Forest(["0", "01"]))


# ---------------------------------------------------------------- several ranks
def compositions(n, k, least=1):
    """all ways to give k ranks consecutive shares of n leaves"""
    if k == 1:
        if n >= least:
            yield [n]
        return
    for a in range(least, n + 1):
        for r in compositions(n - a, k - 1, least):
            yield [a] + r


def partitions(refined, k, quick=None, least=1):
    def f():
        n = len(Forest(refined).leaves)
        every = [Forest(refined, c) for c in compositions(n, k, least) if least or 0 in c]
        if front.TIER == "quick" and quick is not None and len(every) > quick:
            # spread over all of them
            every = [every[i * len(every) // quick] for i in range(quick)]
        return every
    return f


def stuck(e):
    return e.name == "ef_stuck"


CASES = [(s, k, 9, 1) for s, ks in (("one level", (2, 3, 4)), ("two levels", (2, 3, 5)), ("three levels", (2, 3, 4))) for k in ks]
for n, m, c in TRAVERSALS + (("merge, then split", "split", "mergesplit"), ("nodes of a tree", "(ctor)", "nodes"), ("a tree that was moved", "operator=", "moved")):
    for s, k, q, least in CASES:
        ob("%s on %d ranks, %s" % (n, k, s), m, c, partitions(SHAPES[s], k, q, least), cat="C22")
    ob("%s with idle ranks" % n, m, c, partitions(SHAPES["one level"], 6, 12, 0), cat="C22")
    ob("%s with idle ranks, two levels" % n, m, c, partitions(SHAPES["two levels"], 4, 8, 0), cat="C22")
for n, m, c in (("construction", "(ctor)", "nodes"), ("pre-order", "traversePreOrder", "pre"), ("post-order", "traversePostOrder", "post"), ("merge", "merge", "merge"), ("split", "split", "split"), ("merge, then split", "split", "mergesplit")):
    for s, k, q, least in CASES:
        ob("%s on %d ranks, %s" % (n, k, s), m, c, partitions(SHAPES[s], k, q, least), cat="C23", keep=stuck)
    ob("%s with idle ranks" % n, m, c, partitions(SHAPES["one level"], 6, 12, 0), cat="C23", keep=stuck)
