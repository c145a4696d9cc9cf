"""Shared models: the application singleton, logging, the stages' traversals and the leaf solver as named operations."""
from . import terms as T
from . import evalr
from .terms import mk, string, lst, mul, num, fld
from .flow import UNIT, base_type

E = "EllipticForest::"
FV = E + "FiniteVolumePatch"


def instance(ip, st, fr, e, args, this):
    root = ("g", "app")
    if root not in ip.rootinit:
        ip.rootinit[root] = ip.make_sym(E + "EllipticForestApp", "app")
        ip.roottype[root] = E + "EllipticForestApp"
    return "l", mk("ptr", root, ())


def nothing(ip, st, fr, e, args, this):
    for a in args:
        if not isinstance(a, tuple):
            ip.ex(a, st, fr)
    return "r", UNIT


def skip(ip, st, fr, e, args, this):
    return "r", UNIT


MODELS = {E + "GenericSingleton::getInstance": instance, E + "EllipticForestApp::log": skip, E + "EllipticForestApp::logHead": skip}

# ---------------------------------------------------------------- traversals
# A traversal is represented by one leaf and one family, visited in the order its name promises (C07 decides that the
# traversals themselves do this); the callbacks run on nodes that stand for any leaf and any family.
NODES = {"c0": 0, "c1": 1, "c2": 2, "c3": 3, "parent": 4, "leaf": 5}


def node(ip, name):
    root = ("g", "node " + name)
    if root not in ip.rootinit:
        t = E + "Node<%s>" % FV
        ip.rootinit[root] = ip.make_sym(t, name)
        ip.roottype[root] = t
    return mk("ptr", root, ())


def rootpatch(ip):
    root = ("g", "root patch")
    if root not in ip.rootinit:
        ip.rootinit[root] = ip.make_sym(FV, "root")
        ip.roottype[root] = FV
    return mk("ptr", root, ())


def h_root(ip, st, fr, e, args, this):
    return "l", rootpatch(ip)


def h_node(ip, st, fr, e, args, this):
    v = ip.ev(args[0], st, fr)
    return "r", node(ip, [k for k, x in NODES.items() if num(x) is v][0])


def traverse(name):
    def h(ip, st, fr, e, args, this):
        leaf, fam = ip.ev(args[0], st, fr), ip.ev(args[1], st, fr)
        kids = lst(*[node(ip, "c%d" % k) for k in range(4)])
        ip.event(st, "call", "traverse " + name, [ip.load(st, rootpatch(ip))], e["l"])

        def f():
            ip.call_value(fam, [("r", node(ip, "parent")), ("r", kids)], e, st, fr)

        def l():
            ip.call_value(leaf, [("r", node(ip, "leaf"))], e, st, fr)
        for x in ((l, f) if name == "merge" else (f, l)):
            if not st.dead:
                x()
        return "r", UNIT
    return h


def step(name):
    """a per-node step of the method: which patches it was given"""
    def h(ip, st, fr, e, args, this):
        ids = []
        for a in args:
            p = a[1] if isinstance(a, tuple) else ip.lv(a, st, fr)
            p = ip.deref(p)
            ids.append(string(p.a[0][1] + "".join("." + str(x[1]) for x in p.a[1])) if p.op == "ptr" and p.a[0][0] == "g" else p)
        ip.event(st, "call", name, ids, e["l"])
        return "r", UNIT
    return h


H = E + "HPSAlgorithm"
STAGES = dict(MODELS)
for q in (E + "Quadtree<%s>" % FV,):
    STAGES[q + "::merge"] = traverse("merge")
    STAGES[q + "::split"] = traverse("split")
    STAGES[q + "::root"] = h_root
STAGES["efs::ef_node"] = h_node
STEPS = {}
for n in ("merge4to1", "upwards4to1", "split1to4", "leafSolve"):
    STEPS[H + "::" + n] = step(n)


# ---------------------------------------------------------------- the leaf solver as three operations
def gridof(ip, st, fr, a):
    """what the operation may depend on: the grid's own accessors, whatever it stores"""
    v = ip.load(st, a[1] if isinstance(a, tuple) else ip.lv(a, st, fr))
    return v


def h_solver(name):
    def h(ip, st, fr, e, args, this):
        g = gridof(ip, st, fr, args[0])
        rest = [ip.load(st, ip.lv(a, st, fr)) for a in args[1:]]
        t = mk("app", name, g, *rest)
        if name == "D2N":
            return "r", t
        from . import adt
        T.set_len(t, adt.cint(0)) if False else None
        return "r", t
    return h


SOLVER = {}
for n, o in (("buildD2N", "D2N"), ("particularNeumannData", "PND"), ("solve", "LEAF")):
    SOLVER[E + "FiniteVolumeSolver::" + n] = h_solver(o)


def gdim(ctx, g, name="nx_"):
    return int(ctx.num(ctx.fld(g, name), True))


def hv(ctx, *k):
    return evalr.hnum(ctx.seed, k, 2, 97)


def o_d2n(ctx, a, env):
    from .adt import MV
    g = ctx.ev(a[0], env)
    k = ctx.freeze(g)
    n = 4 * dims(k)[0]
    return MV(n, n, [hv(ctx, "D2N", k, i) for i in range(n * n)])


def dims(frozen):
    """a size for the uninterpreted result: any deterministic function of the grid"""
    return (1 + evalr.hnum(0, repr(frozen), 0, 1),)


def o_vec(name):
    def h(ctx, a, env):
        k = tuple(ctx.freeze(ctx.ev(x, env)) for x in a)
        n = 4 * dims(k[0])[0]
        return [hv(ctx, name, k, i) for i in range(n)]
    return h


OPS = {"D2N": o_d2n, "PND": o_vec("PND"), "LEAF": o_vec("LEAF")}
