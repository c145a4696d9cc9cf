"""C08: grids, node factory, paths, the square domain."""
from .oblig import Ob
from .evalr import hnum
from . import adt, common, flow, terms as T
from .terms import mk, fld, num

E = "EllipticForest::"
OBS = []


def pointee(ip, st, fr, a):
    return ip.load(st, ip.deref(ip.ev(a, st, fr)))


def h_ancestor(ip, st, fr, e, args, this):
    pointee(ip, st, fr, args[0])
    return "r", mk("app", "ancestor_id", ip.ev(args[1], st, fr))


def h_child_id(ip, st, fr, e, args, this):
    return "r", mk("app", "ancestor_id", fld(pointee(ip, st, fr, args[0]), "level"))


def h_conn(ip, st, fr, e, args, this):
    v = []
    for a in args:
        x = ip.ev(a, st, fr)
        if x.op == "ptr":
            # the array (or scalar) behind the pointer
            b = x
            if b.a[1] and b.a[1][-1][0] == "i":
                b = mk("ptr", b.a[0], b.a[1][:-1])
            x = ip.load(st, b)
        v.append(x)
    ip.event(st, "call", "p4est_connectivity_new_copy", v, e["l"])
    return "r", mk("app", "conn", *v)


def quad(ip, k):
    root = ("g", "quadrant %d" % k)
    if root not in ip.rootinit:
        ip.rootinit[root] = T.setf(ip.make_sym("p4est_quadrant", "q%d" % k), {"level": num(k)})
        ip.roottype[root] = "p4est_quadrant"
    return mk("ptr", root, ())


def qint(ip, name, k):
    return ip.make_sym("int", "%s%d" % (name, k))


def which(ip, st, fr, a):
    v = ip.ev(a, st, fr)
    return [k for k in range(3) if num(k) is v][0]


def h_quad(ip, st, fr, e, args, this):
    return "l", quad(ip, which(ip, st, fr, args[0]))


def h_qint(name):
    return lambda ip, st, fr, e, args, this: ("r", qint(ip, name, which(ip, st, fr, args[0])))


def h_search_all(ip, st, fr, e, args, this):
    forest, cb = ip.ev(args[0], st, fr), ip.ev(args[2], st, fr)
    for k in range(3):
        if not st.dead:
            ip.call_value(cb, [("r", x) for x in (forest, num(0), quad(ip, k), qint(ip, "pfirst", k), qint(ip, "plast", k), qint(ip, "local", k), mk("null"))], e, st, fr)
    return "r", flow.UNIT


def h_subset(ip, st, fr, e, args, this):
    v = [ip.ev(a, st, fr) for a in args]
    ip.store(st, ip.deref(v[4]), mk("app", "subset_comm", *v[:3]))
    return "r", flow.UNIT


def o_subset(ctx, a, env):
    return ("comm",) + tuple(ctx.freeze(ctx.ev(x, env)) for x in a)


MODELS = dict(adt.MODELS, **common.MODELS)
MODELS.update({"p4est_quadrant_ancestor_id": h_ancestor, "p4est_quadrant_child_id": h_child_id, "p4est_connectivity_new_copy": h_conn, "p4est_search_all": h_search_all, E + "MPI::communicatorSubsetRange": h_subset,
               "ef_quad": h_quad, "ef_pfirst": h_qint("pfirst"), "ef_plast": h_qint("plast"), "ef_local": h_qint("local")})


def o_anc(ctx, a, env):
    """the quadrants of one obligation are nested: an ancestor's index depends on the level only"""
    return hnum(ctx.seed, ("anc", ctx.freeze(ctx.ev(a[0], env))), 0, 3)


OPS = dict(adt.OPS, ancestor_id=o_anc, subset_comm=o_subset)


def ob(name, about, code, spec, params=None, **k):
    k.setdefault("trials", 0.6)
    OBS.append(Ob(name, "efs::" + code, spec, params, cat="C08", models=MODELS, ops=OPS, setup=adt.setup, about=about, **k))


def parent_assign(seed):
    nx, ny, lev = hnum(seed, "nx", 1, 3), hnum(seed, "ny", 1, 3), hnum(seed, "lev", 1, 4)
    xs = [hnum(seed, "x", -3, 3)]
    ys = [hnum(seed, "y", -3, 3)]
    for i in (1, 2):
        xs.append(xs[-1] + hnum(seed, ("dx", i), 1, 4))
        ys.append(ys[-1] + hnum(seed, ("dy", i), 1, 4))
    d = {}
    for i, k in enumerate("abcd"):
        d.update({k + ".nx": nx, k + ".ny": ny, k + ".level": lev, k + ".xl": xs[i % 2], k + ".xu": xs[i % 2 + 1], k + ".yl": ys[i // 2], k + ".yu": ys[i // 2 + 1], k + ".path": "0" + "21032"[:lev - 1] + str(i)})
    return lambda p: d.get(p)


G = E + "FiniteVolumeGrid::"
F = E + "FiniteVolumeNodeFactory::"
ob("grid is affine", G + "point", "t_grid", "r_grid", ranges=[(1, 6)])
ob("grid rejects other dimensions", G + "point", "t_dim", "r_dim", ranges=[(-1, 4), (0, 2)])
ob("grid copy", G + "(ctor)", "t_copy", "r_copy")
ob("root node", F + "createNode", "t_node", "r_node")
ob("child node", F + "createChildNode", "t_child", "r_child", ranges=[(0, 3), (1, 4)])
ob("parent node", F + "createParentNode", "t_parent", "r_parent", inputs="i_parent", assign=parent_assign)
ob("quadrant path", E + "p4est::p4est_quadrant_path", "t_path", "r_path", ranges=[(0, 4)])
ob("square domain", E + "p4est::p4est_connectivity_new_square_domain", "t_square", "r_square", keep=lambda e: e.name == "p4est_connectivity_new_copy")


def tree_assign(seed):
    d = {}
    lo, hi = 0, hnum(seed, "hi", 0, 3)
    for k in range(3):
        d["pfirst%d" % k], d["plast%d" % k] = lo, hi
        d["q%d.level" % k] = k
        d["local%d" % k] = -1 if k < 2 else hnum(seed, "leaf", -1, 1)
        a = lo + hnum(seed, ("lo", k), 0, hi - lo)
        lo, hi = a, a + hnum(seed, ("len", k), 0, hi - a)
    g = dict(nx=hnum(seed, "nx", 1, 3), ny=hnum(seed, "ny", 1, 3), xl=hnum(seed, "xl", -2, 2), yl=hnum(seed, "yl", -2, 2), dx=hnum(seed, "dx", 1, 3), dy=hnum(seed, "dy", 1, 3))
    d.update({"g.nx": g["nx"], "g.ny": g["ny"], "g.dx": g["dx"], "g.dy": g["dy"], "g.xl": g["xl"], "g.yl": g["yl"], "g.xu": g["xl"] + g["nx"] * g["dx"], "g.yu": g["yl"] + g["ny"] * g["dy"]})
    d["app(MPI_Comm_rank,::ompi_mpi_comm_world)"] = hnum(seed, "rank", 0, 3)
    return lambda p: d.get(p)


ob("tree construction", E + "Quadtree<%sFiniteVolumePatch>::(ctor)" % E, "t_tree", "r_tree", inputs="i_tree", assign=tree_assign)
