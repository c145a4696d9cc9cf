"""C19: refinement of a mesh by a criterion, the arrays of a mesh, and going over its patches and cells."""
from .oblig import Ob
from . import adt, common, flow, front, p_tree, ranks, terms as T
from .p_tree import Forest, quad, goes_on, ev
from .terms import mk, num, cint, sel, ZERO, ONE, TRUE, FALSE

E = "EllipticForest::"
P = "efs::mesh::"
OBS = []
OFFERED = ["0", "03", "021", "0130"]


def given(ip):
    """the forest p4est hands out"""
    root = ("g", "p4est forest %d" % ranks.of(ip).rank)
    if root not in ip.rootinit:
        ip.rootinit[root] = T.setf(ip.make_sym("p4est", "forest"), {"mpirank": num(ranks.of(ip).rank), "mpisize": num(ip.forest.n), "local_num_quadrants": num(len(local(ip))), "global_num_quadrants": num(len(ip.forest.leaves))})
        ip.roottype[root] = "p4est"
    return mk("ptr", root, ())


def vals(ip, st, fr, args):
    return [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]


def h_conn(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    from . import stdmodel as S
    loc, i = S.seq_at(v[3])
    if loc is None:
        return "r", ip.unk("vertices of a connectivity")
    root = ("g", "p4est connectivity")
    ip.rootinit[root] = T.setf(ip.make_sym("p4est_connectivity", "conn"), {})
    ip.roottype[root] = "p4est_connectivity"
    ip.vertices = ip.load(st, loc)
    tl, ti = S.seq_at(v[4])
    ip.corners = ip.load(st, tl) if tl is not None else None
    return "r", mk("ptr", root, ())


def h_vertex(ip, st, fr, e, args, this):
    """p4est_qcoord_to_vertex: bilinear in the vertices of the tree"""
    from . import stdmodel as S
    v = vals(ip, st, fr, args)
    x, y = v[2], v[3]
    one = num(1 << 30)
    loc, i = S.seq_at(v[4])
    if loc is None or getattr(ip, "vertices", None) is None or ip.corners is None:
        return "r", ip.unk("coordinates of a vertex")
    fx, fy = T.div(x, one), T.div(y, one)
    cur = ip.load(st, loc)
    for d in range(3):
        c = [sel(ip.vertices, T.add(T.mul(num(3), sel(ip.corners, num(k))), num(d))) for k in range(4)]
        wx, wy = [T.sub(ONE, fx), fx], [T.sub(ONE, fy), fy]
        t = ZERO
        for k in range(4):
            t = T.add(t, T.mul(T.mul(wx[k & 1], wy[k >> 1]), c[k]))
        cur = T.store(cur, T.add(i, num(d)), t)
    ip.store(st, loc, cur)
    return "r", flow.UNIT


def counted(ip, st, p, when):
    """how many quadrants this rank and all ranks have at a point: known when the forest is finished, else anything"""
    if p.op != "ptr":
        return
    for n, k, v in (("local_num_quadrants", (num(ranks.of(ip).rank),), len(local(ip))), ("global_num_quadrants", (), len(ip.forest.leaves))):
        t = num(v)
        if when is not None:
            t = mk("app", "quadrants " + when, T.string(n), *k)
            T.declare_int(t)
            T.declare_nonneg(t)
        ip.store(st, ip.extend(p, ("f", n)), t)


def h_new(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ev(ip, st, e, "ef_new", v[3], v[4])
    if p_tree.ranks.named(v[0]) != "ompi_mpi_comm_world" or cint(v[2]) != 0:
        return "r", ip.unk("a forest on another communicator or with a least number of quadrants")
    p = given(ip)
    counted(ip, st, p, "at first")
    return "r", p


def h_refine(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ev(ip, st, e, "ef_refine", v[1])
    if v[3].op != "nullptr" and cint(v[3]) != 0:
        ip.taint(st, "data of new quadrants")
    for k, p in enumerate(OFFERED):
        if st.dead:
            break
        r = ip.call_value(v[2], [("r", x) for x in (v[0], ZERO, quad(ip, p))], e, st, fr)[1]
        ev(ip, st, e, "ef_refined", num(k), T.tobool(r))
    counted(ip, st, v[0], "after refinement")
    return "r", flow.UNIT


def h_balance(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ev(ip, st, e, "ef_balance", ZERO if cint(v[1]) == 22 else num(1))     # across faces and corners
    counted(ip, st, v[0], "after balancing")
    return "r", flow.UNIT


def h_partition(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ev(ip, st, e, "ef_partition")
    counted(ip, st, v[0], None)
    return "r", flow.UNIT


def grid(name, integer):
    def h(ip, st, fr, e, args, this):
        p = vals(ip, st, fr, args)[0]
        t = mk("app", name, p)
        if integer:
            T.declare_int(t)
            T.declare_pos(t) if hasattr(T, "declare_pos") else None
        return "r", t
    return h


def sized(n):
    return lambda ip, st, fr, e, args, this: ("r", num(n))


def models(forest, nx, ny):
    m = p_tree.models(lambda: [forest])
    for n in ("ef_new", "ef_refine", "ef_balance", "ef_partition", "ef_refined", "ef_patch", "ef_cell", "ef_doubles", "ef_ints", "ef_count", "ef_texts", "ef_function"):
        m[n] = p_tree.logged(n)
    for n in ("ef_gxl", "ef_gxu", "ef_gyl", "ef_gyu"):
        m[n] = grid(n, False)
    m["ef_gnx"], m["ef_gny"] = sized(nx), sized(ny)
    m.update({"p4est_connectivity_new_copy": h_conn, "p4est_qcoord_to_vertex": h_vertex, "p4est_new_ext": h_new, "p4est_refine": h_refine, "p4est_refine_ext": h_refine, "p4est_balance": h_balance, "p4est_partition": h_partition,
              "ef_mesh_leaves": lambda ip, st, fr, e, args, this: ("r", num(len(local(ip)))),
              "ef_mesh_leaf": lambda ip, st, fr, e, args, this: ("r", T.string(local(ip)[cint(vals(ip, st, fr, args)[0])])),
              "ef_offered": sized(len(OFFERED)),
              "ef_offered_level": lambda ip, st, fr, e, args, this: ("r", num(len(OFFERED[cint(vals(ip, st, fr, args)[0])]) - 1)),
              "ef_offered_x": lambda ip, st, fr, e, args, this: ("r", num(at(OFFERED[cint(vals(ip, st, fr, args)[0])])[0])),
              "ef_offered_y": lambda ip, st, fr, e, args, this: ("r", num(at(OFFERED[cint(vals(ip, st, fr, args)[0])])[1]))})
    return m


def local(ip):
    f = ip.forest
    return [p for p in f.leaves if f.owner[p] == ranks.of(ip).rank]


def at(p):
    x = y = 0
    for c in p[1:]:
        x, y = 2 * x + (int(c) & 1), 2 * y + (int(c) >> 1)
    return x, y


def ob(name, about, code, ref, forest, nx, ny, **k):
    k.setdefault("trials", 0.3)
    OBS.append(Ob(name, P + "t_" + code, "mesh::r_" + ref, None, cat="C19", models=models(forest, nx, ny), about=E + "Mesh<efs::mesh::Patch>::" + about, setup=adt.setup, obs=["ret"],
                  keep=k.pop("keep", lambda e: e.name.startswith("ef_") and e.name != "ef_stuck"), **k))


R = ("ef_new", "ef_refine", "ef_refined", "ef_balance", "ef_partition")
for nx, ny in ((1, 1), (2, 2), (2, 3), (3, 1)):
    s = "%d by %d cells" % (nx, ny)
    ob("refinement criterion, " + s, "refineByFunction", "refine", "refine", Forest([]), nx, ny, keep=lambda e: e.name in R)
    for what, f in (("one leaf", []), ("one level", ["0"]), ("two levels", ["0", "01"])):
        if nx * ny > 2 and what == "two levels":
            continue
        w = s + ", " + what
        ob("arrays, " + w, "setMeshFromQuadtree", "arrays", "arrays", Forest(f), nx, ny)
        ob("arrays built twice, " + w, "setMeshFromQuadtree", "again", "arrays", Forest(f), nx, ny)
        ob("arrays after refinement, " + w, "refineByFunction", "whole", "whole", Forest(f), nx, ny, keep=lambda e: e.name.startswith("ef_") and e.name != "ef_stuck" and e.name not in R)
        ob("patches, " + w, "iteratePatches", "patches", "patches", Forest(f), nx, ny)
        ob("cells, " + w, "iterateCells", "cells", "cells", Forest(f), nx, ny)
        ob("functions, " + w, "addMeshFunction", "function", "function", Forest(f), nx, ny)
for what, f, c in (("one level on 2 ranks", ["0"], [1, 3]), ("two levels on 3 ranks", ["0", "01"], [2, 3, 2]), ("one level with an idle rank", ["0"], [4, 0])):
    for n, about, code, ref in (("arrays", "setMeshFromQuadtree", "arrays", "arrays"), ("arrays after refinement", "refineByFunction", "whole", "whole"), ("patches", "iteratePatches", "patches", "patches"), ("cells", "iterateCells", "cells", "cells"), ("functions", "addMeshFunction", "function", "function")):
        ob("%s, %s" % (n, what), about, code, ref, Forest(f, c), 1, 2, keep=lambda e: e.name.startswith("ef_") and e.name != "ef_stuck" and e.name not in R)
ob("refinement criterion of a mesh refined before", "refineByFunction", "refine_again", "refine_again", Forest([]), 2, 1, keep=lambda e: e.name in R)
ob("labels of the arrays", "setMeshFromQuadtree", "labels", "labels", Forest(["0"]), 1, 1)
