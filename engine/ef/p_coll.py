"""C06: collective operations are entered by every rank of their communicator."""
import copy
from .oblig import Ob
from . import adt, common, flow, front, p_leaf, p_mesh, p_tree, p_vtk, petsc, ranks, terms as T
from .p_tree import Forest, SHAPES, partitions, stuck
from .terms import mk, num, cint, ZERO, ONE, TRUE, FALSE

E = "EllipticForest::"
OBS = []
H = E + "HPSAlgorithm<EllipticForest::FiniteVolumeGrid, EllipticForest::FiniteVolumeSolver, EllipticForest::FiniteVolumePatch, double>::"


def ob(name, about, code, ref, models, **k):
    k.setdefault("trials", 0.3)
    OBS.append(Ob(name, "efs::coll::t_" + code, "coll::r_" + ref, None, cat="C06", models=models, about=about, setup=adt.setup, obs=["ret"], keep=stuck, **k))


def h_bcast(ip, st, fr, e, args, this):
    """the broadcast of an array as one operation (C16 decides what it is made of)"""
    if flow.base_type(e["pt"][0]) not in (E + "Vector<double>", E + "Matrix<double>"):
        return NotImplemented
    v = [a if isinstance(a, tuple) else ip.ex(a, st, fr) for a in args]
    loc = v[0][1] if v[0][0] == "l" else None
    root, comm = [ip.load(st, x) if k == "l" else x for k, x in v[1:3]]
    m = ranks.members(ip, comm) or []
    r = cint(root)
    if loc is None or r is None:
        return "r", ip.unk("broadcast of an array from an unknown root")
    d = ranks.enter(ip, e["q"], comm, root, ip.load(st, loc))
    if not 0 <= r < len(m):
        ranks.fault(ip, "a root outside the communicator")
        return "r", ZERO
    if m[r] != ranks.of(ip).rank and m[r] in d:
        ip.store(st, loc, d[m[r]])
    return "r", ONE


def h_solve(ip, st, fr, e, args, this):
    """the dense solver works alone; its numbers are not read"""
    v = [a if isinstance(a, tuple) else ip.ex(a, st, fr) for a in args]
    return "r", ip.load(st, v[1][1]) if v[1][0] == "l" else v[1][1]


ARRAYS = {E + "MPI::broadcast": h_bcast, E + "solve": h_solve}


def hps(name, about, code, forests, ref="none", **k):
    ob(name, H + about, code, ref, dict(p_tree.models(forests), **ARRAYS), **k)


for s, k, q in (("one level", 2, 3), ("two levels", 3, 3)):
    for n, a, c, r in (("build stage", "buildStage", "build", "none"), ("build stage with a cache", "buildStage", "build_cached", "none"), ("homogeneous solve stage", "solveStage", "solve_homogeneous", "none"), ("upwards stage", "upwardsStage", "upwards", "none"), ("upwards stage of a function", "upwardsStage", "upwards_fn", "fn"), ("solve stage", "solveStage", "solve", "none"), ("solve stage of a function", "solveStage", "solve_fn", "none"), ("all stages", "solveStage", "all", "none")):
        if c == "all":
            if k > 2:
                continue
            q = 1
        hps("%s on %d ranks, %s" % (n, k, s), a, c, partitions(SHAPES[s], k, q), r)
for n, a, c, r in (("build stage", "buildStage", "build", "none"), ("build stage with a cache", "buildStage", "build_cached", "none"), ("upwards stage", "upwardsStage", "upwards", "none"), ("upwards stage of a function", "upwardsStage", "upwards_fn", "fn")):
    hps("%s with idle ranks" % n, a, c, partitions(SHAPES["one level"], 6, 3, 0), r)


# ---------------------------------------------------------------- the library's collective operations
TOGETHER = {"MatSetUp", "MatAssemblyBegin", "MatAssemblyEnd", "VecAssemblyBegin", "VecAssemblyEnd", "MatDestroy", "VecDestroy", "ISDestroy", "VecDuplicate", "MatDuplicate", "MatCreateSubMatrix", "MatLUFactor", "MatSolve"}


def lib(name, base):
    """creation, and operations on objects that are spread over several ranks: every rank of the communicator takes part"""
    def h(ip, st, fr, e, args, this):
        v = ranks.args_(ip, st, fr, args)
        comm = v[0] if "ompi_communicator" in (e["pt"] or [""])[0] else None
        if comm is None and name in TOGETHER:
            o = v[0]
            if "Destroy" in name and o.op == "ptr" and not petsc.isobj(o):
                o = ip.load(st, ip.deref(o))
            comm = petsc.f(ip, st, o, "comm") if petsc.isobj(o) else None
        r = base(ip, st, fr, e, [("r", x) for x in v], this)
        if comm is not None:
            ranks.under(ip, st)
            if ranks.members(ip, comm) is not None:
                ranks.enter(ip, name, comm, None, None)
        return r
    return h


LIB = {n: lib(n, h) for n, h in dict(petsc.MODELS, **{n: h for n, h in petsc.CONTRACT.items() if not n.startswith("MPI_")}).items() if not n.startswith("ef_")}
ONE_BY_ONE = dict(p_leaf.LIB)
ONE_BY_ONE.update(LIB)


def on_ranks(name, about, code, n, base=None, **k):
    f = Forest(["0"], [1] * (n - 1) + [5 - n])
    m = dict(base or {})
    m.update(p_tree.models(lambda: [f]))
    m.update({x: h for x, h in (base or {}).items() if x not in ranks.MODELS})
    ob("%s, %d ranks" % (name, n), E + about, code, "nothing", m, **k)


for n in (2, 3):
    for what, q, c in (("leaf solves", "solve", "leaf_solve"), ("leaf solves with constant coefficients", "solve", "leaf_fish"), ("leaf maps", "mapD2N", "leaf_map"), ("leaf data", "particularNeumannData", "leaf_particular"), ("leaf operators", "buildD2N", "leaf_operator")):
        on_ranks(what, "FiniteVolumeSolver::" + q, c, n, ONE_BY_ONE)
    on_ranks("children and parents", "FiniteVolumeNodeFactory::createChildNode", "nodes", n)
    on_ranks("vectors and matrices", "Vector<double>::(ctor)", "objects", n)
    on_ranks("logs and timers", "EllipticForestApp::log", "app", n)
    for what, q, c in (("values", "MPI::broadcast", "cast_values"), ("texts", "MPI::broadcast", "cast_texts"), ("sequences", "MPI::broadcast", "cast_sequences"), ("vectors", "MPI::broadcast", "cast_vectors"), ("matrices", "MPI::broadcast", "cast_matrices"),
                       ("grids", "MPI::broadcast", "cast_grids"), ("patches", "MPI::broadcast", "cast_patches"), ("nodes", "MPI::broadcast", "cast_nodes")):
        on_ranks("broadcasts of " + what, q, c, n)
    on_ranks("reductions", "MPI::allreduce", "reductions", n)
    on_ranks("messages", "MPI::send", "messages", n)
    on_ranks("communicators of ranges of ranks", "MPI::communicatorSubsetRange", "subsets", n)
    for what, q in (("vectors", "ParallelVector<double>"), ("matrices", "ParallelMatrix<double>"), ("identities", "ParallelIdentityMatrix<double>")):
        on_ranks("distributed " + what, q + "::(ctor)", "parallel_" + what, n, dict(petsc.CONTRACT, **LIB))


# ---------------------------------------------------------------- operations on a mesh
def forest_op(base):
    def h(ip, st, fr, e, args, this):
        v = ranks.args_(ip, st, fr, args)
        ranks.enter(ip, e["q"], v[0] if e["q"] == "p4est_new_ext" else ranks.WORLD, None, None)
        return base(ip, st, fr, e, [("r", x) for x in v], this)
    return h


def mesh(name, about, code, ref, forest, files=False):
    m = p_vtk.mesh_models(forest) if files else p_mesh.models(forest, 1, 2)
    for n in ("p4est_new_ext", "p4est_refine", "p4est_refine_ext", "p4est_balance", "p4est_partition"):
        m[n] = forest_op(m[n])
    OBS.append(Ob(name, "efs::mesh::t_" + code, "coll::r_" + ref, None, cat="C06", models=m, about=E + "Mesh<efs::mesh::Patch>::" + about, setup=p_vtk.mesh_setup if files else adt.setup, obs=["ret"], trials=0.3, keep=stuck))


for what, f, c in (("one level on 2 ranks", ["0"], [1, 3]), ("two levels on 3 ranks", ["0", "01"], [2, 3, 2]), ("one level with an idle rank", ["0"], [4, 0])):
    for n, about, code, ref in (("refinement of a mesh", "refineByFunction", "whole", "refine"), ("arrays of a mesh", "setMeshFromQuadtree", "arrays", "none"), ("arrays built twice", "setMeshFromQuadtree", "again", "none"), ("patches of a mesh", "iteratePatches", "patches", "none"), ("cells of a mesh", "iterateCells", "cells", "none"), ("functions of a mesh", "addMeshFunction", "function", "function")):
        mesh("%s, %s" % (n, what), about, code, ref, Forest(f, c))
    mesh("files of a mesh, " + what, "toVTK", "files", "files", Forest(f, c), True)


# ---------------------------------------------------------------- trees and their traversals
def again(o):
    c = copy.copy(o)
    c.cat, c.name = "C06", "tree: " + o.name
    return c


OBS += [again(o) for o in p_tree.OBS if o.cat == "C23" and o.name.split()[0].strip(",") in ("construction", "merge", "split", "pre-order", "post-order") and ("on 3 ranks, " in o.name or "idle" in o.name)]
