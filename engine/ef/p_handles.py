"""C15: every handle of the parallel libraries is given back exactly once, by its owner."""
import re
from .oblig import Ob
from .evalr import hnum
from . import adt, common, petsc, p_leaf, terms as T

E = "EllipticForest::"
OBS = []
MODELS = dict(adt.MODELS, **common.MODELS)
MODELS.update(petsc.MODELS)
MODELS.update(petsc.CONTRACT)
LEAF = dict(p_leaf.LIB)
OPS = dict(p_leaf.OPS)


def assign(seed):
    d = {"n": hnum(seed, "n", 1, 4), "N": hnum(seed, "N", 1, 4), "a": hnum(seed, "a", 0, 3), "b": hnum(seed, "b", 0, 4), "p": hnum(seed, "p", 0, 3), "q": hnum(seed, "q", 0, 3),
         "len(v)": hnum(seed, "lv", 1, 4), "app(MPI_Comm_rank,super)": hnum(seed, "me", 0, 4), "app(MPI_Comm_rank,c)": hnum(seed, "me", 0, 4)}
    return lambda p: d.get(p)


def ob(name, about, code, spec, models=MODELS, **k):
    k.setdefault("assign", assign)
    k.setdefault("setup", adt.setup)
    OBS.append(Ob(name, "efs::handles::" + code, "handles::" + spec, None, cat="C15", models=models, about=about, ops=OPS, keep=lambda e: False, **k))


PV, PM, PI = E + "ParallelVector<double>", E + "ParallelMatrix<double>", E + "ParallelIdentityMatrix<double>"
for c, p, names in (("ParallelVector", "pv", "default sizes type serial serial_type use create_twice copy copy_outlives copy_empty assign self move assign_twice"),
                    ("ParallelMatrix", "pm", "default sizes type serial serial_type take use create_twice copy copy_outlives assign assign_empty assign_into_empty self move assign_twice other_comm sub"),
                    ("ParallelIdentityMatrix", "pi", "world comm type copy")):
    for n in names.split():
        ob("%s %s" % (c, n.replace("_", " ")), E + c + "<double>::(ctor)", "t_%s_%s" % (p, n), "r_%s_%s" % (p, n))
ob("patch", E + "FiniteVolumePatch::(ctor)", "t_patch", "r_patch")
ob("communicator of a range of ranks", E + "MPI::communicatorSubsetRange", "t_subset", "r_subset")
ob("communicator names", E + "MPI::communicatorGetName", "t_names", "r_names")
for n in "plain", "copy", "assign", "self", "subset":
    ob("node " + n, E + "Node<EllipticForest::Vector<double>>::(ctor)", "t_node_" + n, "r_node_" + n)
ob("node with a communicator", E + "Node<EllipticForest::Vector<double>>::(ctor)", "t_node", "r_node")
ob("leaf solve", E + "FiniteVolumeSolver::solve", "t_solve", "r_solve", LEAF, assign=p_leaf.assign)
ob("leaf solve of any kind", E + "FiniteVolumeSolver::solve", "t_solve_any", "r_solve_any", LEAF, assign=lambda seed: (lambda d: lambda p: hnum(seed, "kind", 0, 1) if p == "s.solver_type" else d(p))(p_leaf.assign(seed)))
ABS = dict(LEAF)
ABS[E + "FiniteVolumeSolver::solve"] = p_leaf.h_solve
for n, q in (("map", "mapD2N"), ("part", "particularNeumannData"), ("op", "buildD2N")):
    ob(q, E + "FiniteVolumeSolver::" + q, "t_" + n, "r_" + n, ABS, assign=p_leaf.assign)
