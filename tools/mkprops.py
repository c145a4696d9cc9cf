#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)


HPS = "src/HPSAlgorithm.hpp"
NOINST = "No existing test instantiates this template code; a test would sample a few trees and coefficient values, the claim is for every operator, size and tree."

p("C01", "Merging four siblings yields the exact operators of their union",
  "For any four sibling patches with Dirichlet-to-Neumann operators of one common size, the merged patch's solution operator is the one obtained by eliminating exactly the four interior interfaces through equality of Dirichlet data and continuity of the normal derivative across each interface. The merged patch's own Dirichlet-to-Neumann operator is the corresponding Schur complement, indexed by the union's boundary in west, east, south, north order with each side running in increasing coordinate. The merged grid covers the union's bounding box at the combined resolution.",
  ["inputs"], "every four children operators of any size, every patch size", NOINST,
  [HPS, "src/Matrix.hpp", "src/Vector.hpp"],
  [("4-to-1 merge", HPS + ":tagPatchesForCoarsening_..mergePatch_")],
  [("matrixX/H/S/T", "operators kept on a merged patch", "src/Patches/FiniteVolume/FiniteVolumePatch.hpp")],
  ["operators stored on the merged patch after the build stage"])
p("C02", "Upwards pass carries the exact particular data to every merged patch",
  "For any right-hand side, the interior particular data computed at a merge is the interface operator's inverse applied to the jump of the children's particular Neumann data across each of the four interfaces. The merged patch's particular Neumann data is the children's exterior data plus the merge operator applied to that interior data, in the same boundary order as the merged operator, and every leaf's particular data comes from its own right-hand side before any merge uses it.",
  ["inputs"], "every right-hand side, operator and size", NOINST, [HPS],
  [("upwards merge", HPS + ":upwards4to1"), ("leaf callback", HPS + ":upwardsStage")])
p("C03", "Splitting hands children boundary data that agrees across every interface",
  "For any boundary data on a merged patch, the two children sharing an interface receive identical data on it, equal to the solution operator applied to the boundary data plus the interior particular data of the upwards pass (omitted exactly when the problem is declared to have a homogeneous right-hand side). Every exterior side of a child receives the matching half of the parent's side, in west, east, south, north order with increasing coordinate.",
  ["inputs"], "every boundary data, solution operator and size", NOINST, [HPS],
  [("1-to-4 split", HPS + ":split1to4, applyS_")])
p("C04", "Neighbours of unequal resolution are reconciled the same way in every stage",
  "When sibling patches have different side sizes, each is coarsened by exactly the number of factor-two levels that brings it to the smallest sibling's size; its operator, its particular data and the boundary data handed back are transferred with the matching fine-to-coarse and coarse-to-fine operators for that same number of levels, level by level in opposite order on the way down.",
  ["inputs", "programs"], "every combination of sibling sizes related by powers of two", NOINST, [HPS, "src/SpecialMatrices.hpp"],
  [("coarsening tags and transfer", HPS + ":tagPatchesForCoarsening_, coarsen_, coarsenUpwards_, uncoarsen_"), ("transfer operators", "src/SpecialMatrices.hpp")],
  [("n_coarsens", "levels recorded on a patch at build", "src/Patch.hpp")])
p("C05", "Send, receive and broadcast agree on layout for every communicable type",
  "For every communicable type, the sequence of messages the receiver posts matches the sender's in count, element type, peer, tag and communicator, and each received field lands in the place the corresponding sent field was read from. A receiver resizes its storage to the communicated length before the data arrives, and in a broadcast every rank takes part in the same sequence with the same root while only non-root ranks change.",
  ["inputs", "configurations"], "every value of every communicable type, every peer, tag, root and communicator",
  "Tests run on one rank or a single fixed pair and never compare the layouts of both ends for arbitrary sizes.",
  ["src/MPI.hpp", "src/MPI.cpp", "src/Vector.hpp", "src/Matrix.hpp", "src/QuadNode.hpp", "src/Patches/FiniteVolume/FiniteVolumeGrid.cpp", "src/Patches/FiniteVolume/FiniteVolumePatch.cpp"],
  [("typed message wrappers", "src/MPI.hpp"), ("class specialisations", "src/Vector.hpp, src/Matrix.hpp, src/QuadNode.hpp, FiniteVolumeGrid/Patch.cpp")])
p("C06", "Collective operations are reached by every rank of their communicator",
  "No collective communication (barrier, broadcast, reduction, gather, communicator or distributed-object creation) is executed under a condition or trip count that may differ between the ranks of the communicator it runs on, and none is executed from purely rank-local work such as a leaf solve on a communicator larger than that work.",
  ["schedules", "configurations"], "every rank count and every partition of the tree",
  "Tests run on one rank, where a missing participant cannot deadlock.",
  ["src/Quadtree.hpp", HPS, "src/MPI.hpp", "src/Mesh.hpp", "src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"],
  [("call sites of collectives", "all of src/")])
p("C07", "Tree traversals visit each owned node once, children and parents in order",
  "A traversal invokes the caller's callbacks on the tree it was started on, in the direction its name promises: a merge visits a family's four children before its parent and a split visits the parent before its four children. Leaf and family callbacks receive only nodes this rank owns, with the family's children in lower-left, lower-right, upper-left, upper-right order, and a leaf never triggers a family callback.",
  ["inputs", "configurations", "histories"], "every tree shape, every partition and every sequence of traversals", NOINST,
  ["src/Quadtree.hpp"], [("traversal callbacks", "src/Quadtree.hpp"), ("user pointer hand-over", "src/Quadtree.hpp")])
p("C08", "Refinement tiles the domain: children are the four exact quarters of a parent",
  "Each child created from a parent covers exactly its quarter of the parent's rectangle (child index bit 0 selecting the upper half in x, bit 1 in y), keeps the parent's cell counts, is one level deeper, records the rank range it is given and carries the parent's path extended by its own index. A parent rebuilt from its children covers exactly their union, a tree built from a forest has one such node under each visited quadrant's path on the ranks that own it, and cell-centred points, spacings and bounds of every grid are the affine function of its rectangle and cell count.",
  ["inputs"], "every rectangle, resolution, depth and child index",
  "Tests check a handful of fixed grids; tiling must hold for every rectangle and depth.",
  ["src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp", "src/Patches/FiniteVolume/FiniteVolumeGrid.cpp", "src/P4est.cpp", "src/QuadNode.hpp", "src/Quadtree.hpp"],
  [("node factory", "src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp"), ("grid", "src/Patches/FiniteVolume/FiniteVolumeGrid.cpp"), ("path and ancestor maps", "src/P4est.cpp")])
p("C09", "Out-of-range and mismatched container accesses are rejected, never performed",
  "Every bounds-checked accessor of the vector and matrix types accepts exactly the indices, ranges and index sets that lie inside the container and throws for all others before touching storage. Every binary or block operation whose operands' sizes do not fit throws instead of reading or writing out of range.",
  ["inputs"], "every container size, index, range, index set and operand size",
  "Tests probe a few valid indices; rejecting exactly the invalid ones needs all of them.",
  ["src/Vector.hpp", "src/Matrix.hpp"], [("range checks", "src/Vector.hpp, src/Matrix.hpp")])
p("C10", "Vector and matrix operations compute their mathematical definitions",
  "For all sizes and values, element-wise arithmetic, scaling, concatenation, segment and block extraction and insertion, row and column access, index-set gathering, transposition, block permutation, identity, diagonal and block-diagonal construction and infinity/2-norm distances produce exactly the entry that the definition names at every position, leave their operands unchanged unless in place, and report the dimensions of the result.",
  ["inputs"], "every size, value, index set and block permutation",
  "Tests use fixed small operands (often symmetric or square) that cannot distinguish row from column or one permutation from its inverse.",
  ["src/Vector.hpp", "src/Matrix.hpp", "src/SpecialMatrices.hpp"], [("operations", "src/Vector.hpp, src/Matrix.hpp, src/SpecialMatrices.hpp")])
p("C11", "Dense products and solves hand LAPACK the operation they promise",
  "Matrix-vector and matrix-matrix products and linear solves pass the row-major storage to the column-major library routines with the transposition flags, dimensions and leading dimensions that make the result the mathematical product or solution for every shape, including non-square ones. Operands the caller still owns are not overwritten, results have the right shape, and a size mismatch is rejected before the call.",
  ["inputs"], "every operand shape and value",
  "Tests use a few small operands; wrong leading dimensions or flags agree on square or symmetric ones.",
  ["src/Matrix.hpp"], [("BLAS/LAPACK calls", "src/Matrix.hpp: operator*, solve")])
p("C12", "Leaf solver assembles the second-order finite-volume system for every grid",
  "For every grid of at least two cells per direction and all coefficient functions, the leaf system has for each cell the five-point flux balance of the variable-coefficient operator, with face coefficients evaluated at the face positions, interior couplings only between cells sharing a face, and Dirichlet faces eliminated with the half-cell distance, the matching boundary value entering the right-hand side of exactly the adjacent cell. The solution is returned in the same cell order as the right-hand side was given, and the inputs are left unchanged.",
  ["inputs"], "every grid size, rectangle, coefficient function, right-hand side and boundary data",
  "Tests fix one problem and tolerance; anisotropic grids and variable coefficients are not sampled.",
  ["src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"], [("assembly", "src/Patches/FiniteVolume/FiniteVolumeSolver.cpp:solve")])
p("C13", "Dirichlet-to-Neumann maps and particular fluxes are side-ordered and consistent",
  "The Dirichlet-to-Neumann map of a leaf returns, for every boundary datum, the normal derivative in the increasing coordinate direction (half-cell difference between the solved interior and that datum) on each side in west, east, south, north order, each side running in increasing coordinate, for patches of any shape. The assembled operator's columns are the map's responses to unit data in that same order. The particular Neumann data of a leaf is the map's response to zero boundary data and the given right-hand side.",
  ["inputs"], "every grid, coefficient function, boundary data and right-hand side",
  "Tests fix one grid and symmetric data.",
  ["src/Patches/FiniteVolume/FiniteVolumeSolver.cpp"], [("D2N map and assembly", "src/Patches/FiniteVolume/FiniteVolumeSolver.cpp:mapD2N, buildD2N, particularNeumannData")])
p("C14", "The root solve turns general boundary conditions into the right Dirichlet data",
  "Given functions a, b, r on the domain boundary, the boundary condition a u + b du/dn = r is evaluated for each side (west, east, south, north) at that side's cell-centred points, and the Dirichlet data used by the solve stage satisfies (a I + b T) g = r - b h with the root's operator T and particular data h. The solved data is in place on the root before any split starts.",
  ["inputs"], "every boundary functions, root operator, root grid", NOINST, [HPS], [("general boundary solve", HPS + ":solveStage")])
p("C15", "Native library handles have one owner and are released on every path",
  "Every handle obtained from the parallel linear-algebra library or the message-passing layer by a routine that must give it back is destroyed or returned exactly once on every path through that routine, not used after it is destroyed, and handed to the caller only where the interface says so. An object that wraps a handle never releases one it does not own.",
  ["programs", "histories"], "every path through every routine that acquires a handle",
  "Leaks and double destroys do not fail the tests, which run each path once.",
  ["src/Patches/FiniteVolume/FiniteVolumeSolver.cpp", "src/MPI.cpp", "src/Vector.hpp", "src/Matrix.hpp", "src/P4est.cpp"],
  [("acquire/release pairs", "all of src/")])
p("C16", "Options from code, command line and file keep their value and type",
  "A value given to the option store under a name, from code, a map, the command line or a file, is returned unchanged and with its type under exactly that name; a later setting replaces an earlier one and an option that was never given does not exist. Text values (-name=text, --name=text, name = text) become a boolean for true/false, an integer or a floating point number when the whole text is one in decimal notation (sign and exponent included), and the text itself otherwise; a flag without a value stores the empty text. From an INI file only key-value lines of the [EllipticForest] section count, split at the first equals sign; blanks around lines, keys and values are not part of them, and blank lines and lines starting with a semicolon are ignored.",
  ["inputs", "histories"], "every argument vector, file content and sequence of settings (numbers within the range of int and double)",
  "No test exercises the option store, the command line or the file reader.",
  ["src/Options.cpp", "src/Options.hpp", "src/InputParser.cpp", "src/EllipticForestApp.cpp"],
  [("typing of text", "src/Options.cpp:checkValue"), ("command line", "src/InputParser.cpp"), ("INI reader", "src/Options.cpp:setFromFile")])
p("C17", "VTK output is well formed and consistent with the data it is given",
  "Each file written is a properly nested document in which every opened element is closed once, attributes appear on the element they were given to, and array names, types, component counts, ranges and values are those of the array supplied, in order; numbers are written so that the same value is read back. Parallel index files name exactly one piece per rank, relative to the index, with the same arrays, and the written extent, points, cells, offsets and types describe the supplied mesh. Writing does not change what a later write of the same object gives. (Names and texts given are free of XML markup.)",
  ["inputs"], "every mesh, number of arrays, values and rank count",
  "Tests write one small file and do not read it back.",
  ["src/VTK.cpp", "src/VTK.hpp", "src/XMLTree.cpp", "src/XMLTree.hpp", "src/Mesh.hpp"],
  [("XML tree writer", "src/XMLTree.cpp"), ("VTK writers", "src/VTK.cpp")])
p("C18", "Application start/stop and timers balance in every order of use",
  "The application object initialises the libraries underneath only if nobody else has and finalises exactly what it initialised, once, and the instance handed out is never a destroyed one. A timer accumulates exactly the time between each start and the following stop across any number of cycles, and every stage of the solver stops each timer it starts on all paths.",
  ["histories"], "every order of construction, destruction, start, stop and restart",
  "Tests run each object through one cycle.",
  ["src/EllipticForestApp.cpp", "src/EllipticForestApp.hpp", "src/Timer.cpp", "src/Timer.hpp", HPS],
  [("application lifecycle", "src/EllipticForestApp.cpp"), ("timer", "src/Timer.cpp")])
p("C19", "Mesh refinement and output arrays follow the criterion and the tree exactly",
  "Refinement by criterion splits a cell exactly when it is below the minimum level, or is not yet at the maximum level and the user's criterion holds at one of its patch's cell centres. Assembled point, connectivity and cell arrays describe each local leaf cell once, in leaf order, with mutually consistent indices, and solution data is extracted in that same order.",
  ["inputs", "configurations"], "every criterion, level limits, tree and patch size", NOINST,
  ["src/Mesh.hpp"], [("refine callback and mesh arrays", "src/Mesh.hpp")])
p("C20", "Interpolation uses the bracketing interval for every query and history",
  "For any increasing or decreasing table and any query inside or outside it, the interval used brackets the query (or is the nearest end interval), independently of the queries made before. The interpolated value is the linear (bilinear, polynomial) interpolant of exactly the table entries of that interval.",
  ["inputs", "histories"], "every monotone table, query and sequence of queries",
  "Tests interpolate a few points in increasing order.",
  ["src/Interpolation.cpp", "src/Interpolation.hpp"], [("interval search", "src/Interpolation.cpp"), ("interpolants", "src/Interpolation.cpp")])
p("C21", "The discrete solution converges at second order under refinement",
  "For smooth data the error of the assembled solution decreases by a factor of four each time the mesh is uniformly refined, on uniform and on adaptively refined meshes.",
  ["inputs"], "every smooth problem and refinement sequence", "Tests fix one problem.", [HPS], [("whole solver", "src/")])
p("C22", "Traversals do not depend on the number of ranks or the partition",
  "Whatever the number of ranks and the partition of the leaves, a traversal gives the family and leaf callbacks the same nodes with the same data as on one rank, on every rank that owns part of them, so results that depend on nodes alone are the same on each leaf.",
  ["schedules", "configurations"], "every rank count, partition and message order", "Tests run on one rank.", ["src/Quadtree.hpp", HPS], [("owner exchange in merge and split", "src/Quadtree.hpp")])
p("C23", "Exchanges between ranks always match: no traversal can deadlock",
  "In construction and every traversal on any partition (ranks without leaves included), each collective operation is entered by all ranks of its communicator, in the same way and in a compatible order, and each message has its receiver: no rank waits forever.",
  ["schedules", "configurations"], "every partition and message order", "Tests run on one rank.", ["src/Quadtree.hpp"], [("owner exchange", "src/Quadtree.hpp")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
