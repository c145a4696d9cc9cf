"""Which obligations and rules decide which property."""
VF = "value-flow summaries (gated terms, loops in closed form) compared with a reference definition; random interpretation of the two terms only to refute"

PROPS = {
    "C09": dict(title="Out-of-range and mismatched container accesses are rejected, never performed",
                obligations=[("p_containers", lambda o: o.cat == "b")],
                technique="value-flow analysis: throw conditions and element reads/writes of every accessor against reference definitions",
                explanation="Each bounds-checked or size-checked operation of Vector and Matrix is summarised once from its AST (all sizes, all indices) and its throw condition and results are compared with a reference definition. "
                            "discharged: identical normal forms. unrefuted: forms differ textually, no interpretation of the inputs separates them. A violation is an interpretation under which one throws, or touches storage outside its data, and the other does not."),
    "C10": dict(title="Vector and matrix operations compute their mathematical definitions",
                obligations=[("p_containers", lambda o: True)],
                technique="value-flow analysis: summaries of every container operation against reference definitions",
                explanation="Every operation's result and the final state of its operands is summarised as a closed term over its inputs and compared with the reference definition of the operation."),
    "C01": dict(title="Merging four siblings yields the exact operators of their union",
                obligations=[("p_hps", lambda o: o.name in ("merge of equal siblings", "build stage"))],
                technique=VF,
                explanation="The merge of four siblings is summarised as one term per observed operator (X, S, T, H, grid) over the children's operators and compared with a block elimination written from the definition; containers are abstract values whose meaning C09-C11 decide."),
    "C02": dict(title="Upwards pass carries the exact particular data to every merged patch",
                obligations=[("p_hps", lambda o: o.name.startswith("upwards"))],
                technique=VF,
                explanation="The upwards step is summarised over the children's operators and particular data and compared with the elimination's particular solution; the stage's leaf callback (load data at cell centres, particular data from the leaf's own load) is compared with its definition."),
    "C03": dict(title="Splitting hands children boundary data that agrees across every interface",
                obligations=[("p_hps", lambda o: o.name in ("split into four siblings", "solve stage (patch)", "leaf solve"))],
                technique=VF,
                explanation="The split step's writes to the four children's boundary data are summarised over the parent's data, solution operator and particular data, and compared with the definition; the stage hands every family and leaf to it."),
    "C04": dict(title="Neighbours of unequal resolution are reconciled the same way in every stage",
                obligations=[("p_hps", lambda o: o.name in ("merge of unequal siblings", "upwards pass of four siblings", "split into four siblings"))],
                technique=VF,
                explanation="Merge, upwards and split are summarised with siblings of different sizes; the number, order and shape of the transfer operators applied to operators, particular data and boundary data are compared with the definition."),
    "C11": dict(title="Dense products and solves hand LAPACK the operation they promise",
                obligations=[("p_blas", lambda o: True)],
                technique="value-flow analysis: the library call's arguments and results (by the BLAS/LAPACK contract) against the mathematical operation",
                explanation="Matrix-vector, matrix-matrix and solve are summarised with the library routines replaced by their documented contract on the passed storage, transposition flags, dimensions and leading dimensions, and compared with the mathematical definition."),
    "C08": dict(title="Refinement tiles the domain: children are the four exact quarters of a parent",
                obligations=[("p_geom", lambda o: o.cat == "C08")],
                technique=VF,
                explanation="What a user reads off grids, created nodes, quadrant paths and a tree built from three nested quadrants is summarised over their inputs and compared with the definition; p4est's ancestor and search functions are abstract."),
    "C12": dict(title="Leaf solver assembles the second-order finite-volume system for every grid",
                obligations=[("p_leaf", lambda o: o.cat == "C12")],
                technique=VF + "; linear-algebra library calls by their contract",
                explanation="The leaf solve is summarised over any grid, coefficient functions and data, with the PETSc objects as abstract states (entries set, factored, live) and the constant-coefficient library routine by its contract, and the solution is compared with the one of the dense five-point system written from its definition. "
                            "A second obligation compares the objects left behind, the calls outside the library's contract and the objects created on a wider communicator with none."),
    "C13": dict(title="Dirichlet-to-Neumann maps and particular fluxes are side-ordered and consistent",
                obligations=[("p_leaf", lambda o: o.cat == "C13")],
                technique=VF + "; the leaf solve as an arbitrary linear operation",
                explanation="The boundary map, the assembled operator and the particular data are summarised with the leaf solve as an uninterpreted linear operation of boundary data and right-hand side, and compared with the half-cell differences of their definition; a fourth obligation composes the operator and the particular data as the merges use them."),
    "C14": dict(title="The root solve turns general boundary conditions into the right Dirichlet data",
                obligations=[("p_hps", lambda o: o.name.startswith("solve stage"))],
                technique=VF,
                explanation="The root system's matrix and right-hand side are summarised over the user's boundary function, the root grid, operator and particular data and compared with the definition; the state of the root at the moment the split traversal starts is part of the comparison."),
    "C18": dict(title="Application start/stop and timers balance in every order of use",
                obligations=[("p_life", lambda o: True)],
                technique="typestate (library start/stop contract as an abstract state machine) and value-flow summaries compared with reference definitions",
                explanation="The application object's constructors and destructor are summarised over the contract of MPI and PETSc (not started, running, finalised, who owns MPI) in every legal starting state and history; timers over an abstract clock; the stages' timer calls are ordered events on every path."),
    "C05": dict(title="Send, receive and broadcast agree on layout for every communicable type",
                obligations=[("p_comm", lambda o: True)],
                technique="value-flow analysis of both ends of every exchange over the contract of a first-in-first-out message channel",
                explanation="For every communicable type the sender's and then the receiver's code (root's and then another rank's) is summarised over one abstract channel; each receive must match the head of the channel in peer, tag, communicator, datatype and count, "
                            "the datatype must describe the buffer's element type, the buffer must hold the count, and what the receiver ends with must be what the sender had."),
    "C15": dict(title="Native library handles have one owner and are released on every path",
                obligations=[("p_handles", lambda o: True)],
                technique="typestate (reference counts of library objects and communicators as an abstract state) over value-flow summaries",
                explanation="Construction, copying, assignment, moving, use and destruction of every wrapper of a library object, the routines that create communicators, nodes that hold one, and the leaf solver are summarised over the libraries' handle contract; references held, calls outside the contract and arrays borrowed are compared with what ownership by one holder gives."),
    "C16": dict(title="Options from code, command line and file keep their value and type",
                obligations=[("p_opts", lambda o: True)],
                technique=VF + "; string operations and line reading by their library contract",
                explanation="The typing of a text, settings in turn, the command line (also through the application object) and the file reader are summarised over any texts, argument vectors and file lines, and what a look-up of any name returns afterwards is compared with the definition."),
    "C20": dict(title="Interpolation uses the bracketing interval for every query and history",
                obligations=[("p_interp", lambda o: True)],
                technique=VF,
                explanation="The values of three successive queries (any table, order and position) are summarised through the interval search, its remembered state and the interpolant, and compared with a linear scan for the bracketing interval; the window of points is compared for every order."),
    "C07": dict(title="Tree traversals visit each owned node once, children and parents in order",
                obligations=[("p_tree", lambda o: o.cat == "C07")],
                technique=VF + "; p4est's searches by their contract on enumerated trees, node data symbolic",
                explanation="Construction and every traversal of a tree are summarised over p4est's search contract on trees of one to four levels, with symbolic node data and opaque callbacks; the sequence of callback invocations, the nodes and data handed to them and the results left in the nodes are compared with the order each traversal promises, also for traversals in turn, two trees over one forest, moved trees and forests that carry a pointer of their user."),
    "C22": dict(title="Traversals do not depend on the number of ranks or the partition",
                obligations=[("p_tree", lambda o: o.cat == "C22")],
                technique=VF + " on every rank of a small machine (collectives by MPI's contract, contributions iterated to a fixed point), partitions enumerated",
                explanation="Every rank's construction, merge and split are summarised together for partitions of small trees over 2 to 6 ranks, idle ranks included; what each rank's callbacks are given and what the root ends with must be what one rank alone computes, with symbolic data and opaque callbacks. Bounded in tree and rank count; the callbacks being functions of their nodes is C01 to C04 and C12 to C14."),
    "C23": dict(title="Exchanges between ranks always match: no traversal can deadlock",
                obligations=[("p_tree", lambda o: o.cat == "C23")],
                technique="communication typestate: per-rank sequences of collectives and messages extracted from the source, matched over the members of each communicator, partitions enumerated",
                explanation="The sequence of communication operations of every rank in construction and traversals is extracted for partitions of small trees over 2 to 6 ranks, idle ranks included; every operation must be entered by all members of its communicator in the same way, and ranks advancing only when all members stand before the same operation must all finish. Bounded in tree and rank count."),
    "C06": dict(title="Collective operations are reached by every rank of their communicator",
                obligations=[("p_coll", lambda o: True)],
                technique="communication effects: per-rank sequences of collectives and messages with their path conditions, extracted from the source and matched over the members of each communicator",
                explanation="Every rank's algorithm stages (real algorithm, tree, patches and node factory; leaf numerics without communication), mesh operations, exchanges of every communicable type, communicator creation and distributed objects are summarised together for enumerated partitions over 2 to 6 ranks; "
                            "every collective operation, those of MPI, PETSc and p4est, must be entered by all members of its communicator, in the same way and under the same condition, and the orders must let every rank finish. Leaf work, containers, node creation and logging are summarised with a different number of repetitions on every rank and must enter none on a wider communicator. Bounded in tree and rank count."),
    "C19": dict(title="Mesh refinement and output arrays follow the criterion and the tree exactly",
                obligations=[("p_mesh", lambda o: True)],
                technique=VF + "; p4est by its contract, trees and patch sizes enumerated, criterion, coordinates and levels symbolic",
                explanation="The refinement callback is summarised on quadrants of several levels for any criterion, domain and level limits and compared with its definition; the arrays of a mesh (built, built again, after refinement, on several ranks), the order in which patches and cells are gone over and the functions tabulated on them are compared with the cells of the local leaves in order. Bounded in tree depth and patch size."),
    "C17": dict(title="VTK output is well formed and consistent with the data it is given",
                obligations=[("p_vtk", lambda o: True)],
                technique="abstract files (what streams leave in them, given texts opaque) read back as element trees and compared with the definition's; value-flow summaries for the texts of arrays",
                explanation="What the writers leave in each file is summarised as text with opaque pieces for everything given (names, values, data), read as a tree of elements and compared with the tree the definition gives: trees of elements, rectilinear and unstructured grids with 0 to 3 arrays, written and built again, index files of 1 to 12 ranks on several communicators and base names, and the files of meshes on 1 to 3 ranks. The texts and ranges of an array are summarised for any length and values."),
}

NOTE = ("Decided from the source by a value-flow analysis. 'discharged' obligations hold for all inputs (assuming no integer overflow and exact arithmetic); 'unrefuted' ones were only searched for separating interpretations. "
        "Trusted: clang's front end, the interpreter's models of the standard library, the reference definitions.")

NA = {
    "C21": "Convergence order is a statement about floating-point results of whole solves; no static argument in reach bounds it. Its structural parts (assembly, maps, merge) are C12, C13 and C01.",
}
