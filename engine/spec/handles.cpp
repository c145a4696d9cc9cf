// Handles of the parallel libraries: who owns them and when they are given back.
#include "ef_spec.hpp"
int ef_live(); int ef_illegal(); int ef_borrowed();
namespace efs { namespace handles {
using PV = ParallelVector<double>;
using PM = ParallelMatrix<double>;
using PI = ParallelIdentityMatrix<double>;
using NV = Node<Vector<double>>;
using V = Vector<double>;
using M = Matrix<double>;
// live: references held; illegal: calls outside the libraries' contracts (freed, never created or null handles)
struct Lib { int live, illegal, borrowed; };
inline Lib lib() { return Lib{ef_live(), ef_illegal(), ef_borrowed()}; }
// the state inside the lifetime of the objects, and after it
struct Life { int during, illegal, after, illegal_after, borrowed; };

// index sets of the caller, given back by the caller
struct Own { ::IS *a, *b; ~Own() { ISDestroy(a); ISDestroy(b); } };

#define LIFE(NAME, DURING, ARGS, ...) \
    Life t_##NAME ARGS { Life r; { __VA_ARGS__; r.during = ef_live(); r.illegal = ef_illegal(); } r.after = ef_live(); r.illegal_after = ef_illegal(); r.borrowed = ef_borrowed(); return r; } \
    Life r_##NAME ARGS { return Life{DURING, 0, 0, 0, 0}; }

// vectors
LIFE(pv_default, 0, (MPI_Comm c), PV a; PV b(c))
LIFE(pv_sizes, 1, (MPI_Comm c, int n, int N), PV a(c, n, N))
LIFE(pv_type, 1, (MPI_Comm c, int n, int N), PV a(c, n, N, VECMPI))
LIFE(pv_serial, 1, (MPI_Comm c, V& v), PV a(c, v))
LIFE(pv_serial_type, 1, (MPI_Comm c, V& v), PV a(c, v, VECMPI))
LIFE(pv_use, 1, (MPI_Comm c, int n, V& v, Vector<int>& i, int k, double x), PV a(c); a.create(); a.setSizes(n, n); a.setType(VECMPI); a.setFromOptions(); a.setValue(k, x, INSERT_VALUES); a.setValues(i, v, ADD_VALUES); a.beginAssembly(); a.endAssembly())
LIFE(pv_create_twice, 1, (MPI_Comm c, int n), PV a(c, n, n); a.create(); a.setSizes(n, n); a.setFromOptions(); a.setValue(0, 1.0, INSERT_VALUES))
LIFE(pv_copy, 1, (MPI_Comm c, int n, double x), PV a(c, n, n); { PV b(a); b.setValue(0, x, INSERT_VALUES); } a.setValue(0, x, INSERT_VALUES))
LIFE(pv_copy_outlives, 1, (MPI_Comm c, int n, double x), PV b(c); { PV a(c, n, n); b = a; } b.setValue(0, x, INSERT_VALUES))
LIFE(pv_copy_empty, 0, (MPI_Comm c, int n, double x), PV a(c, n, n); PV e; a = e)
LIFE(pv_assign, 1, (MPI_Comm c, int n, double x), PV a(c, n, n); { PV b(c, n, n); a = b; } a.setValue(0, x, INSERT_VALUES))
LIFE(pv_self, 1, (MPI_Comm c, int n, double x), PV a(c, n, n); PV& b = a; a = b; a.setValue(0, x, INSERT_VALUES))
LIFE(pv_move, 1, (MPI_Comm c, int n, double x), PV a(c); { PV b(c, n, n); PV d(std::move(b)); a = std::move(d); } a.setValue(0, x, INSERT_VALUES))
LIFE(pv_assign_twice, 1, (MPI_Comm c, int n, double x), PV a(c); { PV b(c, n, n); a = b; PV d(c, n, n); a = d; a = d; } a.setValue(0, x, INSERT_VALUES))

// matrices
LIFE(pm_default, 0, (MPI_Comm c), PM a; PM b(c))
LIFE(pm_sizes, 1, (MPI_Comm c, int n, int N), PM a(c, n, n, N, N))
LIFE(pm_type, 1, (MPI_Comm c, int n, int N), PM a(c, n, n, N, N, MATAIJ))
LIFE(pm_serial, 1, (MPI_Comm c, M& v), PM a(c, v))
LIFE(pm_serial_type, 1, (MPI_Comm c, M& v), PM a(c, v, MATDENSE))
LIFE(pm_take, 1, (MPI_Comm c), ::Mat m; MatCreate(c, &m); PM a(c, m); a.setValue(0, 0, 1.0, INSERT_VALUES))
LIFE(pm_use, 1, (MPI_Comm c, int n, M& v, V& w, Vector<int>& i, int k, double x), PM a(c); a.create(); a.setSizes(n, n, n, n); a.setType(MATAIJ); a.setFromOptions(); a.setValue(k, k, x, INSERT_VALUES); a.setValues(i, i, v, ADD_VALUES); a.setValues(i, i, w, ADD_VALUES); a.beginAssembly(MAT_FINAL_ASSEMBLY); a.endAssembly(MAT_FINAL_ASSEMBLY); a.getValue(k, k, x); a.getValues(i, i, v); a.getValues(i, i, w))
LIFE(pm_create_twice, 1, (MPI_Comm c, int n), PM a(c, n, n, n, n); a.create(); a.setSizes(n, n, n, n); a.setFromOptions(); a.setValue(0, 0, 1.0, INSERT_VALUES))
LIFE(pm_copy, 1, (MPI_Comm c, int n, double x), PM a(c, n, n, n, n); { PM b(a); b.setValue(0, 0, x, INSERT_VALUES); } a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_copy_outlives, 1, (MPI_Comm c, int n, double x), PM* b = nullptr; { PM a(c, n, n, n, n); b = new PM(a); } b->setValue(0, 0, x, INSERT_VALUES); int k = ef_live(); delete b; PM d(c, k, k, k, k))
LIFE(pm_assign, 1, (MPI_Comm c, int n, double x), PM a(c, n, n, n, n); { PM b(c, n, n, n, n); a = PM(b); } a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_assign_empty, 0, (MPI_Comm c, int n, double x), PM a(c, n, n, n, n); PM e; a = PM(e))
LIFE(pm_assign_into_empty, 1, (MPI_Comm c, int n, double x), PM a; a = PM(c, n, n, n, n); a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_self, 1, (MPI_Comm c, int n, double x), PM a(c, n, n, n, n); PM& b = a; a = std::move(b); a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_move, 1, (MPI_Comm c, int n, double x), PM a(c); { PM b(c, n, n, n, n); PM d(std::move(b)); a = std::move(d); } a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_assign_twice, 1, (MPI_Comm c, int n, double x), PM a(c); { PM b(c, n, n, n, n); a = PM(b); PM d(c, n, n, n, n); a = PM(d); } a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pm_other_comm, 2, (MPI_Comm c, MPI_Comm d, int n), PM a(c, n, n, n, n); PM b(d, a); b.setValue(0, 0, 1.0, INSERT_VALUES); a.setValue(0, 0, 1.0, INSERT_VALUES))
// the index sets stay with the caller
LIFE(pm_sub, 4, (MPI_Comm c, int n), PM a(c, n, n, n, n); ::IS ir, ic; ISCreateStride(c, n, 0, 1, &ir); ISCreateStride(c, n, 0, 1, &ic); { PM b(c, a, ir, ic); b.setValue(0, 0, 1.0, INSERT_VALUES); } PM d(c, a, ir, ic); Own o{&ir, &ic})
LIFE(pi_world, 1, (size n, double x), PI a(n); a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pi_comm, 1, (MPI_Comm c, size n, double x), PI a(c, n); a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pi_type, 1, (MPI_Comm c, size n, double x), PI a(c, n, MATDENSE); a.setValue(0, 0, x, INSERT_VALUES))
LIFE(pi_copy, 1, (MPI_Comm c, size n, double x), PI a(c, n); { PM b(a); b.setValue(0, 0, x, INSERT_VALUES); PI d(a); } a.setValue(0, 0, x, INSERT_VALUES))

// patches and nodes hold them by value
LIFE(patch, 0, (MPI_Comm c, FiniteVolumeGrid& g), FiniteVolumePatch p(c, g); FiniteVolumePatch q(p))

// communicators: a member holds the new communicator, everybody else the null one, and no group stays behind
struct Sub { bool null; int live, illegal, after, illegal_after; };
Sub t_subset(MPI_Comm super, int a, int b, int tag) {
    MPI_Comm sub;
    EllipticForest::MPI::communicatorSubsetRange(super, a, b, tag, &sub);
    Sub r;
    r.null = sub == MPI_COMM_NULL; r.live = ef_live(); r.illegal = ef_illegal();
    if (sub != MPI_COMM_NULL) { int k; MPI_Comm_rank(sub, &k); MPI_Comm_free(&sub); }
    r.after = ef_live(); r.illegal_after = ef_illegal();
    return r;
}
Sub r_subset(MPI_Comm super, int a, int b, int tag) {
    int me; MPI_Comm_rank(super, &me);
    bool in = a <= me && me <= b;
    return Sub{!in, in ? 1 : 0, 0, 0, 0};
}
// naming does not create or free anything
Lib t_names(MPI_Comm c, std::string& s) { EllipticForest::MPI::communicatorSetName(c, s); std::string t = EllipticForest::MPI::communicatorGetName(c); return lib(); }
Lib r_names(MPI_Comm c, std::string& s) { return Lib{0, 0, 0}; }
// a node frees the communicator it was given, once, and only then
int t_node_plain(MPI_Comm c, V& v) { { NV a(c); NV b(c, v, "0", 0, 0, 0); NV d(b); } return ef_live() * 1000 + ef_illegal(); }
int r_node_plain(MPI_Comm c, V& v) { return 0; }
template<class F> Life node_life(MPI_Comm c, F f) {
    Life r;
    { NV a(c); MPI_Comm_dup(c, &a.node_comm); a.node_comm_set = true; f(a); int k; MPI_Comm_rank(a.node_comm, &k); r.during = ef_live(); r.illegal = ef_illegal(); }
    r.after = ef_live(); r.illegal_after = ef_illegal(); r.borrowed = ef_borrowed();
    return r;
}
Life t_node(MPI_Comm c) { return node_life(c, [](NV& a) {}); }
Life r_node(MPI_Comm c) { return Life{1, 0, 0, 0, 0}; }
Life t_node_copy(MPI_Comm c) { return node_life(c, [](NV& a) { NV b(a); }); }
Life r_node_copy(MPI_Comm c) { return Life{1, 0, 0, 0, 0}; }
Life t_node_assign(MPI_Comm c) { return node_life(c, [&](NV& a) { NV b(c); b = a; NV d(c); MPI_Comm_dup(c, &d.node_comm); d.node_comm_set = true; d = a; }); }
Life r_node_assign(MPI_Comm c) { return Life{1, 0, 0, 0, 0}; }
Life t_node_self(MPI_Comm c) { return node_life(c, [&](NV& a) { NV& b = a; a = b; }); }
Life r_node_self(MPI_Comm c) { return Life{1, 0, 0, 0, 0}; }
// a rank outside the range has a node without a communicator to free
Life t_node_subset(MPI_Comm c, int p, int q) {
    Life r;
    { NV a(c); EllipticForest::MPI::communicatorSubsetRange(c, p, q, 0, &a.node_comm); a.node_comm_set = true; r.during = 0; r.illegal = ef_illegal(); }
    r.after = ef_live(); r.illegal_after = ef_illegal(); r.borrowed = ef_borrowed();
    return r;
}
Life r_node_subset(MPI_Comm c, int p, int q) { return Life{0, 0, 0, 0, 0}; }

// the leaf solver and the operators built from it give back everything they acquire
using S = FiniteVolumeSolver;
using G = FiniteVolumeGrid;
inline void wf(G& g) { ef_assume(g.nx() >= 2); ef_assume(g.ny() >= 2); }
Lib t_solve(S& s, G& g, V& d, V& f) { s.solver_type = FiniteVolumeSolverType::FivePointStencil; V u = s.solve(g, d, f); return lib(); }
Lib r_solve(S& s, G& g, V& d, V& f) { wf(g); s.solver_type = FiniteVolumeSolverType::FivePointStencil; ef_assume(d.size() == 2 * g.nx() + 2 * g.ny()); ef_assume(f.size() == g.nx() * g.ny()); return Lib{0, 0, 0}; }
Lib t_solve_any(S& s, G& g, V& d, V& f) { V u = s.solve(g, d, f); return lib(); }
Lib r_solve_any(S& s, G& g, V& d, V& f) { wf(g); ef_assume(d.size() == 2 * g.nx() + 2 * g.ny()); ef_assume(f.size() == g.nx() * g.ny()); return Lib{0, 0, 0}; }
Lib t_map(S& s, G& g, V& d, V& f) { V h = s.mapD2N(g, d, f); return lib(); }
Lib r_map(S& s, G& g, V& d, V& f) { wf(g); ef_assume(d.size() == 2 * g.nx() + 2 * g.ny()); ef_assume(f.size() == g.nx() * g.ny()); return Lib{0, 0, 0}; }
Lib t_part(S& s, G& g, V& f) { V h = s.particularNeumannData(g, f); return lib(); }
Lib r_part(S& s, G& g, V& f) { wf(g); ef_assume(f.size() == g.nx() * g.ny()); return Lib{0, 0, 0}; }
Lib t_op(S& s, G& g) { M T = s.buildD2N(g); return lib(); }
Lib r_op(S& s, G& g) { wf(g); return Lib{0, 0, 0}; }
} }
