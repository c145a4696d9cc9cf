// Collective operations: the same program on every rank, each with its own share of the tree; nobody may be left waiting.
#include "ef_spec.hpp"
#include "HPSAlgorithm.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"
void ef_everywhere(std::function<void(int)> program);
int ef_ranks();
int ef_local_quadrants();
int ef_global_quadrants();
bool ef_mine();
namespace efs { namespace coll {
using P = FiniteVolumePatch;
using G = FiniteVolumeGrid;
using N = Node<P>;
using Mat_ = Matrix<double>;
using Vec_ = Vector<double>;
// the numerical work, done without anyone else
struct Solver {
    Vec_ solve(G& g, Vec_& d, Vec_& f) { return Vec_(g.nx() * g.ny(), 1.0); }
    Mat_ buildD2N(G& g) { return Mat_(4, 4, 1.0); }
    Vec_ particularNeumannData(G& g, Vec_& f) { return Vec_(4, 1.0); }
};
struct H : HPSAlgorithm<G, Solver, P, double> {
    H(EllipticForest::MPI::Communicator comm, Mesh<P>& m, Solver& s) : HPSAlgorithm<G, Solver, P, double>(comm, m, s) {}
    void merge4to1(P& t, P& a, P& b, P& c, P& d) override { t.matrixT() = a.matrixT(); t.matrixS() = d.matrixT(); }
    void upwards4to1(P& t, P& a, P& b, P& c, P& d) override { t.vectorH() = a.vectorH(); t.vectorW() = d.vectorH(); }
    void split1to4(P& t, P& a, P& b, P& c, P& d) override { a.vectorG() = t.vectorG(); b.vectorG() = t.vectorG(); c.vectorG() = t.vectorG(); d.vectorG() = t.vectorG(); }
};
inline void here(p4est_t& forest, int rank) { forest.mpirank = rank; forest.mpisize = ef_ranks(); forest.local_num_quadrants = ef_local_quadrants(); forest.global_num_quadrants = ef_global_quadrants(); }
inline void options(bool homogeneous, bool cache) { auto& o = EllipticForestApp::getInstance().options; o["homogeneous-rhs"] = homogeneous; o["cache-operators"] = cache; }
#define ON_EVERY_RANK(...) ef_everywhere([&](int rank) { here(forest, rank); options(false, false); G g(MPI_COMM_WORLD, 1, 0, 1, 1, 0, 1); P root(MPI_COMM_WORLD, g); FiniteVolumeNodeFactory f(MPI_COMM_WORLD); Mesh<P> m(MPI_COMM_WORLD, &forest, root, f); Solver s; H h(MPI_COMM_WORLD, m, s); __VA_ARGS__; })
void t_build(p4est_t& forest) { ON_EVERY_RANK(h.setupStage(); h.buildStage()); }
void t_build_cached(p4est_t& forest) { ON_EVERY_RANK(options(false, true); h.buildStage()); }
void t_solve_homogeneous(p4est_t& forest) { ON_EVERY_RANK(options(true, false); h.solveStage([](P& p) { p.vectorG() = Vec_(4, 3.0); })); }
void t_upwards(p4est_t& forest) { ON_EVERY_RANK(h.upwardsStage([](P& p) { p.vectorF() = Vec_(1, 2.0); })); }
void t_upwards_fn(p4est_t& forest, std::function<double(double, double)> fn) { ON_EVERY_RANK(h.upwardsStage(fn)); }
void t_solve(p4est_t& forest) { ON_EVERY_RANK(h.solveStage([](P& p) { p.vectorG() = Vec_(4, 3.0); })); }
void t_solve_fn(p4est_t& forest) { ON_EVERY_RANK(P& p = m.quadtree.root(); p.vectorH() = Vec_(4, 1.0); p.matrixT() = Mat_(4, 4, 1.0); h.solveStage([](int side, double x, double y, double* a, double* b) { *a = 1; *b = side; return 2.0; })); }
void t_all(p4est_t& forest) {
    ON_EVERY_RANK(h.setupStage(); h.buildStage(); h.upwardsStage([](P& p) { p.vectorF() = Vec_(1, 2.0); }); h.solveStage([](P& p) { p.vectorG() = Vec_(4, 3.0); });
        h.upwardsStage([](P& p) { p.vectorF() = Vec_(1, 4.0); }); h.solveStage([](P& p) { p.vectorG() = Vec_(4, 5.0); }));
}
void r_none(p4est_t& forest) {}
void r_fn(p4est_t& forest, std::function<double(double, double)> fn) {}
// ---------------------------------------------------------------- work nobody else takes part in: as often as this rank likes
#define AS_OFTEN_AS_IT_LIKES(...) ef_everywhere([&](int rank) { for (int k = 0; k <= 2 * rank; k++) { __VA_ARGS__; } })
#define LEAF FiniteVolumeSolver s(MPI_COMM_WORLD, [](double x, double y) { return 1.0; }, [](double x, double y) { return 1.0; }, [](double x, double y) { return 0.0; }, [](double x, double y) { return 0.0; }); G g(MPI_COMM_WORLD, 2, 0, 1, 2, 0, 1); Vec_ d(8, 1.0), f(4, 2.0)
void t_leaf_solve() { AS_OFTEN_AS_IT_LIKES(LEAF; s.solver_type = FiniteVolumeSolverType::FivePointStencil; Vec_ u = s.solve(g, d, f)); }
void t_leaf_fish() { AS_OFTEN_AS_IT_LIKES(LEAF; s.solver_type = FiniteVolumeSolverType::FISHPACK90; Vec_ u = s.solve(g, d, f)); }
void t_leaf_map() { AS_OFTEN_AS_IT_LIKES(LEAF; Vec_ u = s.mapD2N(g, d, f)); }
void t_leaf_particular() { AS_OFTEN_AS_IT_LIKES(LEAF; Vec_ u = s.particularNeumannData(g, f)); }
void t_leaf_operator() { AS_OFTEN_AS_IT_LIKES(LEAF; Mat_ u = s.buildD2N(g)); }
void t_nodes() {
    AS_OFTEN_AS_IT_LIKES(FiniteVolumeNodeFactory f(MPI_COMM_WORLD); G g(MPI_COMM_WORLD, 2, 0, 1, 2, 0, 1); P p(MPI_COMM_WORLD, g); N n(MPI_COMM_WORLD, p, "0", 0, 0, 1); std::vector<N*> c;
        for (int i = 0; i < 4; i++) { c.push_back(f.createChildNode(&n, i, 0, 1)); } N* q = f.createParentNode(c, 0, 1); P r(p); p = r; delete q; for (int i = 0; i < 4; i++) { delete c[i]; });
}
void t_objects() { AS_OFTEN_AS_IT_LIKES(Vec_ v(3, 1.0), w(v); v = v + w; Mat_ a(2, 2, 1.0), b(a); a = a * b; Vec_ y(2, 1.0); Vec_ x = solve(b, y); v.name() = "v"; Vec_ z = v.getSegment(0, 2); Mat_ t = a.T()); }
void t_app() { AS_OFTEN_AS_IT_LIKES(auto& app = EllipticForestApp::getInstance(); app.logHead("x"); app.log("x"); app.addTimer("t"); app.timers["t"].start(); app.timers["t"].stop(); app.options["o"] = 1); }
// ---------------------------------------------------------------- operations of several ranks, with what they hold differing between them
#define ON_RANKS(...) ef_everywhere([&](int rank) { __VA_ARGS__; })
void t_cast_values() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { int n = rank; double x = rank; bool b = rank == 1; EllipticForest::MPI::broadcast(n, r, MPI_COMM_WORLD); EllipticForest::MPI::broadcast(x, r, MPI_COMM_WORLD); EllipticForest::MPI::broadcast(b, r, MPI_COMM_WORLD); }); }
void t_cast_texts() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { std::string s(3 * rank, 'x'); EllipticForest::MPI::broadcast(s, r, MPI_COMM_WORLD); }); }
void t_cast_sequences() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { std::vector<int> s(2 * rank, rank); EllipticForest::MPI::broadcast(s, r, MPI_COMM_WORLD); std::vector<double> t(5 - rank, 1.0); EllipticForest::MPI::broadcast(t, r, MPI_COMM_WORLD); }); }
void t_cast_vectors() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { Vec_ v(2 * rank, 1.0); EllipticForest::MPI::broadcast(v, r, MPI_COMM_WORLD); Vector<int> w(4 - rank, 1); EllipticForest::MPI::broadcast(w, r, MPI_COMM_WORLD); }); }
void t_cast_matrices() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { Mat_ m(2 * rank, 3, 1.0); EllipticForest::MPI::broadcast(m, r, MPI_COMM_WORLD); }); }
void t_cast_grids() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { G g(MPI_COMM_SELF, 2 + rank, 0, 1 + rank, 3, 0, 1); EllipticForest::MPI::broadcast(g, r, MPI_COMM_WORLD); }); }
inline P bag(int rank, bool full) {
    P p(MPI_COMM_WORLD, G(MPI_COMM_WORLD, 2, 0, 1, 2, 0, 1));
    if (full) { p.matrixX() = Mat_(rank, 2, 1.0); p.matrixH() = Mat_(2, rank, 1.0); p.matrixS() = Mat_(rank, rank, 1.0); p.matrixT() = Mat_(1, 1, 1.0); p.vectorU() = Vec_(rank, 1.0); p.vectorG() = Vec_(2, 1.0); p.vectorV() = Vec_(3 * rank, 1.0); p.vectorF() = Vec_(4, 1.0); p.vectorH() = Vec_(1 + rank, 1.0); p.vectorW() = Vec_(2, 1.0); p.n_coarsens = rank; }
    return p;
}
void t_cast_patches() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { P p = bag(rank, rank == r); EllipticForest::MPI::broadcast(p, r, MPI_COMM_WORLD); }); }
void t_cast_nodes() { ON_RANKS(for (int r = 0; r < ef_ranks(); r++) { N n(MPI_COMM_WORLD, bag(rank, rank != r), rank == r ? "0123" : "0", rank, 0, 1); n.leaf = rank == 1; EllipticForest::MPI::broadcast(n, r, MPI_COMM_WORLD); }); }
void t_reductions() {
    ON_RANKS(int n = rank, m = 0; EllipticForest::MPI::allreduce(n, m, MPI_MAX, MPI_COMM_WORLD); double x = rank, y = 0; EllipticForest::MPI::allreduce(x, y, MPI_SUM, MPI_COMM_WORLD);
        std::vector<int> a(ef_ranks(), 0), o(1, n); EllipticForest::MPI::allgather(o, a, 1, MPI_COMM_WORLD); std::vector<double> b(2, x), c(2 * ef_ranks(), 0.0); EllipticForest::MPI::allgather(b, c, 2, MPI_COMM_WORLD));
}
void t_messages() {
    ON_RANKS(std::string s(2 * rank, 'x'); std::vector<double> v(1 + rank, 1.0); Vec_ w(2 + rank, 1.0); int n = rank; MPI_Status st;
        if (rank > 0) { EllipticForest::MPI::receive(n, rank - 1, 7, MPI_COMM_WORLD, &st); EllipticForest::MPI::receive(s, rank - 1, 7, MPI_COMM_WORLD, &st); EllipticForest::MPI::receive(v, rank - 1, 7, MPI_COMM_WORLD, &st); EllipticForest::MPI::receive(w, rank - 1, 7, MPI_COMM_WORLD, &st); }
        if (rank + 1 < ef_ranks()) { EllipticForest::MPI::send(n, rank + 1, 7, MPI_COMM_WORLD); EllipticForest::MPI::send(s, rank + 1, 7, MPI_COMM_WORLD); EllipticForest::MPI::send(v, rank + 1, 7, MPI_COMM_WORLD); EllipticForest::MPI::send(w, rank + 1, 7, MPI_COMM_WORLD); });
}
// ranges of ranks, asked for by those inside them (nobody else takes part)
void t_subsets() {
    ON_RANKS(for (int a = 0; a < ef_ranks(); a++) { for (int b = a; b < ef_ranks(); b++) { if (a <= rank && rank <= b) {
        MPI_Comm c = MPI_COMM_NULL; EllipticForest::MPI::communicatorSubsetRange(MPI_COMM_WORLD, a, b, 0, &c); int n = rank; EllipticForest::MPI::broadcast(n, b - a, c); std::string name = EllipticForest::MPI::communicatorGetName(c); MPI_Comm_free(&c); } } });
}
// distributed objects, by everyone together
using PV = ParallelVector<double>;
using PM = ParallelMatrix<double>;
void t_parallel_vectors() {
    ON_RANKS(PV a(MPI_COMM_WORLD, 1 + rank, 6); Vec_ v(2, 1.0); PV b(MPI_COMM_WORLD, v); PV c(a); PV e(MPI_COMM_WORLD); e.create(); e.setSizes(1, ef_ranks()); e.setFromOptions(); e.setValue(rank, 1.0, INSERT_VALUES); e.beginAssembly(); e.endAssembly());
}
void t_parallel_matrices() {
    ON_RANKS(PM a(MPI_COMM_WORLD, 1 + rank, 1 + rank, 6, 6); Mat_ m(2, 2, 1.0); PM b(MPI_COMM_WORLD, m); PM c(a); PM e(MPI_COMM_WORLD); e.create(); e.setSizes(1, 1, ef_ranks(), ef_ranks()); e.setFromOptions(); e.setValue(rank, rank, 1.0, INSERT_VALUES); e.beginAssembly(MAT_FINAL_ASSEMBLY); e.endAssembly(MAT_FINAL_ASSEMBLY));
}
void t_parallel_identities() { ON_RANKS(ParallelIdentityMatrix<double> a(4); ParallelIdentityMatrix<double> b(MPI_COMM_WORLD, 3)); }
void r_nothing() {}
void r_refine(std::function<bool(double, double)> fn, double threshold, int min_level, int max_level) {}
void r_function(p4est_t& forest, std::function<double(double, double)> u, std::function<double(double, double)> v, Vector<double> given, std::string un, std::string vn) {}
void r_files(p4est_t& forest, std::function<double(double, double)> u, Vector<double> given) {}
} }
