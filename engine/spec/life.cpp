// Lifetimes: the application object over the libraries' start/stop contract, timers over an abstract clock.
#include "ef_spec.hpp"
// contract of the libraries: 0 not started, 1 running, 2 finalised
int ef_mpi();
int ef_petsc();
// calls the libraries do not allow in the state they are in
int ef_illegal();
// what others have done before: the state of both libraries, and whether PETSc started MPI itself
void ef_libs(int mpi, int petsc, bool petsc_owns_mpi);
void ef_time(double t);
namespace efs {
using App = EllipticForestApp;
struct LibV { int mpi_in, petsc_in, mpi_out, petsc_out, illegal; bool instance; };
LibV t_app(int argc, char** argv, int mpi, int petsc, bool own) {
    LibV v;
    ef_libs(mpi, petsc, own);
    {
        App app(&argc, &argv);
        v.mpi_in = ef_mpi(); v.petsc_in = ef_petsc();
        v.instance = App::actualClassPointer_ == &app;
    }
    v.mpi_out = ef_mpi(); v.petsc_out = ef_petsc(); v.illegal = ef_illegal();
    return v;
}
inline void libs(int mpi, int petsc, bool own) { ef_assume(mpi >= 0 && mpi <= 1); ef_assume(petsc >= 0 && petsc <= mpi); ef_assume(!own || petsc == 1); }
LibV r_app(int argc, char** argv, int mpi, int petsc, bool own) {
    libs(mpi, petsc, own); ef_assume(argc >= 1);
    return LibV{1, 1, mpi == 0 ? 2 : 1, petsc, 0, true};
}
// somebody else's shutdown comes first
LibV t_app_after(int argc, char** argv, int petsc, bool own) {
    LibV v;
    ef_libs(1, petsc, own);
    {
        App app(&argc, &argv);
        v.mpi_in = ef_mpi(); v.petsc_in = ef_petsc();
        v.instance = App::actualClassPointer_ == &app;
        if (petsc == 1) PetscFinalize();
        if (!own) { if (petsc == 0) PetscFinalize(); MPI_Finalize(); }
    }
    v.mpi_out = ef_mpi(); v.petsc_out = ef_petsc(); v.illegal = ef_illegal();
    return v;
}
LibV r_app_after(int argc, char** argv, int petsc, bool own) {
    libs(1, petsc, own); ef_assume(argc >= 1);
    return LibV{1, 1, 2, 0, 0, true};
}
// PETSc (and then MPI) ended by the program before the application object is
LibV t_app_ends(int argc, char** argv, int mpi, int petsc, bool own, int what) {
    LibV v;
    ef_libs(mpi, petsc, own);
    {
        App app(&argc, &argv);
        v.mpi_in = ef_mpi(); v.petsc_in = ef_petsc();
        v.instance = App::actualClassPointer_ == &app;
        if (what >= 1) PetscFinalize();
        if (what >= 2 && !own) MPI_Finalize();
    }
    v.mpi_out = ef_mpi(); v.petsc_out = ef_petsc(); v.illegal = ef_illegal();
    return v;
}
LibV r_app_ends(int argc, char** argv, int mpi, int petsc, bool own, int what) {
    libs(mpi, petsc, own); ef_assume(argc >= 1); ef_assume(what >= 0 && what <= 2);
    if (what == 0) return LibV{1, 1, mpi == 0 ? 2 : 1, petsc, 0, true};
    return LibV{1, 1, mpi == 0 || own || what == 2 ? 2 : 1, 0, 0, true};
}
// two applications at the same time, ended in either order: the instance is the one that still exists
struct PairV { int mpi_in, petsc_in, mpi_out, petsc_out, illegal; bool second, left, none; };
PairV t_pair(int argc, char** argv, int mpi, int petsc, bool own, bool first) {
    PairV v;
    ef_libs(mpi, petsc, own);
    App* a = new App(&argc, &argv);
    App* b = new App(&argc, &argv);
    v.second = App::actualClassPointer_ == b;
    v.mpi_in = ef_mpi(); v.petsc_in = ef_petsc();
    if (first) { delete a; v.left = App::actualClassPointer_ == b; delete b; }
    else { delete b; v.left = App::actualClassPointer_ != b; delete a; }
    v.none = App::actualClassPointer_ == nullptr;
    v.mpi_out = ef_mpi(); v.petsc_out = ef_petsc(); v.illegal = ef_illegal();
    return v;
}
PairV r_pair(int argc, char** argv, int mpi, int petsc, bool own, bool first) {
    libs(mpi, petsc, own); ef_assume(argc >= 1);
    return PairV{1, 1, mpi == 0 ? 2 : 1, petsc, 0, true, true, true};
}
// two applications one after the other under somebody else's libraries
struct TwoV { LibV a, b; };
TwoV t_two(int argc, char** argv, int petsc) {
    TwoV v;
    ef_libs(1, petsc, false);
    {
        App app(&argc, &argv);
        v.a.mpi_in = ef_mpi(); v.a.petsc_in = ef_petsc(); v.a.instance = App::actualClassPointer_ == &app;
    }
    v.a.mpi_out = ef_mpi(); v.a.petsc_out = ef_petsc(); v.a.illegal = ef_illegal();
    {
        App app(&argc, &argv);
        v.b.mpi_in = ef_mpi(); v.b.petsc_in = ef_petsc(); v.b.instance = App::actualClassPointer_ == &app;
    }
    v.b.mpi_out = ef_mpi(); v.b.petsc_out = ef_petsc(); v.b.illegal = ef_illegal();
    return v;
}
TwoV r_two(int argc, char** argv, int petsc) {
    libs(1, petsc, false); ef_assume(argc >= 1);
    LibV v{1, 1, 1, petsc, 0, true};
    return TwoV{v, v};
}
// an application object without arguments leaves the libraries alone
LibV t_default(int mpi, int petsc, bool own) {
    LibV v;
    ef_libs(mpi, petsc, own);
    v.instance = true;
    {
        App app;
        v.mpi_in = ef_mpi(); v.petsc_in = ef_petsc();
    }
    v.mpi_out = ef_mpi(); v.petsc_out = ef_petsc(); v.illegal = ef_illegal();
    return v;
}
LibV r_default(int mpi, int petsc, bool own) {
    ef_assume(mpi >= 0 && mpi <= 2); ef_assume(petsc >= 0 && petsc <= 1); ef_assume(petsc == 0 || mpi == 1); ef_assume(!own || petsc == 1);
    return LibV{mpi, petsc, mpi, petsc, 0, true};
}
// an instance that is handed out exists
bool t_instance(int argc, char** argv) {
    ef_libs(1, 1, false);
    { App app(&argc, &argv); }
    return App::actualClassPointer_ == nullptr;
}
bool r_instance(int argc, char** argv) { ef_assume(argc >= 1); return true; }

struct TimeV { double first, second, total, twice, reset, after, third; };
TimeV t_timer(double a, double b, double c, double d, double e, double f, double g, double h) {
    TimeV v; Timer t;
    ef_time(a); t.start(); ef_time(b); v.first = t.stop();
    ef_time(c); t.start(); ef_time(d); v.second = t.stop();
    ef_time(e); v.total = t.time(); v.twice = t.time();
    t.restart(); v.reset = t.time();
    ef_time(f); t.start(); ef_time(g); v.third = t.stop();
    ef_time(h); v.after = t.time();
    return v;
}
TimeV r_timer(double a, double b, double c, double d, double e, double f, double g, double h) {
    return TimeV{b - a, d - c, (b - a) + (d - c), (b - a) + (d - c), 0, g - f, g - f};
}
// three cycles, read in between
TimeV t_cycles(double a, double b, double c, double d, double e, double f, double g, double h) {
    TimeV v; Timer t;
    v.reset = t.time();
    ef_time(a); t.start(); ef_time(b); v.first = t.stop(); v.total = t.time();
    ef_time(c); t.start(); ef_time(d); v.second = t.stop(); v.twice = t.time();
    ef_time(e); t.start(); ef_time(f); v.third = t.stop();
    ef_time(g); Timer u = t; ef_time(h); v.after = u.time();
    return v;
}
TimeV r_cycles(double a, double b, double c, double d, double e, double f, double g, double h) {
    return TimeV{b - a, d - c, b - a, (b - a) + (d - c), 0, (b - a) + (d - c) + (f - e), f - e};
}
}
// ---------------------------------------------------------------- messages: every rank's with its number, the head rank's once
void ef_print(std::string text, int v);
namespace efs {
int rank_() { int r = -1; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
void t_log(Logger& l, std::string m, int v) { l.log(m, v); }
void r_log(Logger& l, std::string m, int v) { ef_print("[EllipticForest " + std::to_string(rank_()) + "] " + m + "\n", v); }
void t_log_head(Logger& l, std::string m, int v) { l.logHead(m, v); l.logHead(m, v); }
void r_log_head(Logger& l, std::string m, int v) {
    if (rank_() != EllipticForest::MPI::HEAD_RANK) return;
    ef_print("[EllipticForest " + std::to_string(rank_()) + "] " + m + "\n", v);
    ef_print("[EllipticForest " + std::to_string(rank_()) + "] " + m + "\n", v);
}
void t_log_app(EllipticForestApp& app, std::string m, int v) { app.logHead(m, v); app.log(m, v); }
void r_log_app(EllipticForestApp& app, std::string m, int v) {
    if (rank_() == EllipticForest::MPI::HEAD_RANK) ef_print("[EllipticForest " + std::to_string(rank_()) + "] " + m + "\n", v);
    ef_print("[EllipticForest " + std::to_string(rank_()) + "] " + m + "\n", v);
}
}
// ---------------------------------------------------------------- the stages' timers
void ef_timer(const char* what, const char* name);
void ef_work();
namespace efs {
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
void l_setup(HPS& hps) { ef_timer("start", "setup-stage"); ef_timer("stop", "setup-stage"); }
void l_build(HPS& hps) { ef_timer("start", "build-stage"); ef_work(); ef_timer("stop", "build-stage"); }
void l_upwards(HPS& hps, std::function<void(FiniteVolumePatch&)> f) { ef_timer("start", "upwards-stage"); ef_work(); ef_timer("stop", "upwards-stage"); }
void l_upwards_fn(HPS& hps, std::function<double(double, double)> f) { ef_timer("start", "upwards-stage"); ef_work(); ef_timer("stop", "upwards-stage"); }
void l_solve(HPS& hps, std::function<void(FiniteVolumePatch&)> f) { ef_timer("start", "solve-stage"); ef_work(); ef_timer("stop", "solve-stage"); }
void l_solve_fn(HPS& hps, std::function<double(int, double, double, double*, double*)> f) { ef_timer("start", "solve-stage"); ef_work(); ef_timer("stop", "solve-stage"); }
}
