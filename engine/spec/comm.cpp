// Messages: what one rank sends and another receives through a first-in-first-out channel.
#include "ef_spec.hpp"
// the calling rank from here on, and the number of ranks
void ef_rank(int);
// a new exchange begins: no message is under way
void ef_channel();
// messages sent and never received; calls that do not match their counterpart
int ef_left();
int ef_illegal();
namespace efs {
namespace comm {
template<class T> struct Comm { T sent, got; int left, illegal; };
#define EXCHANGE(NAME, T, VIEW, VT) \
    Comm<VT> t_p2p_##NAME(T& x, T& y, int me, int peer, int tag, MPI_Comm comm) { \
        Comm<VT> v; MPI_Status s; \
        ok(x); ef_channel(); ef_rank(me); EllipticForest::MPI::send(x, peer, tag, comm); \
        ef_rank(peer); EllipticForest::MPI::receive(y, me, tag, comm, &s); \
        v.sent = VIEW(x); v.got = VIEW(y); v.left = ef_left(); v.illegal = ef_illegal(); return v; } \
    Comm<VT> r_p2p_##NAME(T& x, T& y, int me, int peer, int tag, MPI_Comm comm) { \
        ef_assume(me != peer); ef_assume(ok(x)); return Comm<VT>{VIEW(x), VIEW(x), 0, 0}; }
#define BROADCAST(NAME, T, VIEW, VT) \
    Comm<VT> t_bcast_##NAME(T& x, T& y, int root, int off, MPI_Comm comm) { \
        Comm<VT> v; \
        ok(x); ef_channel(); ef_rank(root); EllipticForest::MPI::broadcast(x, root, comm); \
        ef_rank(root + 1 + off * off); EllipticForest::MPI::broadcast(y, root, comm); \
        v.sent = VIEW(x); v.got = VIEW(y); v.left = ef_left(); v.illegal = ef_illegal(); return v; } \
    Comm<VT> r_bcast_##NAME(T& x, T& y, int root, int off, MPI_Comm comm) { \
        ef_assume(ok(x)); return Comm<VT>{VIEW(x), VIEW(x), 0, 0}; } \
    Comm<VT> t_bcastlow_##NAME(T& x, T& y, int root, MPI_Comm comm) { \
        Comm<VT> v; \
        ok(x); ef_channel(); ef_rank(root); EllipticForest::MPI::broadcast(x, root, comm); \
        ef_rank(root - 1); EllipticForest::MPI::broadcast(y, root, comm); \
        v.sent = VIEW(x); v.got = VIEW(y); v.left = ef_left(); v.illegal = ef_illegal(); return v; } \
    Comm<VT> r_bcastlow_##NAME(T& x, T& y, int root, MPI_Comm comm) { \
        ef_assume(ok(x)); return Comm<VT>{VIEW(x), VIEW(x), 0, 0}; }
#define BOTH(NAME, T, VIEW, VT) EXCHANGE(NAME, T, VIEW, VT) BROADCAST(NAME, T, VIEW, VT)
// what a user reads of each type
template<class T> T same(T& x) { return x; }
template<class T> bool ok(T&) { return true; }
inline bool ok(FiniteVolumeGrid&);
inline bool ok(FiniteVolumePatch&);
inline bool ok(Node<FiniteVolumePatch>&);
struct VecV { size size_; std::vector<double> data_; };
struct IVecV { size size_; std::vector<int> data_; };
struct MatV { size nrows_, ncols_; std::vector<double> data_; };
inline VecV vv(Vector<double>& x) { return VecV{x.size(), x.dataNoConst()}; }
inline IVecV vi(Vector<int>& x) { return IVecV{x.size(), x.dataNoConst()}; }
inline MatV mv(Matrix<double>& x) { return MatV{x.nrows(), x.ncols(), x.dataNoConst()}; }
struct GridV { size nx, ny; double x0, x1, y0, y1, dx, dy; };
inline GridV gv(FiniteVolumeGrid& g) { return GridV{g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()}; }
// a grid as its constructor makes it
inline bool ok(FiniteVolumeGrid& g) { ef_assume(g.nx() > 0 && g.ny() > 0); g = FiniteVolumeGrid(MPI_COMM_SELF, g.nx(), g.xLower(), g.xUpper(), g.ny(), g.yLower(), g.yUpper()); return true; }
struct NodeVecV { VecV data; std::string path; int level, pfirst, plast; bool leaf; };
inline NodeVecV nv(Node<Vector<double>>& n) { return NodeVecV{vv(n.data), n.path, n.level, n.pfirst, n.plast, n.leaf}; }
struct PatchV { int n_coarsens; GridV grid; MatV X, H, S, T; VecV u, g, v, f, h, w; };
inline PatchV pv(FiniteVolumePatch& p) {
    return PatchV{p.n_coarsens, gv(p.grid()), mv(p.matrixX()), mv(p.matrixH()), mv(p.matrixS()), mv(p.matrixT()),
                  vv(p.vectorU()), vv(p.vectorG()), vv(p.vectorV()), vv(p.vectorF()), vv(p.vectorH()), vv(p.vectorW())};
}
inline bool ok(FiniteVolumePatch& p) { return ok(p.grid()); }
struct NodePatchV { PatchV data; std::string path; int level, pfirst, plast; bool leaf; };
inline NodePatchV npv(Node<FiniteVolumePatch>& n) { return NodePatchV{pv(n.data), n.path, n.level, n.pfirst, n.plast, n.leaf}; }
inline bool ok(Node<FiniteVolumePatch>& n) { return ok(n.data); }

BOTH(char, char, same, char)
BOTH(wchar, wchar_t, same, wchar_t)
BOTH(short, short, same, short)
BOTH(int, int, same, int)
BOTH(long, long, same, long)
BOTH(schar, signed char, same, signed char)
BOTH(uchar, unsigned char, same, unsigned char)
BOTH(ushort, unsigned short, same, unsigned short)
BOTH(uint, unsigned int, same, unsigned int)
BOTH(ulong, unsigned long, same, unsigned long)
BOTH(ulonglong, unsigned long long, same, unsigned long long)
BOTH(float, float, same, float)
BOTH(double, double, same, double)
BOTH(longdouble, long double, same, long double)
BOTH(bool, bool, same, bool)
BOTH(string, std::string, same, std::string)
BOTH(stdvec, std::vector<double>, same, std::vector<double>)
BOTH(stdivec, std::vector<int>, same, std::vector<int>)
BOTH(vec, Vector<double>, vv, VecV)
BOTH(ivec, Vector<int>, vi, IVecV)
BOTH(mat, Matrix<double>, mv, MatV)
BOTH(nodevec, Node<Vector<double>>, nv, NodeVecV)
BROADCAST(grid, FiniteVolumeGrid, gv, GridV)
BROADCAST(patch, FiniteVolumePatch, pv, PatchV)
BROADCAST(nodepatch, Node<FiniteVolumePatch>, npv, NodePatchV)

// two values sent one after the other on one tag arrive in order
struct TwoV { VecV a; MatV b; std::string c; int left, illegal; };
TwoV t_sequence(Vector<double>& a, Matrix<double>& b, std::string& c, int me, int peer, int tag, MPI_Comm comm) {
    TwoV v; MPI_Status s; Vector<double> a2; Matrix<double> b2; std::string c2 = "something";
    ef_channel(); ef_rank(me);
    EllipticForest::MPI::send(a, peer, tag, comm); EllipticForest::MPI::send(b, peer, tag, comm); EllipticForest::MPI::send(c, peer, tag, comm);
    ef_rank(peer);
    EllipticForest::MPI::receive(a2, me, tag, comm, &s); EllipticForest::MPI::receive(b2, me, tag, comm, &s); EllipticForest::MPI::receive(c2, me, tag, comm, &s);
    v.a = vv(a2); v.b = mv(b2); v.c = c2; v.left = ef_left(); v.illegal = ef_illegal(); return v;
}
TwoV r_sequence(Vector<double>& a, Matrix<double>& b, std::string& c, int me, int peer, int tag, MPI_Comm comm) {
    ef_assume(me != peer); return TwoV{vv(a), mv(b), c, 0, 0};
}

// the gathering wrappers hand the library what their parameters promise
struct GatherD { std::vector<double> got; int illegal; };
struct GatherI { std::vector<int> got; int illegal; };
#define GATHER(NAME, T, ET, TYPE, OUT, DATA) \
    OUT t_gather_##NAME(T& x, T& y, int count, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allgather(x, y, count, comm); return OUT{y DATA, ef_illegal()}; } \
    OUT r_gather_##NAME(T& x, T& y, int count, MPI_Comm comm) { ef_channel(); \
        MPI_Allgather((x DATA).data(), (x DATA).size(), TYPE, (y DATA).data(), count, TYPE, comm); return OUT{y DATA, ef_illegal()}; } \
    OUT t_gatherv_##NAME(T& x, T& y, std::vector<int> counts, std::vector<int> displs, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allgatherv(x, y, counts, displs, comm); return OUT{y DATA, ef_illegal()}; } \
    OUT r_gatherv_##NAME(T& x, T& y, std::vector<int> counts, std::vector<int> displs, MPI_Comm comm) { ef_channel(); \
        MPI_Allgatherv((x DATA).data(), (x DATA).size(), TYPE, (y DATA).data(), counts.data(), displs.data(), TYPE, comm); return OUT{y DATA, ef_illegal()}; }
GATHER(stdvec, std::vector<double>, double, MPI_DOUBLE, GatherD, )
GATHER(stdivec, std::vector<int>, int, MPI_INT, GatherI, )
GATHER(vec, Vector<double>, double, MPI_DOUBLE, GatherD, .dataNoConst())
struct GatherS { double got; int illegal; };
GatherS t_gatherv_double(double& x, double& y, std::vector<int> counts, std::vector<int> displs, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allgatherv(x, y, counts, displs, comm); return GatherS{y, ef_illegal()}; }
GatherS r_gatherv_double(double& x, double& y, std::vector<int> counts, std::vector<int> displs, MPI_Comm comm) { ef_channel(); MPI_Allgatherv(&x, 1, MPI_DOUBLE, &y, counts.data(), displs.data(), MPI_DOUBLE, comm); return GatherS{y, 0}; }
GatherS t_gather_double(double& x, double& y, int count, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allgather(x, y, count, comm); return GatherS{y, ef_illegal()}; }
GatherS r_gather_double(double& x, double& y, int count, MPI_Comm comm) { ef_channel(); MPI_Allgather(&x, 1, MPI_DOUBLE, &y, count, MPI_DOUBLE, comm); return GatherS{y, 0}; }
struct RedD { double sent, got; int illegal; };
struct RedI { int sent, got; int illegal; };
struct RedV { std::vector<double> sent, got; int illegal; };
RedD t_reduce_double(double& x, double& y, MPI_Op op, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allreduce(x, y, op, comm); return RedD{x, y, ef_illegal()}; }
RedD r_reduce_double(double& x, double& y, MPI_Op op, MPI_Comm comm) { ef_channel(); double z = x; MPI_Allreduce(&x, &y, 1, MPI_DOUBLE, op, comm); return RedD{z, y, 0}; }
RedI t_reduce_int(int& x, int& y, MPI_Op op, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allreduce(x, y, op, comm); return RedI{x, y, ef_illegal()}; }
RedI r_reduce_int(int& x, int& y, MPI_Op op, MPI_Comm comm) { ef_channel(); int z = x; MPI_Allreduce(&x, &y, 1, MPI_INT, op, comm); return RedI{z, y, 0}; }
RedV t_reduce_stdvec(std::vector<double>& x, std::vector<double>& y, MPI_Op op, MPI_Comm comm) { ef_channel(); EllipticForest::MPI::allreduce(x, y, op, comm); return RedV{x, y, ef_illegal()}; }
RedV r_reduce_stdvec(std::vector<double>& x, std::vector<double>& y, MPI_Op op, MPI_Comm comm) {
    ef_assume(x.size() == y.size()); ef_channel(); std::vector<double> z = x; MPI_Allreduce(x.data(), y.data(), x.size(), MPI_DOUBLE, op, comm); return RedV{z, y, 0}; }
}
}
