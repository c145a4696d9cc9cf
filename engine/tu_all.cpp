// Instantiation unit: makes the front end instantiate every template of the library, so that the resolved
// bodies can be analysed. It is only parsed; nothing here is ever compiled to code or run.
#include "EllipticForest.hpp"
#include "Patches/FiniteVolume/FiniteVolume.hpp"

namespace EllipticForest {
template class Vector<double>;
template class Vector<int>;
template class Matrix<double>;
template class Matrix<int>;
template class IdentityMatrix<double>;
template class DiagonalMatrix<double>;
template class InterpolationMatrixFine2Coarse<double>;
template class InterpolationMatrixCoarse2Fine<double>;
template class ParallelVector<double>;
template class ParallelMatrix<double>;
template class ParallelIdentityMatrix<double>;
template class DataCache<Matrix<double>>;
template class Node<FiniteVolumePatch>;
template class Quadtree<FiniteVolumePatch>;
template class Mesh<FiniteVolumePatch>;
template class HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
}

namespace ef_instantiate {
namespace EFM = EllipticForest::MPI;
using namespace EllipticForest;
template<class T> void vec(Vector<T>& a, Vector<T>& b, T s, std::vector<Vector<T>> vs, std::initializer_list<Vector<T>> il) {
    (void) (s * a); (void) (a / b); (void) concatenate(vs); (void) concatenate(il);
    (void) vectorInfNorm(a, b); (void) vectorL2Norm(a, b);
}
template<class T> void vecmul(Vector<T> a, Vector<T> b) { (void) EllipticForest::operator*(a, b); }
void vecs(Vector<double>& a, Vector<int>& b, std::vector<Vector<double>> va, std::vector<Vector<int>> vb, std::initializer_list<Vector<double>> ia, std::initializer_list<Vector<int>> ib) {
    vec<double>(a, a, 1.0, va, ia); vec<int>(b, b, 1, vb, ib); vecmul<double>(a, a);
    (void) vectorRange(0, 1);
}
void mats(Matrix<double>& A, Matrix<double>& B, Vector<double>& x, std::vector<Matrix<double>> ds) {
    (void) (A + B); (void) (A - B); (void) (2.0 * A); (void) (A * B); (void) (A * x);
    (void) solve(A, B); (void) solve(A, x); (void) blockDiagonalMatrix(ds); (void) matrixInfNorm(A, B);
}
template<class T> void comm(T& t, MPI_Comm c, MPI_Status* s) { EFM::send(t, 0, 0, c); EFM::receive(t, 0, 0, c, s); EFM::broadcast(t, 0, c); }
void comms(MPI_Comm c, MPI_Status* s, int i, double d, bool b, std::string str, std::vector<int> vi, std::vector<double> vd,
           Vector<double> v, Vector<int> w, Matrix<double> m, FiniteVolumeGrid g, FiniteVolumePatch p, Node<FiniteVolumePatch> n) {
    comm(i, c, s); comm(d, c, s); comm(b, c, s); comm(str, c, s); comm(vi, c, s); comm(vd, c, s); comm(v, c, s); comm(w, c, s); comm(m, c, s);
    comm(g, c, s); comm(p, c, s); comm(n, c, s);
}
void coll(MPI_Comm c, int i, double d, std::vector<int> vi, std::vector<double> vd, Vector<double> v) {
    EFM::allreduce(i, i, MPI_SUM, c); EFM::allreduce(d, d, MPI_SUM, c); EFM::allgather(vi, vi, 1, c); EFM::allgather(vd, vd, 1, c); EFM::allgather(v, v, 1, c);
}
void collv(MPI_Comm c, std::vector<int> vi, std::vector<double> vd, Vector<double> v, std::vector<int> a, std::vector<int> b) {
    EFM::allgatherv(vi, vi, a, b, c); EFM::allgatherv(vd, vd, a, b, c); EFM::allgatherv(v, v, a, b, c);
}
}
