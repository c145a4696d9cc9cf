#include "ef_spec.hpp"
// X (row-major, n x nrhs) with A X = B, A row-major n x n
std::vector<double> ef_linsolve(std::size_t n, std::size_t nrhs, std::vector<double> A, std::vector<double> B);
namespace efs {
using V = Vector<double>;
using M = Matrix<double>;
Vec b_matvec(M& A, V& x) {
    require(A.ncols_ == x.size_);
    ef_assume(A.ncols_ > 0);
    Vec y = vec(A.nrows_);
    for (size i = 0; i < A.nrows_; i++) {
        double s = 0;
        for (size j = 0; j < A.ncols_; j++) s += A.data_[i * A.ncols_ + j] * x.data_[j];
        y.data_[i] = s;
    }
    return y;
}
Mat b_matmat(M& A, M& B) {
    require(A.ncols_ == B.nrows_);
    ef_assume(A.nrows_ > 0 && A.ncols_ > 0 && B.ncols_ > 0);
    Mat C = mat(A.nrows_, B.ncols_);
    for (size i = 0; i < A.nrows_; i++)
        for (size j = 0; j < B.ncols_; j++) {
            double s = 0;
            for (size k = 0; k < A.ncols_; k++) s += A.data_[i * A.ncols_ + k] * B.data_[k * B.ncols_ + j];
            C.data_[i * B.ncols_ + j] = s;
        }
    return C;
}
Vec b_solve(M& A, V& b) {
    require(A.nrows_ == A.ncols_);
    require(A.nrows_ == b.size_);
    ef_assume(A.nrows_ > 0);
    return Vec{b.size_, ef_linsolve(A.nrows_, 1, A.data_, b.data_)};
}
Mat b_solvem(M& A, M& B) {
    require(A.nrows_ == A.ncols_);
    require(A.nrows_ == B.nrows_);
    ef_assume(A.nrows_ > 0 && B.ncols_ > 0);
    return Mat{B.nrows_, B.ncols_, ef_linsolve(A.nrows_, B.ncols_, A.data_, B.data_)};
}
}
