#include "ef_spec.hpp"
namespace efs {
using V = Vector<double>;
using VI = Vector<int>;
using M = Matrix<double>;
#define VD(v) (v).data_
#define VN(v) (v).size_

// ------------------------------------------------------------------ vector: construction
Vec v_ctor0() { return vec(0); }
Vec v_ctor_n(size n) { return vec(n); }
Vec v_ctor_nv(size n, double x) { return Vec{n, std::vector<double>(n, x)}; }
Vec v_ctor_vec(std::vector<double> d) { return Vec{d.size(), d}; }
Vec v_ctor_copy(const V& v) { return Vec{VN(v), VD(v)}; }
Vec v_assign(V& self, const V& v) { VN(self) = VN(v); VD(self) = VD(v); return Vec{VN(v), VD(v)}; }

// ------------------------------------------------------------------ vector: access
double v_get(V& self, size i) { require(i < VN(self)); return VD(self)[i]; }
size v_size(const V& self) { return VN(self); }
std::vector<double> v_data(const V& self) { return VD(self); }
double v_first(V& self) { ef_assume(VN(self) > 0); return VD(self)[0]; }
Vec v_range(V& self, size a, size b) {
    ef_assume(a <= b);
    require(b < VN(self));
    Vec r = vec(b - a + 1);
    for (size i = 0; i < b - a + 1; i++) r.data_[i] = VD(self)[a + i];
    return r;
}
Vec v_segment(V& self, size a, size n) {
    require(a + n <= VN(self));
    Vec r = vec(n);
    for (size i = 0; i < n; i++) r.data_[i] = VD(self)[a + i];
    return r;
}
void v_setsegment(V& self, size a, const V& v) {
    require(a + VN(v) <= VN(self));
    for (size i = 0; i < VN(v); i++) VD(self)[a + i] = VD(v)[i];
}
void v_append(V& self, const V& v) {
    std::vector<double> d(VN(self) + VN(v));
    for (size i = 0; i < VN(self); i++) d[i] = VD(self)[i];
    for (size i = 0; i < VN(v); i++) d[VN(self) + i] = VD(v)[i];
    VN(self) = VN(self) + VN(v);
    VD(self) = d;
}
Vec v_gather(V& self, VI I) {
    ef_assume(VN(I) <= VN(self));
    for (size i = 0; i < VN(I); i++) require(VD(I)[i] >= 0 && VD(I)[i] < VN(self));
    Vec r = vec(VN(I));
    for (size i = 0; i < VN(I); i++) r.data_[i] = VD(self)[VD(I)[i]];
    return r;
}
Vec v_permute(V& self, VI I, VI S) {
    // I is a permutation of the block numbers, S the block sizes
    for (size i = 0; i < VN(S); i++) ef_assume(VD(S)[i] >= 0);
    size total = 0;
    for (size i = 0; i < VN(S); i++) total += VD(S)[i];
    require(total == VN(self));
    ef_assume(VN(I) == VN(S));
    size sum = 0;
    for (size i = 0; i < VN(I); i++) {
        ef_assume(VD(I)[i] >= 0 && VD(I)[i] < VN(S));
        sum += VD(S)[VD(I)[i]];
    }
    ef_assume(sum == total);
    Vec r = vec(VN(self));
    size at = 0;
    for (size i = 0; i < VN(I); i++) {
        size from = 0;
        for (size k = 0; k < VD(I)[i]; k++) from += VD(S)[k];
        for (size k = 0; k < VD(S)[VD(I)[i]]; k++) { r.data_[at] = VD(self)[from + k]; at++; }
    }
    return r;
}

// ------------------------------------------------------------------ vector: arithmetic
Vec v_neg(V& self) { Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = -VD(self)[i]; return r; }
Vec v_add(V& self, const V& b) { require(VN(b) == VN(self)); Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] + VD(b)[i]; return r; }
Vec v_sub(V& self, const V& b) { require(VN(b) == VN(self)); Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] - VD(b)[i]; return r; }
Vec v_adds(V& self, double b) { Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] + b; return r; }
Vec v_subs(V& self, double b) { Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] - b; return r; }
Vec v_muls(V& self, double b) { Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] * b; return r; }
Vec v_divs(V& self, double b) { ef_assume(b != 0); Vec r = vec(VN(self)); for (size i = 0; i < VN(self); i++) r.data_[i] = VD(self)[i] / b; return r; }
Vec v_addeq(V& self, const V& b) { Vec r = v_add(self, b); VD(self) = r.data_; return r; }
Vec v_subeq(V& self, const V& b) { Vec r = v_sub(self, b); VD(self) = r.data_; return r; }
Vec v_addseq(V& self, double b) { Vec r = v_adds(self, b); VD(self) = r.data_; return r; }
Vec v_subseq(V& self, double b) { Vec r = v_subs(self, b); VD(self) = r.data_; return r; }
Vec v_mulseq(V& self, double b) { Vec r = v_muls(self, b); VD(self) = r.data_; return r; }
Vec v_divseq(V& self, double b) { Vec r = v_divs(self, b); VD(self) = r.data_; return r; }
double v_dot(V& self, V& b) { require(VN(b) == VN(self)); double s = 0; for (size i = 0; i < VN(self); i++) s += VD(self)[i] * VD(b)[i]; return s; }
Vec v_smul(double a, V v) { Vec r = vec(VN(v)); for (size i = 0; i < VN(v); i++) r.data_[i] = a * VD(v)[i]; return r; }
Vec v_mul(V a, V b) { require(VN(a) == VN(b)); Vec r = vec(VN(a)); for (size i = 0; i < VN(a); i++) r.data_[i] = VD(a)[i] * VD(b)[i]; return r; }
Vec v_div(V a, V b) {
    require(VN(a) == VN(b));
    for (size i = 0; i < VN(b); i++) ef_assume(VD(b)[i] != 0);
    Vec r = vec(VN(a));
    for (size i = 0; i < VN(a); i++) r.data_[i] = VD(a)[i] / VD(b)[i];
    return r;
}
IVec v_irange(int a, int b) { ef_assume(a <= b + 1); IVec r = ivec(b - a + 1); for (int i = 0; i < b - a + 1; i++) r.data_[i] = a + i; return r; }
Vec v_concat(std::vector<V> vs) {
    size n = 0;
    for (size k = 0; k < vs.size(); k++) n += VN(vs[k]);
    Vec r = vec(n);
    size at = 0;
    for (size k = 0; k < vs.size(); k++) for (size i = 0; i < VN(vs[k]); i++) { r.data_[at] = VD(vs[k])[i]; at++; }
    return r;
}
Vec v_concatl(std::initializer_list<V> vs) { return v_concat(std::vector<V>(vs)); }
double v_infnorm(V& a, V& b) { require(VN(a) == VN(b)); double m = 0; for (size i = 0; i < VN(a); i++) m = fmax(m, fabs(VD(a)[i] - VD(b)[i])); return m; }
double v_l2norm(V& a, V& b) { require(VN(a) == VN(b)); double s = 0; for (size i = 0; i < VN(a); i++) s += (VD(a)[i] - VD(b)[i]) * (VD(a)[i] - VD(b)[i]); return sqrt(s); }

// ------------------------------------------------------------------ matrix: construction
#define MR(A) (A).nrows_
#define MC(A) (A).ncols_
#define MD(A) (A).data_
#define AT(A, i, j) (A).data_[(i) * (A).ncols_ + (j)]
Mat m_ctor0() { return mat(0, 0); }
Mat m_ctor_nm(size n, size m) { return mat(n, m); }
Mat m_ctor_nmv(size n, size m, double x) { return Mat{n, m, std::vector<double>(n * m, x)}; }
Mat m_ctor_data(size n, size m, std::vector<double> d) { ef_assume(d.size() == n * m); return Mat{n, m, d}; }
Mat m_ctor_copy(const M& A) { return Mat{MR(A), MC(A), MD(A)}; }
Mat m_assign(M& self, const M& A) { MR(self) = MR(A); MC(self) = MC(A); MD(self) = MD(A); return Mat{MR(A), MC(A), MD(A)}; }

// ------------------------------------------------------------------ matrix: access
size m_nrows(const M& self) { return MR(self); }
size m_ncols(const M& self) { return MC(self); }
std::vector<double> m_data(const M& self) { return MD(self); }
double m_get(M& self, size i, size j) { require(i < MR(self) && j < MC(self)); return AT(self, i, j); }
Mat m_sub4(M& self, size a, size b, size c, size d) {
    ef_assume(a <= b && c <= d);
    require(b < MR(self) && d < MC(self));
    Mat r = mat(b - a + 1, d - c + 1);
    for (size i = 0; i < b - a + 1; i++) for (size j = 0; j < d - c + 1; j++) AT(r, i, j) = AT(self, a + i, c + j);
    return r;
}
Vec m_row(M& self, size i) { ef_assume(MC(self) > 0); require(i < MR(self)); Vec r = vec(MC(self)); for (size j = 0; j < MC(self); j++) r.data_[j] = AT(self, i, j); return r; }
Vec m_col(M& self, size j) { ef_assume(MR(self) > 0); require(j < MC(self)); Vec r = vec(MR(self)); for (size i = 0; i < MR(self); i++) r.data_[i] = AT(self, i, j); return r; }
Mat m_gather(M& self, VI I, VI J) {
    ef_assume(VN(I) <= MR(self) && VN(J) <= MC(self) && VN(I) > 0 && VN(J) > 0);
    for (size i = 0; i < VN(I); i++) require(VD(I)[i] >= 0 && VD(I)[i] < MR(self));
    for (size j = 0; j < VN(J); j++) require(VD(J)[j] >= 0 && VD(J)[j] < MC(self));
    Mat r = mat(VN(I), VN(J));
    for (size i = 0; i < VN(I); i++) for (size j = 0; j < VN(J); j++) AT(r, i, j) = AT(self, VD(I)[i], VD(J)[j]);
    return r;
}
void m_setrow(M& self, size i, V& v) { require(i < MR(self) && VN(v) == MC(self)); for (size j = 0; j < MC(self); j++) AT(self, i, j) = VD(v)[j]; }
void m_setcol(M& self, size j, V& v) { require(j < MC(self) && VN(v) == MR(self)); for (size i = 0; i < MR(self); i++) AT(self, i, j) = VD(v)[i]; }
// the index list that puts the blocks of sizes S in the order I
std::vector<int> blockorder(const VI& I, const VI& S, size n) {
    for (size i = 0; i < VN(S); i++) ef_assume(VD(S)[i] >= 0);
    size total = 0;
    for (size i = 0; i < VN(S); i++) total += VD(S)[i];
    require(total == n);
    ef_assume(VN(I) == VN(S));
    size sum = 0;
    for (size i = 0; i < VN(I); i++) { ef_assume(VD(I)[i] >= 0 && VD(I)[i] < VN(S)); sum += VD(S)[VD(I)[i]]; }
    ef_assume(sum == total);
    std::vector<int> r(n);
    size at = 0;
    for (size i = 0; i < VN(I); i++) {
        size from = 0;
        for (size k = 0; k < VD(I)[i]; k++) from += VD(S)[k];
        for (size k = 0; k < VD(S)[VD(I)[i]]; k++) { r[at] = from + k; at++; }
    }
    return r;
}
Mat m_permute(M& self, VI I, VI J, VI R, VI C) {
    std::vector<int> p = blockorder(I, R, MR(self));
    std::vector<int> q = blockorder(J, C, MC(self));
    Mat r = mat(MR(self), MC(self));
    for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, p[i], q[j]);
    return r;
}
Mat m_block(M& self, size r0, size c0, size n, size m) {
    require(r0 + n <= MR(self) && c0 + m <= MC(self));
    Mat r = mat(n, m);
    for (size i = 0; i < n; i++) for (size j = 0; j < m; j++) AT(r, i, j) = AT(self, r0 + i, c0 + j);
    return r;
}
void m_setblock(M& self, size r0, size c0, M& A) {
    require(r0 + MR(A) <= MR(self) && c0 + MC(A) <= MC(self));
    for (size i = 0; i < MR(A); i++) for (size j = 0; j < MC(A); j++) AT(self, r0 + i, c0 + j) = AT(A, i, j);
}
Mat m_transpose(M& self) { Mat r = mat(MC(self), MR(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, j, i) = AT(self, i, j); return r; }

// ------------------------------------------------------------------ matrix: arithmetic
Mat m_neg(M& self) { Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = -AT(self, i, j); return r; }
Mat m_add(M& self, M& b) { require(MR(b) == MR(self) && MC(b) == MC(self)); Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, i, j) + AT(b, i, j); return r; }
Mat m_sub(M& self, M& b) { require(MR(b) == MR(self) && MC(b) == MC(self)); Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, i, j) - AT(b, i, j); return r; }
Mat m_adds(M& self, double b) { Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, i, j) + b; return r; }
Mat m_subs(M& self, double b) { Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, i, j) - b; return r; }
Mat m_muls(M& self, double b) { Mat r = mat(MR(self), MC(self)); for (size i = 0; i < MR(self); i++) for (size j = 0; j < MC(self); j++) AT(r, i, j) = AT(self, i, j) * b; return r; }
Mat m_addeq(M& self, M& b) { Mat r = m_add(self, b); MD(self) = r.data_; return r; }
Mat m_subeq(M& self, M& b) { Mat r = m_sub(self, b); MD(self) = r.data_; return r; }
Mat m_addseq(M& self, double b) { Mat r = m_adds(self, b); MD(self) = r.data_; return r; }
Mat m_subseq(M& self, double b) { Mat r = m_subs(self, b); MD(self) = r.data_; return r; }
Mat m_mulseq(M& self, double b) { Mat r = m_muls(self, b); MD(self) = r.data_; return r; }
Mat m_smul(double a, M& A) { return m_muls(A, a); }
Mat m_blockdiag(std::vector<M> ds) {
    size n = 0, m = 0;
    for (size k = 0; k < ds.size(); k++) { n += MR(ds[k]); m += MC(ds[k]); }
    Mat r = mat(n, m);
    size r0 = 0, c0 = 0;
    for (size k = 0; k < ds.size(); k++) {
        for (size i = 0; i < MR(ds[k]); i++) for (size j = 0; j < MC(ds[k]); j++) AT(r, r0 + i, c0 + j) = AT(ds[k], i, j);
        r0 += MR(ds[k]);
        c0 += MC(ds[k]);
    }
    return r;
}
double m_infnorm(M& A, M& B) {
    require(MR(A) == MR(B) && MC(A) == MC(B));
    double m = 0;
    for (size i = 0; i < MR(A); i++) for (size j = 0; j < MC(A); j++) m = fmax(m, fabs(AT(A, i, j) - AT(B, i, j)));
    return m;
}

// ------------------------------------------------------------------ special matrices
Mat s_identity(size n) { Mat r = mat(n, n); for (size i = 0; i < n; i++) AT(r, i, i) = 1; return r; }
Mat s_diag(size n, double x) { Mat r = mat(n, n); for (size i = 0; i < n; i++) AT(r, i, i) = x; return r; }
Mat s_diagv(V v) { Mat r = mat(VN(v), VN(v)); for (size i = 0; i < VN(v); i++) AT(r, i, i) = VD(v)[i]; return r; }
// average of the two fine cells
Mat s_fine2coarse(size n) { Mat r = mat(n, 2 * n); for (size i = 0; i < n; i++) { AT(r, i, 2 * i) = 0.5; AT(r, i, 2 * i + 1) = 0.5; } return r; }
// linear between coarse cell centres, quadratic extrapolation in the first and last fine cell
Mat s_coarse2fine(size n) {
    ef_assume(n >= 6 && n % 2 == 0);
    size m = n / 2;
    Mat r = mat(n, m);
    for (size k = 0; k + 1 < m; k++) {
        AT(r, 2 * k + 1, k) = 0.75;
        AT(r, 2 * k + 1, k + 1) = 0.25;
        AT(r, 2 * k + 2, k) = 0.25;
        AT(r, 2 * k + 2, k + 1) = 0.75;
    }
    AT(r, 0, 0) = 1.40625;
    AT(r, 0, 1) = -0.5625;
    AT(r, 0, 2) = 0.15625;
    AT(r, n - 1, m - 3) = 0.15625;
    AT(r, n - 1, m - 2) = -0.5625;
    AT(r, n - 1, m - 1) = 1.40625;
    return r;
}
}
