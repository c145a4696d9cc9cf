// The HPS method written as block elimination, straight from the definitions (no stored blocks, no in-place steps).
#include "ef_spec.hpp"
namespace efs {
using P = FiniteVolumePatch;
using V = Vector<double>;
using M = Matrix<double>;
using HPS = HPSAlgorithm<FiniteVolumeGrid, FiniteVolumeSolver, FiniteVolumePatch, double>;
using I = Vector<int>;

inline bool flag(const char* name) { return std::get<bool>(EllipticForestApp::getInstance().options[name]); }
inline int pow2(int n) { return (int) pow(2, n); }
inline int levels(int n) { return (int) log2(n); }

// side s (0 west, 1 east, 2 south, 3 north) of a boundary vector with m entries per side
inline I side(int s, int m) { return vectorRange(s * m, s * m + m - 1); }
inline I sides(int s, int t, int m) { return concatenate({side(s, m), side(t, m)}); }

// one factor-two coarsening / refinement of a boundary vector with nf (fine) entries per side
inline M restriction(int nf) { InterpolationMatrixFine2Coarse<double> L(nf / 2); std::vector<M> d = {L, L, L, L}; return blockDiagonalMatrix(d); }
inline M prolongation(int nf) { InterpolationMatrixCoarse2Fine<double> L(nf); std::vector<M> d = {L, L, L, L}; return blockDiagonalMatrix(d); }

inline int nmin(P& a, P& b, P& c, P& d) { int r = a.grid().nx(); if (b.grid().nx() < r) r = b.grid().nx(); if (c.grid().nx() < r) r = c.grid().nx(); if (d.grid().nx() < r) r = d.grid().nx(); return r; }

// brings the operator of a child to the size of the smallest sibling
inline void coarse_op(P& p, int small) {
    int n = levels(p.grid().nx()) - levels(small);
    int size = p.grid().nx();
    for (int k = 0; k < n; k++) {
        M R = restriction(size), L = prolongation(size);
        p.matrixT() = R * p.matrixT();
        p.matrixT() = p.matrixT() * L;
        size = size / 2;
    }
    p.n_coarsens = n;
}
inline void valid(P& p) {
    // a child: its operator matches its grid and has not been coarsened yet
    ef_assume(p.grid().nx() >= 1 && p.grid().nx() == pow2(levels(p.grid().nx())));
    ef_assume(p.matrixT().nRows() == 4 * p.grid().nx() && p.matrixT().nCols() == 4 * p.grid().nx());
}

struct Merge { M X, S, T, H; };

// eliminates the interfaces [ag, bo, ab, go] of the children (m entries per side, outward normal derivatives)
inline Merge eliminate(M& Ta, M& Tb, M& Tg, M& To, int m) {
    I W = side(0, m), E = side(1, m), S = side(2, m), N = side(3, m);
    I a = sides(0, 2, m), b = sides(1, 2, m), g = sides(0, 3, m), o = sides(1, 3, m);
    // flux balance T_x u_x + T_y u_y = 0 across each interface, unknowns u on [ag, bo, ab, go], data on [a, b, g, o]
    M X(4 * m, 4 * m, 0), R(4 * m, 8 * m, 0);
    M t;
    // the difference of the two outward derivatives in the data's own orientation: T_x - T_y acting on u
    // row ag: alpha's north against gamma's south
    M ag = Ta(N, N), ga = Tg(S, S); t = ag - ga; X.setBlock(0, 0, t);
    M ag_ab = Ta(N, E); X.setBlock(0, 2 * m, ag_ab);
    M ga_go = Tg(S, E); t = -ga_go; X.setBlock(0, 3 * m, t);
    M ag_a = Ta(N, a); t = -ag_a; R.setBlock(0, 0, t);
    M ga_g = Tg(S, g); R.setBlock(0, 4 * m, ga_g);
    // row bo: beta's north against omega's south
    M bo = Tb(N, N), ob = To(S, S); t = bo - ob; X.setBlock(m, m, t);
    M bo_ba = Tb(N, W); X.setBlock(m, 2 * m, bo_ba);
    M ob_og = To(S, W); t = -ob_og; X.setBlock(m, 3 * m, t);
    M bo_b = Tb(N, b); t = -bo_b; R.setBlock(m, 2 * m, t);
    M ob_o = To(S, o); R.setBlock(m, 6 * m, ob_o);
    // row ab: alpha's east against beta's west
    M ab = Ta(E, E), ba = Tb(W, W); t = ab - ba; X.setBlock(2 * m, 2 * m, t);
    M ab_ag = Ta(E, N); X.setBlock(2 * m, 0, ab_ag);
    M ba_bo = Tb(W, N); t = -ba_bo; X.setBlock(2 * m, m, t);
    M ab_a = Ta(E, a); t = -ab_a; R.setBlock(2 * m, 0, t);
    M ba_b = Tb(W, b); R.setBlock(2 * m, 2 * m, ba_b);
    // row go: gamma's east against omega's west
    M go = Tg(E, E), og = To(W, W); t = go - og; X.setBlock(3 * m, 3 * m, t);
    M go_ga = Tg(E, S); X.setBlock(3 * m, 0, go_ga);
    M og_ob = To(W, S); t = -og_ob; X.setBlock(3 * m, m, t);
    M go_g = Tg(E, g); t = -go_g; R.setBlock(3 * m, 4 * m, t);
    M og_o = To(W, o); R.setBlock(3 * m, 6 * m, og_o);
    M Q = solve(X, R);
    // outward derivative on the union's boundary
    M H(8 * m, 4 * m, 0), D(8 * m, 8 * m, 0);
    M aa = Ta(a, a), bb = Tb(b, b), gg = Tg(g, g), oo = To(o, o);
    D.setBlock(0, 0, aa); D.setBlock(2 * m, 2 * m, bb); D.setBlock(4 * m, 4 * m, gg); D.setBlock(6 * m, 6 * m, oo);
    M a_ag = Ta(a, N), a_ab = Ta(a, E), b_bo = Tb(b, N), b_ba = Tb(b, W), g_ga = Tg(g, S), g_go = Tg(g, E), o_ob = To(o, S), o_og = To(o, W);
    H.setBlock(0, 0, a_ag); H.setBlock(0, 2 * m, a_ab);
    H.setBlock(2 * m, m, b_bo); H.setBlock(2 * m, 2 * m, b_ba);
    H.setBlock(4 * m, 0, g_ga); H.setBlock(4 * m, 3 * m, g_go);
    H.setBlock(6 * m, m, o_ob); H.setBlock(6 * m, 3 * m, o_og);
    M HQ = H * Q;
    M T = D + HQ;
    // exterior order [aW aS bE bS gW gN oE oN] to west, east, south, north with increasing coordinate
    I order = concatenate({vectorRange(0 * m, 1 * m - 1), vectorRange(4 * m, 5 * m - 1), vectorRange(2 * m, 3 * m - 1), vectorRange(6 * m, 7 * m - 1),
                           vectorRange(1 * m, 2 * m - 1), vectorRange(3 * m, 4 * m - 1), vectorRange(5 * m, 6 * m - 1), vectorRange(7 * m, 8 * m - 1)});
    I all = vectorRange(0, 4 * m - 1);
    return Merge{X, Q(all, order), T(order, order), H};
}

void h_merge(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) {
    valid(alpha); valid(beta); valid(gamma); valid(omega);
    int m = nmin(alpha, beta, gamma, omega);
    coarse_op(alpha, m); coarse_op(beta, m); coarse_op(gamma, m); coarse_op(omega, m);
    Merge r = eliminate(alpha.matrixT(), beta.matrixT(), gamma.matrixT(), omega.matrixT(), m);
    tau.matrixX() = r.X;
    tau.matrixS() = r.S;
    tau.matrixT() = r.T;
    tau.matrixH() = r.H;
    tau.grid() = FiniteVolumeGrid(MPI_COMM_SELF, 2 * m, alpha.grid().xLower(), beta.grid().xUpper(), 2 * m, alpha.grid().yLower(), gamma.grid().yUpper());
}

inline void coarse_vec(P& p, int m) {
    int size = p.grid().nx();
    for (int k = 0; k < p.n_coarsens; k++) {
        M R = restriction(size);
        p.vectorH() = R * p.vectorH();
        size = size / 2;
    }
}
inline void merged(P& p, int m) {
    // a child after the build stage: operator already coarsened, load data still at the patch's resolution
    ef_assume(p.n_coarsens >= 0 && p.n_coarsens <= 3);
    ef_assume(p.grid().nx() == m * pow2(p.n_coarsens));
    ef_assume(p.matrixT().nRows() == 4 * m && p.matrixT().nCols() == 4 * m);
}

void h_upwards(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) {
    if (!flag("homogeneous-rhs")) {
        int m = alpha.matrixT().nRows() / 4;
        ef_assume(m >= 1);
        merged(alpha, m); merged(beta, m); merged(gamma, m); merged(omega, m);
        ef_assume(alpha.vectorH().size() == 4 * alpha.grid().nx() && beta.vectorH().size() == 4 * beta.grid().nx());
        ef_assume(gamma.vectorH().size() == 4 * gamma.grid().nx() && omega.vectorH().size() == 4 * omega.grid().nx());
        ef_assume(tau.matrixH().nRows() == 8 * m && tau.matrixH().nCols() == 4 * m);
        coarse_vec(alpha, m); coarse_vec(beta, m); coarse_vec(gamma, m); coarse_vec(omega, m);
        I W = side(0, m), E = side(1, m), S = side(2, m), N = side(3, m);
        Merge r = eliminate(alpha.matrixT(), beta.matrixT(), gamma.matrixT(), omega.matrixT(), m);
        V &ha = alpha.vectorH(), &hb = beta.vectorH(), &hg = gamma.vectorH(), &ho = omega.vectorH();
        V agg = hg(S), aga = ha(N), boo = ho(S), bob = hb(N), abb = hb(W), aba = ha(E), goo = ho(W), gog = hg(E);
        V ag = agg - aga, bo = boo - bob, ab = abb - aba, go = goo - gog;
        V jump = concatenate({ag, bo, ab, go});
        V w = solve(r.X, jump);
        V Hw = tau.matrixH() * w;
        I a = sides(0, 2, m), b = sides(1, 2, m), g = sides(0, 3, m), o = sides(1, 3, m);
        V ext = concatenate({ha(a), hb(b), hg(g), ho(o)});
        V h = ext + Hw;
        I order = concatenate({vectorRange(0 * m, 1 * m - 1), vectorRange(4 * m, 5 * m - 1), vectorRange(2 * m, 3 * m - 1), vectorRange(6 * m, 7 * m - 1),
                               vectorRange(1 * m, 2 * m - 1), vectorRange(3 * m, 4 * m - 1), vectorRange(5 * m, 6 * m - 1), vectorRange(7 * m, 8 * m - 1)});
        tau.vectorW() = w;
        tau.vectorH() = h(order);
    }
}

void h_split(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) {
    int m = alpha.grid().nx() / pow2(alpha.n_coarsens);
    ef_assume(m >= 1 && m * pow2(alpha.n_coarsens) == alpha.grid().nx() && alpha.n_coarsens >= 0 && alpha.n_coarsens <= 3);
    ef_assume(tau.n_coarsens >= 0 && tau.n_coarsens <= 3);
    ef_assume(tau.grid().nx() == 2 * m);
    // the data arrives at the size the parent was coarsened to
    ef_assume(2 * m == (2 * m / pow2(tau.n_coarsens)) * pow2(tau.n_coarsens) && 2 * m / pow2(tau.n_coarsens) >= 1);
    ef_assume(tau.vectorG().size() == 4 * (2 * m / pow2(tau.n_coarsens)));
    ef_assume(tau.matrixS().nRows() == 4 * m && tau.matrixS().nCols() == 8 * m && tau.vectorW().size() == 4 * m);
    int size = 2 * m / pow2(tau.n_coarsens);
    for (int k = 0; k < tau.n_coarsens; k++) {
        size = 2 * size;
        M L = prolongation(size);
        tau.vectorG() = L * tau.vectorG();
    }
    V& g = tau.vectorG();
    V u = tau.matrixS() * g;
    if (!flag("homogeneous-rhs")) u = u + tau.vectorW();
    V ag = u.getSegment(0, m), bo = u.getSegment(m, m), ab = u.getSegment(2 * m, m), go = u.getSegment(3 * m, m);
    V W0 = g.getSegment(0, m), W1 = g.getSegment(m, m), E0 = g.getSegment(2 * m, m), E1 = g.getSegment(3 * m, m);
    V S0 = g.getSegment(4 * m, m), S1 = g.getSegment(5 * m, m), N0 = g.getSegment(6 * m, m), N1 = g.getSegment(7 * m, m);
    alpha.vectorG() = concatenate({W0, ab, S0, ag});
    beta.vectorG() = concatenate({ab, E0, S1, bo});
    gamma.vectorG() = concatenate({W1, go, ag, N0});
    omega.vectorG() = concatenate({go, E1, bo, N1});
}

// what is observed, and what the inputs are called, through public accessors only
struct PData { M X, S, T, H; V u, g, f, h, w; int nc; int nx, ny; double xl, xu, yl, yu; };
inline PData node(P& p) {
    return PData{p.matrixX(), p.matrixS(), p.matrixT(), p.matrixH(), p.vectorU(), p.vectorG(), p.vectorF(), p.vectorH(), p.vectorW(), p.n_coarsens,
                (int) p.grid().nx(), (int) p.grid().ny(), p.grid().xLower(), p.grid().xUpper(), p.grid().yLower(), p.grid().yUpper()};
}
struct IHps { PData tau, alpha, beta, gamma, omega; };
IHps i_hps(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) { return IHps{node(tau), node(alpha), node(beta), node(gamma), node(omega)}; }
struct MNode { M X, S, T, H; int nc; int nx, ny; double xl, xu, yl, yu, dx, dy; };
inline MNode mnode(P& p) {
    return MNode{p.matrixX(), p.matrixS(), p.matrixT(), p.matrixH(), p.n_coarsens, (int) p.grid().nx(), (int) p.grid().ny(), p.grid().xLower(), p.grid().xUpper(), p.grid().yLower(), p.grid().yUpper(), p.grid().dx(), p.grid().dy()};
}
struct CNode { M T; int nc; };
inline CNode cnode(P& p) { return CNode{p.matrixT(), p.n_coarsens}; }
struct OMerge { MNode tau; CNode alpha, beta, gamma, omega; };
OMerge o_merge(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) { return OMerge{mnode(tau), cnode(alpha), cnode(beta), cnode(gamma), cnode(omega)}; }
struct UNode { M T; V h; int nc; };
inline UNode unode(P& p) { return UNode{p.matrixT(), p.vectorH(), p.n_coarsens}; }
struct OUp { V w, h; M S, T; UNode alpha, beta, gamma, omega; };
OUp o_upwards(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) { return OUp{tau.vectorW(), tau.vectorH(), tau.matrixS(), tau.matrixT(), unode(alpha), unode(beta), unode(gamma), unode(omega)}; }
struct SNode { V g; int nc; };
inline SNode snode(P& p) { return SNode{p.vectorG(), p.n_coarsens}; }
struct OSplit { V w; M S; SNode tau, alpha, beta, gamma, omega; };
OSplit o_split(HPS& self, P& tau, P& alpha, P& beta, P& gamma, P& omega) { return OSplit{tau.vectorW(), tau.matrixS(), snode(tau), snode(alpha), snode(beta), snode(gamma), snode(omega)}; }

// ---------------------------------------------------------------- stages
// one leaf and one family stand for any (the traversals themselves are decided elsewhere)
Node<P>* ef_node(int which);
inline int family_of(HPS& self, int step, Node<P>* t, std::vector<Node<P>*> c) {
    if (step == 0) self.merge4to1(t->data, c[0]->data, c[1]->data, c[2]->data, c[3]->data);
    if (step == 1) self.upwards4to1(t->data, c[0]->data, c[1]->data, c[2]->data, c[3]->data);
    if (step == 2) self.split1to4(t->data, c[0]->data, c[1]->data, c[2]->data, c[3]->data);
    return 1;
}
void h_build(HPS& self) {
    self.mesh.quadtree.merge([&](Node<P>* leaf) {
        P& p = leaf->data;
        p.matrixT() = self.patch_solver.buildD2N(p.grid());
        return 1;
    }, [&](Node<P>* t, std::vector<Node<P>*> c) { return family_of(self, 0, t, c); });
}
void h_up_patch(HPS& self, std::function<void(P&)> rhs) {
    self.mesh.quadtree.merge([&](Node<P>* leaf) {
        P& p = leaf->data;
        rhs(p);
        p.vectorH() = self.patch_solver.particularNeumannData(p.grid(), p.vectorF());
        return 1;
    }, [&](Node<P>* t, std::vector<Node<P>*> c) { return family_of(self, 1, t, c); });
}
void h_up_fn(HPS& self, std::function<double(double, double)> rhs) {
    self.mesh.quadtree.merge([&](Node<P>* leaf) {
        P& p = leaf->data;
        int nx = p.grid().nx(), ny = p.grid().ny();
        ef_assume(nx >= 0 && nx <= 3 && ny >= 0 && ny <= 3);
        V F(nx * ny);
        for (int k = 0; k < nx * ny; k++) F[k] = rhs(p.grid()(0, k / ny), p.grid()(1, k % ny));
        p.vectorF() = F;
        p.vectorH() = self.patch_solver.particularNeumannData(p.grid(), F);
        return 1;
    }, [&](Node<P>* t, std::vector<Node<P>*> c) { return family_of(self, 1, t, c); });
}
inline void descend(HPS& self) {
    self.mesh.quadtree.split([&](Node<P>* leaf) { self.leafSolve(leaf->data); return 1; },
                             [&](Node<P>* t, std::vector<Node<P>*> c) { return family_of(self, 2, t, c); });
}
void h_solve_patch(HPS& self, std::function<void(P&)> boundary) {
    boundary(self.mesh.quadtree.root());
    descend(self);
}
// a u + b du/dn = r with du/dn = T g + h: (diag(a) + diag(b) T) g = r - diag(b) h
void h_solve_fn(HPS& self, std::function<double(int, double, double, double*, double*)> boundary) {
    P& root = self.mesh.quadtree.root();
    FiniteVolumeGrid& grid = root.grid();
    int n = grid.nx();
    ef_assume(n >= 1 && n <= 2 && grid.ny() == grid.nx());
    ef_assume(root.matrixT().nRows() == 4 * n && root.matrixT().nCols() == 4 * n && root.vectorH().size() == 4 * n);
    M A(4 * n, 4 * n, 0);
    V c(4 * n);
    for (int s = 0; s < 4; s++) {
        for (int i = 0; i < n; i++) {
            double x = s == 0 ? grid.xLower() : s == 1 ? grid.xUpper() : grid(0, i);
            double y = s == 2 ? grid.yLower() : s == 3 ? grid.yUpper() : grid(1, i);
            double a, b;
            c[s * n + i] = boundary(s, x, y, &a, &b) - 0;
            c[s * n + i] = c[s * n + i] - b * root.vectorH()[s * n + i];
            for (int j = 0; j < 4 * n; j++) {
                double t = b * root.matrixT()(s * n + i, j);
                A(s * n + i, j) = s * n + i == j ? a + t : t;
            }
        }
    }
    root.vectorG() = solve(A, c);
    descend(self);
}
void h_leaf(HPS& self, P& p) {
    if (flag("homogeneous-rhs")) {
        int n = p.grid().nx() * p.grid().ny();
        ef_assume(n >= 0);
        V z(n, 0);
        p.vectorF() = z;
    }
    p.vectorU() = self.patch_solver.solve(p.grid(), p.vectorG(), p.vectorF());
}
struct ILeaf { PData leaf, root; };
ILeaf i_stage(HPS& self) { return ILeaf{node(ef_node(5)->data), node(self.mesh.quadtree.root())}; }
struct LNode { M T; V f, h, g, u; };
inline LNode lnode(P& p) { return LNode{p.matrixT(), p.vectorF(), p.vectorH(), p.vectorG(), p.vectorU()}; }
struct OStage { LNode leaf, root; };
OStage o_stage(HPS& self) { return OStage{lnode(ef_node(5)->data), lnode(self.mesh.quadtree.root())}; }
struct IOne { PData p; };
IOne i_leaf(HPS& self, P& p) { return IOne{node(p)}; }
LNode o_leaf(HPS& self, P& p) { return lnode(p); }
}
