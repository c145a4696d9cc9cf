// The leaf problem: five-point finite volumes on one patch, and the Dirichlet-to-Neumann operators built from it.
#include "ef_spec.hpp"
std::vector<double> ef_linsolve(std::size_t n, std::size_t nrhs, std::vector<double> A, std::vector<double> B);
int ef_live(); int ef_illegal(); int ef_borrowed(); int ef_wide();
namespace efs { namespace leaf {
using G = FiniteVolumeGrid;
using S = FiniteVolumeSolver;
using V = Vector<double>;
using M = Matrix<double>;

// a grid that was built from its rectangle and counts, and data of the sizes the grid asks for
inline void wf(G& g) {
    ef_assume(g.nx() >= 2); ef_assume(g.ny() >= 2); ef_assume(g.xUpper() > g.xLower()); ef_assume(g.yUpper() > g.yLower());
    ef_assume(g.dx() * g.nx() == g.xUpper() - g.xLower()); ef_assume(g.dy() * g.ny() == g.yUpper() - g.yLower());
}
inline void wfd(G& g, V& d, V& f) { wf(g); ef_assume(d.size() == 2 * g.nx() + 2 * g.ny()); ef_assume(f.size() == g.nx() * g.ny()); }

// side s of boundary data ordered west, east (ny entries each, south to north), south, north (nx entries each, west to east)
inline int wside(G& g, int j) { return j; }
inline int eside(G& g, int j) { return (int) g.ny() + j; }
inline int sside(G& g, int i) { return 2 * (int) g.ny() + i; }
inline int nside(G& g, int i) { return 2 * (int) g.ny() + (int) g.nx() + i; }

struct Out { std::vector<double> u, g, f; };
Out t_solve(S& s, G& g, V& d, V& f) { s.solver_type = FiniteVolumeSolverType::FivePointStencil; V u = s.solve(g, d, f); return Out{u.data(), d.data(), f.data()}; }
Out r_solve(S& s, G& g, V& d, V& f) {
    wfd(g, d, f);
    s.solver_type = FiniteVolumeSolverType::FivePointStencil;
    int nx = g.nx(), ny = g.ny(), n = nx * ny;
    double dx = (g.xUpper() - g.xLower()) / nx, dy = (g.yUpper() - g.yLower()) / ny;
    std::vector<double> A(n * n, 0.0), b(n, 0.0);
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        double x = g.xLower() + (i + 0.5) * dx, y = g.yLower() + (j + 0.5) * dy;
        double al = s.alpha_function(x, y);
        double w = al * s.beta_function(x - dx / 2, y) / (dx * dx), e = al * s.beta_function(x + dx / 2, y) / (dx * dx);
        double so = al * s.beta_function(x, y - dy / 2) / (dy * dy), no = al * s.beta_function(x, y + dy / 2) / (dy * dy);
        int k = j + i * ny;
        double diag = s.lambda_function(x, y) - w - e - so - no, rhs = f.data()[k];
        // u_{-1} = 2 g - u_0 on a side
        if (i > 0) A[k * n + k - ny] = w; else { diag = diag - w; rhs = rhs - 2 * w * d.data()[wside(g, j)]; }
        if (i < nx - 1) A[k * n + k + ny] = e; else { diag = diag - e; rhs = rhs - 2 * e * d.data()[eside(g, j)]; }
        if (j > 0) A[k * n + k - 1] = so; else { diag = diag - so; rhs = rhs - 2 * so * d.data()[sside(g, i)]; }
        if (j < ny - 1) A[k * n + k + 1] = no; else { diag = diag - no; rhs = rhs - 2 * no * d.data()[nside(g, i)]; }
        A[k * n + k] = diag;
        b[k] = rhs;
    }
    return Out{ef_linsolve(n, 1, A, b), d.data(), f.data()};
}

// the library's contract during a leaf solve: nothing outside it, nothing left behind, nothing created on a wider communicator
struct Lib { int live, illegal, borrowed, wide; };
Lib t_lib(S& s, G& g, V& d, V& f) { s.solver_type = FiniteVolumeSolverType::FivePointStencil; V u = s.solve(g, d, f); return Lib{ef_live(), ef_illegal(), ef_borrowed(), ef_wide()}; }
Lib r_lib(S& s, G& g, V& d, V& f) { wfd(g, d, f); s.solver_type = FiniteVolumeSolverType::FivePointStencil; return Lib{0, 0, 0, 0}; }

// the constant-coefficient solver: alpha = beta = 1, lambda constant
Out t_fish(S& s, G& g, V& d, V& f) { s.solver_type = FiniteVolumeSolverType::FISHPACK90; V u = s.solve(g, d, f); return Out{u.data(), d.data(), f.data()}; }
Out r_fish(S& s, G& g, V& d, V& f) {
    wfd(g, d, f);
    s.solver_type = FiniteVolumeSolverType::FISHPACK90;
    int nx = g.nx(), ny = g.ny(), n = nx * ny;
    double dx = (g.xUpper() - g.xLower()) / nx, dy = (g.yUpper() - g.yLower()) / ny;
    double w = 1 / (dx * dx), so = 1 / (dy * dy), la = s.lambda_function(0, 0);
    std::vector<double> A(n * n, 0.0), b(n, 0.0);
    for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) {
        int k = j + i * ny;
        double diag = la - 2 * w - 2 * so, rhs = f.data()[k];
        if (i > 0) A[k * n + k - ny] = w; else { diag = diag - w; rhs = rhs - 2 * w * d.data()[wside(g, j)]; }
        if (i < nx - 1) A[k * n + k + ny] = w; else { diag = diag - w; rhs = rhs - 2 * w * d.data()[eside(g, j)]; }
        if (j > 0) A[k * n + k - 1] = so; else { diag = diag - so; rhs = rhs - 2 * so * d.data()[sside(g, i)]; }
        if (j < ny - 1) A[k * n + k + 1] = so; else { diag = diag - so; rhs = rhs - 2 * so * d.data()[nside(g, i)]; }
        A[k * n + k] = diag;
        b[k] = rhs;
    }
    return Out{ef_linsolve(n, 1, A, b), d.data(), f.data()};
}

// ------------------------------------------------------------------ the Dirichlet-to-Neumann map
inline std::vector<double> neumann(G& g, std::vector<double> d, std::vector<double> u) {
    int nx = g.nx(), ny = g.ny();
    std::vector<double> h(2 * nx + 2 * ny);
    for (int j = 0; j < ny; j++) h[wside(g, j)] = (u[j] - d[wside(g, j)]) / (g.dx() / 2);
    for (int j = 0; j < ny; j++) h[eside(g, j)] = (d[eside(g, j)] - u[(nx - 1) * ny + j]) / (g.dx() / 2);
    for (int i = 0; i < nx; i++) h[sside(g, i)] = (u[i * ny] - d[sside(g, i)]) / (g.dy() / 2);
    for (int i = 0; i < nx; i++) h[nside(g, i)] = (d[nside(g, i)] - u[i * ny + ny - 1]) / (g.dy() / 2);
    return h;
}
struct Map { std::vector<double> h, d, f; };
Map t_map(S& s, G& g, V& d, V& f) { V h = s.mapD2N(g, d, f); return Map{h.data(), d.data(), f.data()}; }
Map r_map(S& s, G& g, V& d, V& f) {
    wfd(g, d, f);
    V u = s.solve(g, d, f);
    return Map{neumann(g, d.data(), u.data()), d.data(), f.data()};
}
// particular data: the map applied to zero boundary values
struct Part { std::vector<double> h, f; };
Part t_part(S& s, G& g, V& f) { V h = s.particularNeumannData(g, f); return Part{h.data(), f.data()}; }
Part r_part(S& s, G& g, V& f) {
    wf(g); ef_assume(f.size() == g.nx() * g.ny());
    V d(2 * g.nx() + 2 * g.ny(), 0.0);
    V u = s.solve(g, d, f);
    return Part{neumann(g, d.data(), u.data()), f.data()};
}
// the operator: column j is the map of the j-th unit boundary vector with no right-hand side
struct Op { size n, m; std::vector<double> T; };
Op t_op(S& s, G& g) { M T = s.buildD2N(g); return Op{T.nrows(), T.ncols(), T.data()}; }
Op r_op(S& s, G& g) {
    wf(g);
    int m = 2 * g.nx() + 2 * g.ny();
    std::vector<double> T(m * m);
    V f(g.nx() * g.ny(), 0.0);
    for (int j = 0; j < m; j++) {
        V d(m, 0.0);
        d[j] = 1.0;
        V u = s.solve(g, d, f);
        std::vector<double> h = neumann(g, d.data(), u.data());
        for (int i = 0; i < m; i++) T[i * m + j] = h[i];
    }
    return Op{(size) m, (size) m, T};
}
// what the merges use: T d + h(f) is the Neumann data of the solution with boundary data d and right-hand side f
struct Use { std::vector<double> h; };
Use t_use(S& s, G& g, V& d, V& f) { M T = s.buildD2N(g); V h = s.particularNeumannData(g, f); V r = T * d; V q = r + h; return Use{q.data()}; }
Use r_use(S& s, G& g, V& d, V& f) { wfd(g, d, f); V u = s.solve(g, d, f); return Use{neumann(g, d.data(), u.data())}; }
} }
