// Geometry of grids and of the nodes of the quadtree. t_*: what a user reads after calling the repository; r_*: the definition.
#include "ef_spec.hpp"
namespace efs {
using G = FiniteVolumeGrid;
using P = FiniteVolumePatch;
using N = Node<P>;
using F = FiniteVolumeNodeFactory;

struct GridV { size nx, ny; double xl, xu, yl, yu, dx, dy, px, py, ox, oy; };
GridV t_grid(int nx, double xl, double xu, int ny, double yl, double yu, int i, int j) {
    G g(MPI_COMM_SELF, nx, xl, xu, ny, yl, yu);
    return GridV{g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy(), g.point(DimensionIndex::X, i), g.point(DimensionIndex::Y, j), g(0, i), g(1, j)};
}
GridV r_grid(int nx, double xl, double xu, int ny, double yl, double yu, int i, int j) {
    ef_assume(nx > 0); ef_assume(ny > 0); ef_assume(i >= 0); ef_assume(j >= 0);
    double dx = (xu - xl) / nx, dy = (yu - yl) / ny;
    double px = xl + (i + 0.5) * dx, py = yl + (j + 0.5) * dy;
    return GridV{(size) nx, (size) ny, xl, xu, yl, yu, dx, dy, px, py, px, py};
}
// a dimension other than x and y is rejected
double t_dim(int nx, double xl, double xu, int ny, double yl, double yu, int dim, int i) { G g(MPI_COMM_SELF, nx, xl, xu, ny, yl, yu); return g.point((DimensionIndex) dim, i); }
double r_dim(int nx, double xl, double xu, int ny, double yl, double yu, int dim, int i) {
    ef_assume(nx > 0); ef_assume(ny > 0);
    require(dim == 0 || dim == 1);
    return dim == 0 ? xl + (i + 0.5) * ((xu - xl) / nx) : yl + (i + 0.5) * ((yu - yl) / ny);
}
// a copy is the same grid
struct GridC { size nx, ny; double xl, xu, yl, yu, dx, dy; };
GridC t_copy(G& g) { G h(g), k; k = g; return GridC{h.nx(), k.ny(), h.xLower(), k.xUpper(), h.yLower(), k.yUpper(), k.dx(), h.dy()}; }
GridC r_copy(G& g) { return GridC{g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()}; }

struct NodeV { std::string path; int level, pfirst, plast; bool leaf; int nc; size nx, ny; double xl, xu, yl, yu, dx, dy; };
inline NodeV nodev(N& n) {
    G& g = n.data.grid();
    return NodeV{n.path, n.level, n.pfirst, n.plast, n.leaf, n.data.n_coarsens, g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()};
}
inline NodeV ref(std::string path, int level, int pfirst, int plast, size nx, size ny, double xl, double xu, double yl, double yu) {
    return NodeV{path, level, pfirst, plast, false, 0, nx, ny, xl, xu, yl, yu, (xu - xl) / nx, (yu - yl) / ny};
}
// a grid that was built from its rectangle and counts
inline void wf(G& g) { ef_assume(g.nx() >= 1); ef_assume(g.ny() >= 1); ef_assume(g.dx() * g.nx() == g.xUpper() - g.xLower()); ef_assume(g.dy() * g.ny() == g.yUpper() - g.yLower()); }

NodeV t_node(F& f, G& g, std::string path, int level, int pfirst, int plast) { P p(MPI_COMM_SELF, g); N* n = f.createNode(p, path, level, pfirst, plast); return nodev(*n); }
NodeV r_node(F& f, G& g, std::string path, int level, int pfirst, int plast) {
    return NodeV{path, level, pfirst, plast, false, 0, g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()};
}

struct ChildV { NodeV child, parent; };
ChildV t_child(F& f, N& parent, int id, int pfirst, int plast) { N* c = f.createChildNode(&parent, id, pfirst, plast); return ChildV{nodev(*c), nodev(parent)}; }
ChildV r_child(F& f, N& parent, int id, int pfirst, int plast) {
    ef_assume(id >= 0 && id <= 3);
    G& g = parent.data.grid();
    ef_assume(g.nx() >= 1); ef_assume(g.ny() >= 1);
    double xm = (g.xLower() + g.xUpper()) / 2, ym = (g.yLower() + g.yUpper()) / 2;
    bool right = id % 2 == 1, top = id / 2 == 1;
    return ChildV{ref(parent.path + std::to_string(id), parent.level + 1, pfirst, plast, g.nx(), g.ny(), right ? xm : g.xLower(), right ? g.xUpper() : xm, top ? ym : g.yLower(), top ? g.yUpper() : ym), nodev(parent)};
}

struct FourI { NodeV a, b, c, d; };
FourI i_parent(F& f, N& a, N& b, N& c, N& d) { return FourI{nodev(a), nodev(b), nodev(c), nodev(d)}; }
NodeV t_parent(F& f, N& a, N& b, N& c, N& d, int pfirst, int plast) { std::vector<N*> v = {&a, &b, &c, &d}; N* p = f.createParentNode(v, pfirst, plast); return nodev(*p); }
NodeV r_parent(F& f, N& a, N& b, N& c, N& d, int pfirst, int plast) {
    // siblings: equal counts, one rectangle cut at its middle lines, paths that differ in their last index
    ef_assume(a.path.length() >= 2);
    ef_assume(a.data.grid().nx() >= 1); ef_assume(a.data.grid().ny() >= 1);
    ef_assume(b.data.grid().nx() == a.data.grid().nx()); ef_assume(c.data.grid().nx() == a.data.grid().nx()); ef_assume(d.data.grid().nx() == a.data.grid().nx());
    ef_assume(b.data.grid().ny() == a.data.grid().ny()); ef_assume(c.data.grid().ny() == a.data.grid().ny()); ef_assume(d.data.grid().ny() == a.data.grid().ny());
    ef_assume(c.data.grid().xLower() == a.data.grid().xLower()); ef_assume(b.data.grid().yLower() == a.data.grid().yLower());
    ef_assume(d.data.grid().xUpper() == b.data.grid().xUpper()); ef_assume(d.data.grid().yUpper() == c.data.grid().yUpper());
    ef_assume(b.level == a.level); ef_assume(c.level == a.level); ef_assume(d.level == a.level);
    return ref(a.path.substr(0, a.path.length() - 1), a.level - 1, pfirst, plast, a.data.grid().nx(), a.data.grid().ny(), a.data.grid().xLower(), b.data.grid().xUpper(), a.data.grid().yLower(), c.data.grid().yUpper());
}

// the path spells the child index at every level, root first
std::string t_path(p4est_quadrant_t& q) { return EllipticForest::p4est::p4est_quadrant_path(&q); }
std::string r_path(p4est_quadrant_t& q) {
    ef_assume(q.level >= 0);
    std::string path = "0";
    for (int l = 1; l <= q.level; l++) path = path + std::to_string(p4est_quadrant_ancestor_id(&q, l));
    return path;
}

void t_square(double xl, double xu, double yl, double yu) { EllipticForest::p4est::p4est_connectivity_new_square_domain(xl, xu, yl, yu); }
void r_square(double xl, double xu, double yl, double yu) {
    const double vertices[12] = {xl, yl, 0, xu, yl, 0, xl, yu, 0, xu, yu, 0};
    const p4est_topidx_t ttv[4] = {0, 1, 2, 3}, ttt[4] = {0, 0, 0, 0}, none = 0;
    const int8_t ttf[4] = {0, 1, 2, 3};
    p4est_connectivity_new_copy(4, 1, 0, vertices, ttv, ttt, ttf, NULL, &none, NULL, NULL);
}
}
// ---------------------------------------------------------------- building the tree
// Three nested quadrants (levels 0, 1 and 2) as the search over the whole forest visits them, with symbolic owners.
p4est_quadrant_t& ef_quad(int k);
int ef_pfirst(int k);
int ef_plast(int k);
int ef_local(int k);
namespace efs {
using Q = Quadtree<P>;
struct Slot { bool known, owned; NodeV node; };
struct TreeV { Slot a, b, c; size n; bool restored; };
inline std::string qpath(int k) {
    std::string s = "0";
    for (int l = 1; l <= k; l++) s = s + std::to_string(p4est_quadrant_ancestor_id(&ef_quad(k), l));
    return s;
}
inline Slot slot(Q& t, int k) {
    std::string key = qpath(k);
    Slot s;
    s.known = t.map.count(key) > 0; s.owned = false;
    s.node = NodeV{"", 0, 0, 0, false, 0, 0, 0, 0, 0, 0, 0, 0, 0};
    if (s.known) { N* n = t.map[key]; s.owned = n != nullptr; if (n != nullptr) { s.node = nodev(*n); } }
    return s;
}
TreeV t_tree(p4est_t& forest, G& g, F& f) {
    P root(MPI_COMM_WORLD, g);
    void* before = forest.user_pointer;
    Q t(MPI_COMM_WORLD, &forest, root, f);
    return TreeV{slot(t, 0), slot(t, 1), slot(t, 2), t.map.size(), forest.user_pointer == before};
}
inline Slot rslot(int k, bool own, size nx, size ny, double xl, double xu, double yl, double yu) {
    Slot s;
    s.known = true; s.owned = own;
    s.node = NodeV{"", 0, 0, 0, false, 0, 0, 0, 0, 0, 0, 0, 0, 0};
    if (own) {
        s.node = ref(qpath(k), k, ef_pfirst(k), ef_plast(k), nx, ny, xl, xu, yl, yu);
        s.node.leaf = ef_local(k) >= 0;
    }
    return s;
}
struct GI { GridC g; };
GI i_tree(p4est_t& forest, G& g, F& f) { return GI{GridC{g.nx(), g.ny(), g.xLower(), g.xUpper(), g.yLower(), g.yUpper(), g.dx(), g.dy()}}; }
inline bool mine(int k) { int rank; MPI_Comm_rank(MPI_COMM_WORLD, &rank); return ef_pfirst(k) <= rank && rank <= ef_plast(k); }
TreeV r_tree(p4est_t& forest, G& g, F& f) {
    wf(g);
    for (int k = 0; k < 3; k++) {
        ef_assume(ef_quad(k).level == k); ef_assume(ef_pfirst(k) >= 0); ef_assume(ef_pfirst(k) <= ef_plast(k)); ef_assume(ef_local(k) >= -1);
        if (k > 0) { ef_assume(ef_pfirst(k - 1) <= ef_pfirst(k)); ef_assume(ef_plast(k) <= ef_plast(k - 1)); ef_assume(ef_local(k - 1) < 0); }
    }
    bool o0 = mine(0), o1 = mine(1), o2 = mine(2);
    double xl = g.xLower(), xu = g.xUpper(), yl = g.yLower(), yu = g.yUpper();
    TreeV v;
    v.n = 3; v.restored = true;
    v.a = rslot(0, o0, g.nx(), g.ny(), xl, xu, yl, yu);
    for (int k = 1; k < 3; k++) {
        int id = p4est_quadrant_ancestor_id(&ef_quad(k), k);
        double xm = (xl + xu) / 2, ym = (yl + yu) / 2;
        if (id % 2 == 1) xl = xm; else xu = xm;
        if (id / 2 == 1) yl = ym; else yu = ym;
        if (k == 1) v.b = rslot(1, o1, g.nx(), g.ny(), xl, xu, yl, yu); else v.c = rslot(2, o2, g.nx(), g.ny(), xl, xu, yl, yu);
    }
    return v;
}
}
