// Mesh refinement and the arrays of a mesh.
#include "ef_spec.hpp"
#include "Mesh.hpp"
void ef_everywhere(std::function<void(int)> program);
int ef_ranks();
int ef_local_quadrants();
int ef_global_quadrants();
// the forest p4est hands out
int ef_mesh_leaves();
std::string ef_mesh_leaf(int k);
// quadrants offered to the refinement callback
int ef_offered();
int ef_offered_level(int k);
int ef_offered_x(int k);
int ef_offered_y(int k);
void ef_refined(int k, bool splits);
// what the grid of a leaf is
int ef_gnx(std::string path);
int ef_gny(std::string path);
double ef_gxl(std::string path);
double ef_gxu(std::string path);
double ef_gyl(std::string path);
double ef_gyu(std::string path);
void ef_doubles(const char* what, std::vector<double> v);
void ef_ints(const char* what, std::vector<int> v);
void ef_count(const char* what, int n);
void ef_texts(std::string a, std::string b);
void ef_patch(std::string path);
void ef_cell(double x, double y);
void ef_function(std::string name, std::vector<double> v);
void ef_new(int min_level, int fill);
void ef_refine(int recursive);
void ef_balance(int kind);
void ef_partition();
void ef_files();
void ef_forest_file(std::string name, double scale);
namespace efs { namespace mesh {
struct Patch {
    std::string path;
    FiniteVolumeGrid g;
    Patch(std::string path, FiniteVolumeGrid g) : path(path), g(g) {}
    Patch() {}
    FiniteVolumeGrid& grid() { return g; }
};
}}
namespace EllipticForest { namespace MPI { template<> int broadcast(efs::mesh::Patch& p, int root, MPI::Communicator comm); } }
namespace efs { namespace mesh {
using N = Node<Patch>;
using M = Mesh<Patch>;
inline Patch patch(std::string path) { return Patch(path, FiniteVolumeGrid(MPI_COMM_SELF, ef_gnx(path), ef_gxl(path), ef_gxu(path), ef_gny(path), ef_gyl(path), ef_gyu(path))); }
class Nodes : public AbstractNodeFactory<Patch> {
public:
    N* createNode(Patch data, std::string path, int level, int pfirst, int plast) override { return new N(MPI_COMM_WORLD, data, path, level, pfirst, plast); }
    N* createChildNode(N* parent, int i, int pfirst, int plast) override { std::string p = parent->path + std::to_string(i); return new N(MPI_COMM_WORLD, patch(p), p, parent->level + 1, pfirst, plast); }
    N* createParentNode(std::vector<N*> c, int pfirst, int plast) override { return c[0]; }
};
inline void here(p4est_t& forest, int rank) { forest.mpirank = rank; forest.mpisize = ef_ranks(); forest.local_num_quadrants = ef_local_quadrants(); forest.global_num_quadrants = ef_global_quadrants(); }
using Fn = std::function<bool(double, double)>;
// ---------------------------------------------------------------- refinement
void t_refine(Fn fn, double threshold, int min_level, int max_level) {
    ef_everywhere([&](int rank) {
        Nodes f; Patch root = patch("0"); M m;
        m.refineByFunction(fn, threshold, min_level, max_level, root, f);
    });
}
inline void refined(FiniteVolumeGrid g, Fn fn, int min_level, int max_level) {
        int nx = g.nx(), ny = g.ny();
        ef_new(min_level, 1);
        ef_refine(1);
        for (int k = 0; k < ef_offered(); k++) {
            double h = 1.0 / (1 << ef_offered_level(k));
            double x0 = g.xLower() + (ef_offered_x(k) * h) * (g.xUpper() - g.xLower());
            double x1 = g.xLower() + ((ef_offered_x(k) + 1) * h) * (g.xUpper() - g.xLower());
            double y0 = g.yLower() + (ef_offered_y(k) * h) * (g.yUpper() - g.yLower());
            double y1 = g.yLower() + ((ef_offered_y(k) + 1) * h) * (g.yUpper() - g.yLower());
            bool some = false;
            for (int i = 0; i < nx; i++) {
                for (int j = 0; j < ny; j++) {
                    if (fn(x0 + (i + 0.5) * ((x1 - x0) / nx), y0 + (j + 0.5) * ((y1 - y0) / ny))) some = true;
                }
            }
            ef_refined(k, ef_offered_level(k) < max_level && some);
        }
        ef_balance(0);
        ef_partition();
}
void r_refine(Fn fn, double threshold, int min_level, int max_level) { ef_everywhere([&](int rank) { refined(patch("0").g, fn, min_level, max_level); }); }
// a mesh that is refined again follows the new criterion, limits and domain only
inline FiniteVolumeGrid other() { return FiniteVolumeGrid(MPI_COMM_SELF, 2, ef_gyl("0"), ef_gyu("0"), 1, ef_gxl("0"), ef_gxu("0")); }
void t_refine_again(Fn fn, Fn fn2, double threshold, double threshold2, int min_level, int min_level2, int max_level, int max_level2) {
    ef_everywhere([&](int rank) {
        Nodes f; Patch root = patch("0"), root2("0", other()); M m;
        m.refineByFunction(fn, threshold, min_level, max_level, root, f);
        m.refineByFunction(fn2, threshold2, min_level2, max_level2, root2, f);
    });
}
void r_refine_again(Fn fn, Fn fn2, double threshold, double threshold2, int min_level, int min_level2, int max_level, int max_level2) {
    ef_everywhere([&](int rank) { refined(patch("0").g, fn, min_level, max_level); refined(other(), fn2, min_level2, max_level2); });
}
// ---------------------------------------------------------------- arrays
inline void arrays(M& m) {
    ef_doubles("points", std::vector<double>(m.points.data()));
    ef_ints("connectivity", m.connectivity.data());
    ef_ints("offsets", m.offsets.data());
    ef_ints("types", m.types.data());
    ef_count("points", m.npoints); ef_count("cells", m.ncells);
    ef_texts(m.getNumberOfPoints(), m.getNumberOfCells());
    ef_count("sizes", m.points.size()); ef_count("sizes", m.connectivity.size()); ef_count("sizes", m.offsets.size()); ef_count("sizes", m.types.size());
}
inline void labels(M& m) {
    ef_texts(m.getPoints().getName(), m.getPoints().getNumberOfComponents());
    ef_texts(m.getConnectivity().getName(), m.getConnectivity().getNumberOfComponents());
    ef_texts(m.getOffsets().getName(), m.getOffsets().getNumberOfComponents());
    ef_texts(m.getTypes().getName(), m.getTypes().getNumberOfComponents());
    ef_texts(m.getPoints().getType(), m.getConnectivity().getType());
    ef_texts(m.getOffsets().getType(), m.getTypes().getType());
}
inline void expected() {
    std::vector<double> p; std::vector<int> c, o, t;
    int cells = 0;
    for (int k = 0; k < ef_mesh_leaves(); k++) {
        FiniteVolumeGrid g = patch(ef_mesh_leaf(k)).g;
        int nx = g.nx(), ny = g.ny();
        for (int i = 0; i < nx; i++) {
            for (int j = 0; j < ny; j++) {
                double x0 = g.xLower() + i * g.dx(), x1 = g.xLower() + (i + 1) * g.dx(), y0 = g.yLower() + j * g.dy(), y1 = g.yLower() + (j + 1) * g.dy();
                for (double v : {x0, y0, 0.0, x1, y0, 0.0, x1, y1, 0.0, x0, y1, 0.0}) p.push_back(v);
                for (int q = 0; q < 4; q++) c.push_back(4 * cells + q);
                cells++;
                o.push_back(4 * cells);
                t.push_back(9);
            }
        }
    }
    ef_doubles("points", p); ef_ints("connectivity", c); ef_ints("offsets", o); ef_ints("types", t);
    ef_count("points", 4 * cells); ef_count("cells", cells);
    ef_texts(std::to_string(4 * cells), std::to_string(cells));
    ef_count("sizes", 12 * cells); ef_count("sizes", 4 * cells); ef_count("sizes", cells); ef_count("sizes", cells);
}
void t_arrays(p4est_t& forest) { ef_everywhere([&](int rank) { here(forest, rank); Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f); arrays(m); }); }
void r_arrays(p4est_t& forest) { ef_everywhere([&](int rank) { expected(); }); }
void t_labels(p4est_t& forest) { ef_everywhere([&](int rank) { here(forest, rank); Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f); labels(m); }); }
void r_labels(p4est_t& forest) {
    ef_everywhere([&](int rank) {
        ef_texts("points", "3"); ef_texts("connectivity", "1"); ef_texts("offsets", "1"); ef_texts("types", "1");
        ef_texts("Float32", "Int64"); ef_texts("Int64", "Int64");
    });
}
// building again describes the mesh once
void t_again(p4est_t& forest) { ef_everywhere([&](int rank) { here(forest, rank); Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f); m.setMeshFromQuadtree(); arrays(m); }); }
// a mesh refined by a function has the arrays of the forest that came out
void t_whole(Fn fn, double threshold, int min_level, int max_level) {
    ef_everywhere([&](int rank) {
        Nodes f; Patch root = patch("0"); M m;
        m.refineByFunction(fn, threshold, min_level, max_level, root, f);
        arrays(m);
    });
}
void r_whole(Fn fn, double threshold, int min_level, int max_level) { ef_everywhere([&](int rank) { expected(); }); }
// ---------------------------------------------------------------- going over the mesh
void t_patches(p4est_t& forest) { ef_everywhere([&](int rank) { here(forest, rank); Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f); m.iteratePatches([&](Patch& p) { ef_patch(p.path); }); }); }
void r_patches(p4est_t& forest) { ef_everywhere([&](int rank) { for (int k = 0; k < ef_mesh_leaves(); k++) ef_patch(ef_mesh_leaf(k)); }); }
void t_cells(p4est_t& forest) { ef_everywhere([&](int rank) { here(forest, rank); Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f); m.iterateCells([&](double x, double y) { ef_cell(x, y); }); }); }
template<class F> void cells(F f) {
    for (int k = 0; k < ef_mesh_leaves(); k++) {
        FiniteVolumeGrid g = patch(ef_mesh_leaf(k)).g;
        int nx = g.nx(), ny = g.ny();
        for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) f(g.xLower() + (i + 0.5) * g.dx(), g.yLower() + (j + 0.5) * g.dy());
    }
}
void r_cells(p4est_t& forest) { ef_everywhere([&](int rank) { cells([](double x, double y) { ef_cell(x, y); }); }); }
using Fd = std::function<double(double, double)>;
void t_function(p4est_t& forest, Fd u, Fd v, Vector<double> given, std::string un, std::string vn) {
    ef_everywhere([&](int rank) {
        here(forest, rank);
        Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f);
        m.addMeshFunction(u, "before"); m.addMeshFunction(given); m.addMeshFunction(v, "before"); m.clearMeshFunctions();
        ef_count("functions", m.mesh_functions.size());
        m.addMeshFunction(u, un); m.addMeshFunction(given); m.addMeshFunction(v, vn);
        ef_count("functions", m.mesh_functions.size());
        for (int k = 0; k < 3; k++) { ef_function(m.mesh_functions[k]->name(), m.mesh_functions[k]->data()); ef_count("entries", m.mesh_functions[k]->size()); }
    });
}
void r_function(p4est_t& forest, Fd u, Fd v, Vector<double> given, std::string un, std::string vn) {
    ef_everywhere([&](int rank) {
        std::vector<double> a, b;
        cells([&](double x, double y) { a.push_back(u(x, y)); });
        cells([&](double x, double y) { b.push_back(v(x, y)); });
        ef_count("functions", 0);
        ef_count("functions", 3);
        ef_function(un, a); ef_count("entries", a.size());
        ef_function(given.name(), given.data()); ef_count("entries", given.size());
        ef_function(vn, b); ef_count("entries", b.size());
    });
}
// ---------------------------------------------------------------- files
struct Arrays : UnstructuredGridNodeBase {
    Vector<double> p; Vector<int> c, o, t; int cells = 0;
    Arrays() {
        std::vector<double> ps; std::vector<int> cs, os, ts;
        for (int k = 0; k < ef_mesh_leaves(); k++) {
            FiniteVolumeGrid g = patch(ef_mesh_leaf(k)).g;
            int nx = g.nx(), ny = g.ny();
            for (int i = 0; i < nx; i++) {
                for (int j = 0; j < ny; j++) {
                    double x0 = g.xLower() + i * g.dx(), x1 = g.xLower() + (i + 1) * g.dx(), y0 = g.yLower() + j * g.dy(), y1 = g.yLower() + (j + 1) * g.dy();
                    for (double v : {x0, y0, 0.0, x1, y0, 0.0, x1, y1, 0.0, x0, y1, 0.0}) ps.push_back(v);
                    for (int q = 0; q < 4; q++) cs.push_back(4 * cells + q);
                    cells++;
                    os.push_back(4 * cells);
                    ts.push_back(9);
                }
            }
        }
        p = Vector<double>(ps); c = Vector<int>(cs); o = Vector<int>(os); t = Vector<int>(ts);
        p.name() = "points"; p.setType("Float32"); p.setNumberOfComponents("3");
        c.name() = "connectivity"; c.setType("Int64"); c.setNumberOfComponents("1");
        o.name() = "offsets"; o.setType("Int64"); o.setNumberOfComponents("1");
        t.name() = "types"; t.setType("Int64"); t.setNumberOfComponents("1");
    }
    std::string getNumberOfPoints() { return std::to_string(4 * cells); }
    std::string getNumberOfCells() { return std::to_string(cells); }
    DataArrayNodeBase& getPoints() { return p; }
    DataArrayNodeBase& getConnectivity() { return c; }
    DataArrayNodeBase& getOffsets() { return o; }
    DataArrayNodeBase& getTypes() { return t; }
};
void t_files(p4est_t& forest, Fd u, Vector<double> given) {
    ef_everywhere([&](int rank) {
        here(forest, rank);
        Nodes f; Patch root = patch("0"); M m(MPI_COMM_WORLD, &forest, root, f);
        m.toVTK("run");
        Vector<double> given_again = given, nameless = given;
        given_again.name() = "u"; nameless.name() = "";
        given.name() = "given";
        m.addMeshFunction(u, "u"); m.addMeshFunction(given); m.addMeshFunction(given_again); m.addMeshFunction(nameless);
        m.toVTK("run", 0); m.toVTK("run", 37); m.toVTK("x/run%d", 12345);
    });
    ef_files();
}
inline void written(std::string name, p4est_t& forest, bool functions, Vector<double>& u, Vector<double>& given) {
    Arrays a; PUnstructuredGridVTK g(MPI_COMM_WORLD);
    g.buildMesh(a);
    Vector<double> given_again = given, nameless = given;
    given_again.name() = "u"; nameless.name() = "";
    given.name() = "given";
    if (functions) { g.addCellData(u); g.addCellData(given); g.addCellData(given_again); g.addCellData(nameless); }
    g.toVTK(name);
}
void r_files(p4est_t& forest, Fd u, Vector<double> given) {
    ef_everywhere([&](int rank) {
        std::vector<double> d;
        cells([&](double x, double y) { d.push_back(u(x, y)); });
        Vector<double> ud(d); ud.name() = "u";
        written("run-mesh", forest, false, ud, given); ef_forest_file("run-quadtree", 1);
        written("run-mesh-0000", forest, true, ud, given); ef_forest_file("run-quadtree-0000", 1);
        written("run-mesh-0037", forest, true, ud, given); ef_forest_file("run-quadtree-0037", 1);
        written("x/run%d-mesh-12345", forest, true, ud, given); ef_forest_file("x/run%d-quadtree-12345", 1);
    });
    ef_files();
}
} }
