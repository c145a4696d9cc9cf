// Files written: trees of elements, grids, index files of several ranks, and the texts of arrays.
#include "ef_spec.hpp"
#include "Mesh.hpp"
#include <fstream>
void ef_everywhere(std::function<void(int)> program);
int ef_ranks();
std::string ef_text(const char* what, std::string of);
int ef_n(const char* what);
std::string ef_name(const char* what);
void ef_files();
void ef_forest_written(std::string name);
namespace efs { namespace vtk {
using S = std::string;
using Pairs = std::vector<std::pair<S, S>>;
// what is written, as this file understands it
struct El { S name; Pairs attributes; S data; std::vector<El> in; };
inline S text(const El& e) {
    S s = "<" + e.name;
    for (auto& a : e.attributes) s += " " + a.first + "=\"" + a.second + "\"";
    s += ">" + e.data;
    for (auto& c : e.in) s += text(c);
    return s + "</" + e.name + ">";
}
inline void file(S path, const El& e) { std::ofstream f(path); f << text(e); }
// ---------------------------------------------------------------- trees of elements
inline S n(const char* k) { return ef_text("name", k); }
inline S v(const char* k) { return ef_text("value", k); }
void t_tree() {
    XMLNode root(n("root")), a(n("a")), b(n("b")), c(n("c"));
    XMLNode* d = new XMLNode(n("d")); XMLNode* e = new XMLNode(n("e"));
    root.addAttribute(n("k0"), v("k0")); root.addAttribute(n("k1"), v("k1"));
    b.addAttribute(n("k2"), v("k2")); e->addAttribute(n("k3"), v("k3")); e->addAttribute(n("k4"), ""); e->addAttribute(n("k5"), v("k5"));
    a.data = v("a"); e->data = v("e"); b.data = v("b");
    root.addChild(a); root.addChild(d); root.addChild(b);
    b.addChild(c); c.addChild(e); c.addChild(a);
    XMLTree t(root);
    t.write("first.xml");
    a.data = v("again"); a.addChild(d);
    t.write("second.xml");
    XMLTree leaf(a);
    leaf.write("first.xml");
    ef_files();
}
void r_tree() {
    El a{n("a"), {}, v("a"), {}}, d{n("d"), {}, "", {}};
    El e{n("e"), {{n("k3"), v("k3")}, {n("k4"), ""}, {n("k5"), v("k5")}}, v("e"), {}};
    El a2{n("a"), {}, v("again"), {d}};
    El b2{n("b"), {{n("k2"), v("k2")}}, v("b"), {El{n("c"), {}, "", {e, a2}}}};
    file("second.xml", El{n("root"), {{n("k0"), v("k0")}, {n("k1"), v("k1")}}, "", {a2, d, b2}});
    file("first.xml", a2);
    ef_files();
}
void t_deep() {
    std::vector<XMLNode*> x;
    for (int k = 0; k < 7; k++) { x.push_back(new XMLNode(n("x") + std::to_string(k))); x[k]->addAttribute(n("k0"), v("k0")); if (k > 0) x[k - 1]->addChild(x[k]); }
    x[6]->data = v("a"); x[3]->addChild(x[6]); x[0]->data = v("b");
    XMLTree t(*x[0]); t.write("deep.xml");
    ef_files();
}
void r_deep() {
    El last{n("x") + "6", {{n("k0"), v("k0")}}, v("a"), {}}, e = last;
    for (int k = 5; k >= 0; k--) { El o{n("x") + std::to_string(k), {{n("k0"), v("k0")}}, "", {e}}; if (k == 3) o.in.push_back(last); if (k == 0) o.data = v("b"); e = o; }
    file("deep.xml", e);
    ef_files();
}
// ---------------------------------------------------------------- arrays
struct Array : DataArrayNodeBase {
    S of;
    Array(S of) : of(of) {}
    S getType() { return ef_text("type", of); }
    S getName() { return ef_text("label", of); }
    S getNumberOfComponents() { return ef_text("components", of); }
    S getFormat() { return ef_text("format", of); }
    S getRangeMin() { return ef_text("least", of); }
    S getRangeMax() { return ef_text("most", of); }
    S getData() { return ef_text("data", of); }
};
inline El array(DataArrayNodeBase& a) {
    return El{"DataArray", {{"type", a.getType()}, {"Name", a.getName()}, {"NumberOfComponents", a.getNumberOfComponents()}, {"format", a.getFormat()}, {"RangeMin", a.getRangeMin()}, {"RangeMax", a.getRangeMax()}}, a.getData(), {}};
}
inline El array(S of) { Array a(of); return array(a); }
inline El parray(DataArrayNodeBase& a) {
    return El{"PDataArray", {{"type", a.getType()}, {"Name", a.getName()}, {"NumberOfComponents", a.getNumberOfComponents()}, {"format", a.getFormat()}}, "", {}};
}
inline El parray(S of) { Array a(of); return parray(a); }
inline S nth(const char* what, int k, S at = "") { return S(what) + std::to_string(k) + at; }
inline El empty() { return El{"DataArray", {{"type", "Float32"}, {"Name", "Empty"}, {"NumberOfComponents", "1"}, {"format", "ascii"}, {"RangeMin", "0.0"}, {"RangeMax", "0.0"}}, "0.0", {}}; }
inline S label(S of) { return ef_text("label", of); }
inline El section(const char* name, const char* what, int count, bool parallel = false, S at = "") {
    El s{name, {}, "", {}};
    if (count > 0) {
        S names = "";
        for (int k = 0; k < count; k++) names += label(nth(what, k, at)) + " ";
        s.attributes.push_back({"Scalars", names});
    }
    for (int k = 0; k < count; k++) s.in.push_back(parallel ? parray(nth(what, k, at)) : array(nth(what, k, at)));
    return s;
}
inline Pairs header(const char* type) { return {{"type", type}, {"version", "0.1"}, {"byte_order", "LittleEndian"}}; }
// ---------------------------------------------------------------- rectilinear grids
struct Box : RectilinearGridNodeBase {
    S of;
    Box(S of) : of(of) {}
    S getWholeExtent() { return ef_text("whole", of); }
    S getExtent() { return ef_text("extent", of); }
};
inline El box(S of, S x, S y, S z, int cells, int points) {
    El c{"Coordinates", {}, "", {}};
    for (auto& a : {x, y, z}) c.in.push_back(a == "" ? empty() : array(a));
    El piece{"Piece", {{"Extent", ef_text("extent", of)}}, "", {section("CellData", "cell", cells), section("PointData", "point", points), c}};
    return El{"VTKFile", header("RectilinearGrid"), "", {El{"RectilinearGrid", {{"WholeExtent", ef_text("whole", of)}}, "", {piece}}}};
}
inline Array* here(int k, S of) { return k ? new Array(of) : nullptr; }
void t_box() {
    Box m("box"); RectilinearGridVTK g;
    g.buildMesh(m, here(ef_n("x"), "x"), here(ef_n("y"), "y"), here(ef_n("z"), "z"));
    for (int k = 0; k < ef_n("points"); k++) g.addPointData(*new Array(nth("point", k)));
    for (int k = 0; k < ef_n("cells"); k++) g.addCellData(*new Array(nth("cell", k)));
    g.toVTK("box.vtr");
    ef_files();
}
void r_box() { file("box.vtr", box("box", ef_n("x") ? "x" : "", ef_n("y") ? "y" : "", ef_n("z") ? "z" : "", ef_n("cells"), ef_n("points"))); ef_files(); }
void t_box_again() {
    Box m("box"), o("other"); RectilinearGridVTK g;
    Array x("x"), y("y"), u("u"), w("w");
    g.buildMesh(m, &x, &y, nullptr);
    Array c("cell0"), p("point0"); g.addCellData(c);
    g.toVTK("one.vtr"); g.toVTK("two.vtr");
    g.addPointData(p); g.buildMesh(o, &u, nullptr, &w);
    g.toVTK("three.vtr"); g.toVTK("two.vtr");
    ef_files();
}
void r_box_again() {
    file("one.vtr", box("box", "x", "y", "", 1, 0)); file("two.vtr", box("other", "u", "", "w", 1, 1)); file("three.vtr", box("other", "u", "", "w", 1, 1));
    ef_files();
}
void t_box_none() { RectilinearGridVTK g; Array a("cell0"); g.addCellData(a); g.toVTK("box.vtr"); }
void t_box_null() { Box m("box"); Array a("cell0"); RectilinearGridVTK g; g.buildMesh(m, nullptr, nullptr, nullptr); g.addCellData(a); g.toVTK("box.vtr"); ef_files(); }
void r_box_null() { file("box.vtr", box("box", "", "", "", 1, 0)); ef_files(); }
void r_none() { throw std::invalid_argument("nothing to write"); }
// ---------------------------------------------------------------- unstructured grids
struct Cells : UnstructuredGridNodeBase {
    S of; Array p, c, o, t;
    Cells(S of) : of(of), p(of + " points"), c(of + " connectivity"), o(of + " offsets"), t(of + " types") {}
    S getNumberOfPoints() { return ef_text("npoints", of); }
    S getNumberOfCells() { return ef_text("ncells", of); }
    DataArrayNodeBase& getPoints() { return p; }
    DataArrayNodeBase& getConnectivity() { return c; }
    DataArrayNodeBase& getOffsets() { return o; }
    DataArrayNodeBase& getTypes() { return t; }
};
inline El unstructured(El piece) { return El{"VTKFile", header("UnstructuredGrid"), "", {El{"UnstructuredGrid", {}, "", {piece}}}}; }
inline El grid(S of, int cells, int points, S at = "") {
    El piece{"Piece", {{"NumberOfPoints", ef_text("npoints", of)}, {"NumberOfCells", ef_text("ncells", of)}}, "", {}};
    piece.in = {El{"Points", {}, "", {array(of + " points")}}, El{"Cells", {}, "", {array(of + " connectivity"), array(of + " offsets"), array(of + " types")}},
                section("CellData", "cell", cells, false, at), section("PointData", "point", points, false, at)};
    return unstructured(piece);
}
void t_grid() {
    Cells m("grid"); UnstructuredGridVTK g;
    for (int k = 0; k < ef_n("points"); k++) g.addPointData(*new Array(nth("point", k)));
    g.buildMesh(m);
    for (int k = 0; k < ef_n("cells"); k++) g.addCellData(*new Array(nth("cell", k)));
    g.toVTK("grid.vtu");
    ef_files();
}
void r_grid() { file("grid.vtu", grid("grid", ef_n("cells"), ef_n("points"))); ef_files(); }
void t_grid_again() {
    Cells m("grid"), o("other"); UnstructuredGridVTK g;
    Array c("cell0"), p("point0"), d("cell1");
    g.buildMesh(m); g.addCellData(c);
    g.toVTK("one.vtu"); g.toVTK("two.vtu");
    g.addPointData(p); g.addCellData(d); g.buildMesh(o);
    g.toVTK("three.vtu"); g.toVTK("one.vtu");
    ef_files();
}
void r_grid_again() { file("one.vtu", grid("other", 2, 1)); file("two.vtu", grid("grid", 1, 0)); file("three.vtu", grid("other", 2, 1)); ef_files(); }
void t_grid_none() { UnstructuredGridVTK g; Array a("point0"); g.addPointData(a); g.toVTK("grid.vtu"); }
// ---------------------------------------------------------------- one piece per rank
inline S piece(S base, int rank) { S d = std::to_string(rank); while (d.size() < 4) d = "0" + d; return base + "_" + d + ".vtu"; }
inline S local(S base) { return base.substr(base.find_last_of('/') + 1); }
inline El index(El points, El cells, El data, int ranks, S base) {
    El g{"PUnstructuredGrid", {{"GhostLevel", "0"}}, "", {El{"PPoints", {}, "", {points}}, data, cells}};
    for (int r = 0; r < ranks; r++) g.in.push_back(El{"Piece", {{"Source", piece(local(base), r)}}, "", {}});
    return El{"VTKFile", header("PUnstructuredGrid"), "", {g}};
}
inline S on(const char* what, int rank) { return S(what) + " " + std::to_string(rank); }
inline void write(PUnstructuredGridVTK& g, int rank, S base) {
    Cells m(on("grid", rank)); S at = on("", rank);
    g.buildMesh(m);
    for (int k = 0; k < ef_n("cells"); k++) g.addCellData(*new Array(nth("cell", k, at)));
    for (int k = 0; k < ef_n("points"); k++) g.addPointData(*new Array(nth("point", k, at)));
    g.toVTK(base);
    for (int k = 1; k < ef_n("times"); k++) g.toVTK(base);
}
inline void expected(int rank, int ranks, int me, S base) {
    S at = on("", me);
    file(piece(base, rank), grid(on("grid", me), ef_n("cells"), ef_n("points"), at));
    if (rank == 0) file(base + ".pvtu", index(parray(on("grid", me) + " points"), section("PCellData", "cell", ef_n("cells"), true, at), section("PPointData", "point", ef_n("points"), true, at), ranks, base));
}
void t_index() { ef_everywhere([&](int rank) { PUnstructuredGridVTK g(MPI_COMM_WORLD); write(g, rank, ef_name("base")); }); ef_files(); }
void t_index_default() { ef_everywhere([&](int rank) { PUnstructuredGridVTK g; write(g, rank, ef_name("base")); }); ef_files(); }
void r_index() { ef_everywhere([&](int rank) { expected(rank, ef_ranks(), rank, ef_name("base")); }); ef_files(); }
// arrays given before the mesh, another mesh and more arrays later
void t_index_again() {
    ef_everywhere([&](int rank) {
        S at = on("", rank);
        PUnstructuredGridVTK g(MPI_COMM_WORLD); Cells m(on("grid", rank)), o(on("other", rank));
        g.addPointData(*new Array(nth("point", 0, at))); g.addCellData(*new Array(nth("cell", 0, at)));
        g.buildMesh(m); g.toVTK("one");
        g.addCellData(*new Array(nth("cell", 1, at))); g.buildMesh(o); g.addPointData(*new Array(nth("point", 1, at)));
        g.toVTK("two"); g.toVTK("one.more");
    });
    ef_files();
}
void r_index_again() {
    ef_everywhere([&](int rank) {
        S at = on("", rank);
        for (int k = 0; k < 3; k++) {
            S base = k == 0 ? "one" : k == 1 ? "two" : "one.more", of = on(k == 0 ? "grid" : "other", rank);
            int c = k == 0 ? 1 : 2;
            file(piece(base, rank), grid(of, c, c, at));
            if (rank == 0) file(base + ".pvtu", index(parray(of + " points"), section("PCellData", "cell", c, true, at), section("PPointData", "point", c, true, at), ef_ranks(), base));
        }
    });
    ef_files();
}
// every rank for itself
void t_index_self() { ef_everywhere([&](int rank) { PUnstructuredGridVTK g(MPI_COMM_SELF); write(g, rank, ef_name("base") + std::to_string(rank)); }); ef_files(); }
void r_index_self() { ef_everywhere([&](int rank) { expected(0, 1, rank, ef_name("base") + std::to_string(rank)); }); ef_files(); }
// the last ranks in turned order
void t_index_split() {
    ef_everywhere([&](int rank) {
        MPI_Comm c; MPI_Comm_split(MPI_COMM_WORLD, rank == 0 ? MPI_UNDEFINED : 1, -rank, &c);
        if (rank != 0) { PUnstructuredGridVTK g(c); write(g, rank, ef_name("base")); }
    });
    ef_files();
}
void r_index_split() { ef_everywhere([&](int rank) { if (rank != 0) expected(ef_ranks() - 1 - rank, ef_ranks() - 1, rank, ef_name("base")); }); ef_files(); }
// ---------------------------------------------------------------- texts of arrays
template<class T> S words(std::vector<T> v) {
    S s = "";
    for (auto x : v) { std::ostringstream o; o.precision(std::numeric_limits<T>::max_digits10); o << x; s += o.str() + " "; }
    return s;
}
template<class T> S word(T x) { std::ostringstream o; o.precision(std::numeric_limits<T>::max_digits10); o << x; return o.str(); }
S t_data(Vector<double> v) { return v.getData(); }
S r_data(Vector<double> v) { return words(v.data()); }
S t_datai(Vector<int> v) { return v.getData(); }
S r_datai(Vector<int> v) { return words(v.data()); }
S t_least(Vector<double> v) { return v.getRangeMin(); }
S r_least(Vector<double> v) { return v.size() == 0 ? S("0") : word(*std::min_element(v.data().begin(), v.data().end())); }
S t_leasti(Vector<int> v) { return v.getRangeMin(); }
S r_leasti(Vector<int> v) { return v.size() == 0 ? S("0") : word(*std::min_element(v.data().begin(), v.data().end())); }
S t_most(Vector<double> v) { return v.getRangeMax(); }
S r_most(Vector<double> v) { return v.size() == 0 ? S("0") : word(*std::max_element(v.data().begin(), v.data().end())); }
S t_mosti(Vector<int> v) { return v.getRangeMax(); }
S r_mosti(Vector<int> v) { return v.size() == 0 ? S("0") : word(*std::max_element(v.data().begin(), v.data().end())); }
S t_labels(Vector<double> v, S name, S type, S components) { v.name() = name; v.setType(type); v.setNumberOfComponents(components); return v.getName() + "|" + v.getType() + "|" + v.getNumberOfComponents() + "|" + v.getFormat(); }
S r_labels(Vector<double> v, S name, S type, S components) { return name + "|" + type + "|" + components + "|ascii"; }
} }
