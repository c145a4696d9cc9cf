// Traversals of the quadtree, followed on every rank of a small machine.
#include "ef_spec.hpp"
#include "Quadtree.hpp"
// run a program on every rank
void ef_everywhere(std::function<void(int)> program);
// the reference: the calls a traversal owes to its callbacks
void ef_expect(const char* what, int root);
int ef_leafvalue(std::string path);
int ef_combined(std::string path, int a, int b, int c, int d);
int ef_handed(std::string path, int x, int i);
int ef_goon(std::string path);
bool ef_mine();
// what the forest says on this rank
int ef_ranks();
int ef_local_quadrants();
int ef_global_quadrants();
// the quadrants of the whole forest that this rank's search enters
int ef_entered();
std::string ef_path(int k);
void ef_slot(std::string path, bool owned, int level, int pfirst, int plast, bool leaf);
void ef_leaf(std::string path);
void ef_node(std::string path, int level, bool leaf);
void ef_data(int x);
void ef_family(std::string parent, std::string p0, int d0, std::string p1, int d1, std::string p2, int d2, std::string p3, int d3);
namespace efs { namespace tree {
using N = Node<int>;
using Q = Quadtree<int>;
class Nodes : public AbstractNodeFactory<int> {
public:
    N* createNode(int data, std::string path, int level, int pfirst, int plast) override { return new N(MPI_COMM_WORLD, data, path, level, pfirst, plast); }
    N* createChildNode(N* parent, int i, int pfirst, int plast) override { return new N(MPI_COMM_WORLD, ef_handed(parent->path, parent->data, i), parent->path + std::to_string(i), parent->level + 1, pfirst, plast); }
    N* createParentNode(std::vector<N*> c, int pfirst, int plast) override { return new N(MPI_COMM_WORLD, 0, c[0]->path.substr(0, c[0]->path.length() - 1), c[0]->level - 1, pfirst, plast); }
};
inline void here(p4est_t& forest, int rank) { forest.mpirank = rank; forest.mpisize = ef_ranks(); forest.local_num_quadrants = ef_local_quadrants(); forest.global_num_quadrants = ef_global_quadrants(); }
#define ON_EVERY_RANK(...) ef_everywhere([&](int rank) { here(forest, rank); Nodes f; int root_data = root; Q t(MPI_COMM_WORLD, &forest, root_data, f); __VA_ARGS__; })
inline int visit(N* n) { ef_node(n->path, n->level, n->leaf); return 1; }
inline int leaf(N* n) { ef_leaf(n->path); n->data = ef_leafvalue(n->path); return 1; }
inline int family(N* n, std::vector<N*> c) {
    ef_family(n->path, c[0]->path, c[0]->data, c[1]->path, c[1]->data, c[2]->path, c[2]->data, c[3]->path, c[3]->data);
    n->data = ef_combined(n->path, c[0]->data, c[1]->data, c[2]->data, c[3]->data);
    return 1;
}
void t_pre(p4est_t& forest, int root) { ON_EVERY_RANK(t.traversePreOrder([&](N* n) { return visit(n); })); }
void r_pre(p4est_t& forest, int root) { ef_expect("pre", root); }
void t_post(p4est_t& forest, int root) { ON_EVERY_RANK(t.traversePostOrder([&](N* n) { return visit(n); })); }
void r_post(p4est_t& forest, int root) { ef_expect("post", root); }
void t_predata(p4est_t& forest, int root) { ON_EVERY_RANK(t.traversePreOrder([&](int& d) { ef_data(d); })); }
void r_predata(p4est_t& forest, int root) { ef_expect("predata", root); }
void t_postdata(p4est_t& forest, int root) { ON_EVERY_RANK(t.traversePostOrder([&](int& d) { ef_data(d); })); }
void r_postdata(p4est_t& forest, int root) { ef_expect("postdata", root); }
void t_stop(p4est_t& forest, int root) { ON_EVERY_RANK(t.traversePreOrder([&](N* n) { visit(n); return ef_goon(n->path); })); }
void r_stop(p4est_t& forest, int root) { ef_expect("stop", root); }
void t_merge(p4est_t& forest, int root) { ON_EVERY_RANK(t.merge([&](N* n) { return leaf(n); }, [&](N* n, std::vector<N*> c) { return family(n, c); }); if (ef_mine()) ef_data(t.root())); }
void r_merge(p4est_t& forest, int root) { ef_expect("merge root", root); }
void t_split(p4est_t& forest, int root) {
    ON_EVERY_RANK(t.split([&](N* n) { ef_leaf(n->path); ef_data(n->data); return 1; }, [&](N* n, std::vector<N*> c) {
        ef_family(n->path, c[0]->path, n->data, c[1]->path, n->data, c[2]->path, n->data, c[3]->path, n->data);
        for (int i = 0; i < 4; i++) c[i]->data = ef_handed(n->path, n->data, i);
        return 1;
    }));
}
void t_mergesplit(p4est_t& forest, int root) {
    ON_EVERY_RANK(t.merge([&](N* n) { return leaf(n); }, [&](N* n, std::vector<N*> c) { return family(n, c); });
        if (ef_mine()) ef_data(t.root());
        t.split([&](N* n) { ef_leaf(n->path); ef_data(n->data); return 1; }, [&](N* n, std::vector<N*> c) {
        ef_family(n->path, c[0]->path, n->data, c[1]->path, n->data, c[2]->path, n->data, c[3]->path, n->data);
        for (int i = 0; i < 4; i++) c[i]->data = ef_handed(n->path, n->data, i);
        return 1;
    }));
}
void r_mergesplit(p4est_t& forest, int root) { ef_expect("merge root split-merged", root); }
void r_split(p4est_t& forest, int root) { ef_expect("split", root); }
inline void slots(Q& t) {
    for (int k = 0; k < ef_entered(); k++) {
        N* n = t.map.count(ef_path(k)) > 0 ? t.map[ef_path(k)] : nullptr;
        if (n != nullptr) ef_slot(n->path, true, n->level, n->pfirst, n->plast, n->leaf); else ef_slot(ef_path(k), false, 0, 0, 0, false);
    }
    ef_data(t.map.size());
}
void t_nodes(p4est_t& forest, int root) { ON_EVERY_RANK(slots(t)); }
void r_nodes(p4est_t& forest, int root) { ef_expect("nodes", root); }
inline void merge(Q& t) { t.merge([&](N* n) { return leaf(n); }, [&](N* n, std::vector<N*> c) { return family(n, c); }); }
void t_moved(p4est_t& forest, int root) {
    ef_everywhere([&](int rank) {
        here(forest, rank);
        Nodes f; int root_data = root;
        Q t;
        t = Q{MPI_COMM_WORLD, &forest, root_data, f};
        slots(t);
        merge(t);
        if (ef_mine()) ef_data(t.root());
        t.traversePreOrder([&](N* n) { return visit(n); });
    });
}
void r_moved(p4est_t& forest, int root) { ef_expect("nodes merge root pre", root); }
void t_several(p4est_t& forest, int root) {
    ON_EVERY_RANK(t.traversePreOrder([&](N* n) { return visit(n); }); t.traversePreOrder([&](int& d) { ef_data(d); }); t.traversePostOrder([&](N* n) { return visit(n); }); merge(t); t.traversePostOrder([&](N* n) { return visit(n); }); t.traversePreOrder([&](N* n) { return visit(n); }));
}
void r_several(p4est_t& forest, int root) { ef_expect("pre predata post merge post pre", root); }
// each tree's traversals stay on that tree
void t_two(p4est_t& forest, int root) {
    ON_EVERY_RANK(
        Q u(MPI_COMM_WORLD, &forest, root_data, f);
        t.traversePreOrder([&](N* n) { return visit(n); });
        merge(t);
        u.traversePostOrder([&](int& d) { ef_data(d); });
        if (ef_mine()) ef_data(t.root());
        u.traversePostOrder([&](N* n) { return visit(n); });
        t.traversePreOrder([&](N* n) { return visit(n); });
        u.traversePreOrder([&](int& d) { ef_data(d); });
    );
}
void r_two(p4est_t& forest, int root) { ef_expect("pre merge postdata root post pre predata", root); }
void t_pointer(p4est_t& forest, int root) {
    int theirs = 0;
    ON_EVERY_RANK(
        forest.user_pointer = &theirs; t.traversePreOrder([&](N* n) { return visit(n); });
        forest.user_pointer = &theirs; t.traversePostOrder([&](N* n) { return visit(n); });
        forest.user_pointer = &theirs; t.traversePreOrder([&](int& d) { ef_data(d); });
        forest.user_pointer = &theirs; t.traversePostOrder([&](int& d) { ef_data(d); });
        forest.user_pointer = &theirs; merge(t);
        forest.user_pointer = &theirs; t.split([&](N* n) { ef_leaf(n->path); ef_data(n->data); return 1; }, [&](N* n, std::vector<N*> c) {
            ef_family(n->path, c[0]->path, n->data, c[1]->path, n->data, c[2]->path, n->data, c[3]->path, n->data);
            for (int i = 0; i < 4; i++) c[i]->data = ef_handed(n->path, n->data, i);
            return 1;
        });
    );
}
void r_pointer(p4est_t& forest, int root) { ef_expect("pre post predata postdata merge split-merged", root); }
// a split does not go below a family whose callback answers 0; what leaves answer, and what families of a merge answer, changes nothing
void t_splitstop(p4est_t& forest, int root) {
    ON_EVERY_RANK(t.split([&](N* n) { ef_leaf(n->path); ef_data(n->data); return ef_goon(n->path); }, [&](N* n, std::vector<N*> c) {
        ef_family(n->path, c[0]->path, n->data, c[1]->path, n->data, c[2]->path, n->data, c[3]->path, n->data);
        for (int i = 0; i < 4; i++) c[i]->data = ef_handed(n->path, n->data, i);
        return ef_goon(n->path);
    }));
}
void r_splitstop(p4est_t& forest, int root) { ef_expect("splitstop", root); }
void t_mergestop(p4est_t& forest, int root) { ON_EVERY_RANK(t.merge([&](N* n) { leaf(n); return ef_goon(n->path); }, [&](N* n, std::vector<N*> c) { family(n, c); return ef_goon(n->path); }); if (ef_mine()) ef_data(t.root())); }
// a tree that replaces one over another forest
void t_replaced(p4est_t& forest, p4est_t& other, int root) {
    ef_everywhere([&](int rank) {
        here(forest, rank); here(other, rank);
        Nodes f; int root_data = root; int other_data = root + 1;
        Q t{MPI_COMM_WORLD, &other, other_data, f};
        t.traversePreOrder([&](N* n) { return 1; });
        t.merge([&](N* n) { return 1; }, [&](N* n, std::vector<N*> c) { return 1; });
        t.traversePostOrder([&](int& d) { });
        t = Q{MPI_COMM_WORLD, &forest, root_data, f};
        slots(t);
        t.traversePostOrder([&](N* n) { return visit(n); });
        t.traversePostOrder([&](int& d) { ef_data(d); });
        merge(t);
        if (ef_mine()) ef_data(t.root());
    });
}
void r_replaced(p4est_t& forest, p4est_t& other, int root) { ef_expect("nodes post postdata merge root", root); }
} }
