// Options: typing of text, command line, INI file, histories of settings.
#include "ef_spec.hpp"
void ef_libs(int mpi, int petsc, bool petsc_owns_mpi);
// meaning of a text as a number (decimal grammar: sign, digits, point, exponent)
bool ef_text_int(const std::string& t);
bool ef_text_real(const std::string& t);
namespace efs::opts {
using OT = Options::OptionTypes;
struct Opt { bool has; OT value; };
inline OT typed(const std::string& t) {
    if (t == "true") return OT(true);
    if (t == "false") return OT(false);
    if (ef_text_int(t)) return OT((int) std::stoi(t));
    if (ef_text_real(t)) return OT((double) std::stod(t));
    return OT(t);
}
inline Opt look(Options& o, const std::string& key) {
    Opt r{o.optionExists(key), OT(std::string(""))};
    if (r.has) r.value = o[key];
    return r;
}
// ---- text
OT t_text(std::string text) { Options o; return o.checkValue(text); }
OT r_text(std::string text) { return typed(text); }
// ---- histories: set, set, assign through the reference
Opt t_history(std::string k1, std::string k2, std::string k3, std::string key, OT v1, OT v2, OT v3) {
    Options o;
    o.setOption(k1, v1);
    o[k2] = v2;
    o.setOption(k3, v3);
    return look(o, key);
}
Opt r_history(std::string k1, std::string k2, std::string k3, std::string key, OT v1, OT v2, OT v3) {
    if (key == k3) return Opt{true, v3};
    if (key == k2) return Opt{true, v2};
    if (key == k1) return Opt{true, v1};
    return Opt{false, OT(std::string(""))};
}
// ---- from a map
Opt t_map(std::map<std::string, OT> m, std::string key) { Options o(m); return look(o, key); }
Opt r_map(std::map<std::string, OT> m, std::string key) {
    bool h = m.find(key) != m.end();
    Opt r{h, OT(std::string(""))};
    if (h) r.value = m[key];
    return r;
}
// ---- command line
inline void word(const std::string& a, const std::string& key, Opt& r) {
    if (a.length() == 0 || a[0] != '-') return;
    size_t b = a.length() > 1 && a[1] == '-' ? 2 : 1;
    size_t e = a.find('=', b);
    std::string name = e == std::string::npos ? a.substr(b) : a.substr(b, e - b);
    if (name != key) return;
    r.has = true;
    r.value = e == std::string::npos ? OT(std::string("")) : typed(a.substr(e + 1));
}
Opt t_args(int argc, char** argv, std::string key, std::string k0, OT v0) {
    Options o;
    o.setOption(k0, v0);
    InputParser p(argc, argv);
    p.parse(o);
    return look(o, key);
}
Opt r_args(int argc, char** argv, std::string key, std::string k0, OT v0) {
    ef_assume(argc >= 1);
    Opt r{key == k0, OT(std::string(""))};
    if (key == k0) r.value = v0;
    for (int i = 1; i < argc; i++) word(argv[i], key, r);
    return r;
}
// ---- the application's options
Opt t_app_args(int argc, char** argv, std::string key, int mpi, int petsc) {
    ef_libs(mpi, petsc, false);
    EllipticForestApp app(&argc, &argv);
    return look(app.options, key);
}
Opt r_app_args(int argc, char** argv, std::string key, int mpi, int petsc) {
    ef_assume(argc >= 1); ef_assume(mpi >= 0 && mpi <= 1 && petsc >= 0 && petsc <= mpi);
    Opt r{false, OT(std::string(""))};
    for (int i = 1; i < argc; i++) word(argv[i], key, r);
    return r;
}
// ---- file
inline bool blank(char c) { return c == ' ' || c == '\t' || c == '\r'; }
inline std::string trim(const std::string& s) {
    size_t a = s.find_first_not_of(" \t\r");
    if (a == std::string::npos) return std::string("");
    size_t b = s.find_last_not_of(" \t\r");
    return s.substr(a, b - a + 1);
}
Opt t_file(std::string filename, std::string key, std::string k0, OT v0) {
    Options o;
    o.setOption(k0, v0);
    o.setFromFile(filename);
    return look(o, key);
}
Opt r_file(std::string filename, std::string key, std::string k0, OT v0) {
    ef_assume(filename.length() >= 4);
    if (filename.substr(filename.length() - 3) != "ini") throw std::invalid_argument("");
    Opt r{key == k0, OT(std::string(""))};
    if (key == k0) r.value = v0;
    std::ifstream in(filename);
    std::string l;
    bool ours = false;
    while (std::getline(in, l)) {
        std::string s = trim(l);
        if (s.length() == 0 || s[0] == ';') continue;
        if (s[0] == '[' && s[s.length() - 1] == ']') ours = s == "[EllipticForest]";
        else if (ours) {
            size_t e = s.find('=');
            if (e != std::string::npos && trim(s.substr(0, e)) == key) { r.has = true; r.value = typed(trim(s.substr(e + 1))); }
        }
    }
    return r;
}
}
