// Table interpolation. t_*: what a user reads after calling the repository; r_*: the definition.
#include "ef_spec.hpp"
#include "Interpolation.hpp"
namespace efs {
// the interval the base class selects, for any order
struct Probe : InterpolantBase {
    Probe(Vector<double>& x, const Vector<double>& y, int m) : InterpolantBase(x, y, m) {}
    double rawInterp(int j, double x) { return j; }
};
struct Three { double a, b, c; };
struct ThreeI { int a, b, c; };

// monotone tables: strictly increasing or strictly decreasing
inline void wf(Vector<double>& x) {
    ef_assume(x.size() >= 1);
    for (int i = 0; i + 1 < (int) x.size(); i++) ef_assume(x[0] < x[x.size() - 1] ? x[i] < x[i + 1] : x[i] > x[i + 1]);
}
// the number of the interval that brackets q, or the nearest end interval
inline int bracket(Vector<double>& x, double q) {
    int n = x.size(), j = 0;
    bool up = x[n - 1] >= x[0];
    for (int i = 1; i + 1 < n; i++) if (up ? q >= x[i] : q < x[i]) j = i;
    return j;
}
inline double line(Vector<double>& x, const Vector<double>& y, double q) {
    int j = bracket(x, q);
    return y[j] + (q - x[j]) * (y[j + 1] - y[j]) / (x[j + 1] - x[j]);
}
Three t_linear(Vector<double>& x, Vector<double>& y, double q0, double q1, double q2) {
    LinearInterpolant f(x, y);
    double a = f(q0), b = f(q1), c = f(q2);
    return Three{a, b, c};
}
Three r_linear(Vector<double>& x, Vector<double>& y, double q0, double q1, double q2) {
    wf(x); ef_assume(y.size() == x.size());
    require(x.size() >= 2);
    return Three{line(x, y, q0), line(x, y, q1), line(x, y, q2)};
}
Vector<double> t_many(Vector<double>& x, Vector<double>& y, Vector<double>& q) { LinearInterpolant f(x, y); return f(q); }
Vector<double> r_many(Vector<double>& x, Vector<double>& y, Vector<double>& q) {
    wf(x); ef_assume(y.size() == x.size());
    require(x.size() >= 2 || q.size() == 0);
    Vector<double> v(q.size());
    for (int i = 0; i < (int) q.size(); i++) v[i] = line(x, y, q[i]);
    return v;
}
// a window of m table points around the bracketing interval, inside the table
Three t_window(Vector<double>& x, Vector<double>& y, int m, double q0, double q1, double q2) {
    Probe f(x, y, m);
    double a = f(q0), b = f(q1), c = f(q2);
    return Three{a, b, c};
}
inline double window(Vector<double>& x, int m, double q) {
    int n = x.size(), j = bracket(x, q) - (m - 2) / 2;
    if (j > n - m) j = n - m;
    if (j < 0) j = 0;
    return j;
}
Three r_window(Vector<double>& x, Vector<double>& y, int m, double q0, double q1, double q2) {
    wf(x); ef_assume(y.size() == x.size());
    // at a table point either neighbouring interval will do
    for (int i = 0; i < (int) x.size(); i++) { ef_assume(q0 != x[i]); ef_assume(q1 != x[i]); ef_assume(q2 != x[i]); }
    require(x.size() >= 2 && m >= 2 && m <= (int) x.size());
    return Three{window(x, m, q0), window(x, m, q1), window(x, m, q2)};
}
}
