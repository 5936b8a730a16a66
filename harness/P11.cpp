// P11: the assignment solver returns a cheapest assignment.
#include "pbt.h"
#include <iostream>
#include <utMath/Graph/Munkres.h>
using namespace Ubitrack;
typedef long double ld;
namespace {
/// cost of a cheapest assignment of n rows to m >= n columns: brute force over subsets (n <= m <= 12)
ld brute(const std::vector<std::vector<ld>>& c, int n, int m) {
    const ld INF = 1e300L; std::vector<ld> best(size_t(1) << m, INF); best[0] = 0;
    for (size_t s = 0; s < best.size(); ++s) { if (best[s] >= INF) continue; int r = __builtin_popcountll(s); if (r >= n) continue; for (int j = 0; j < m; ++j) if (!(s >> j & 1)) best[s | size_t(1) << j] = std::min(best[s | size_t(1) << j], best[s] + c[r][j]); }
    ld b = INF; for (size_t s = 0; s < best.size(); ++s) if (__builtin_popcountll(s) == n) b = std::min(b, best[s]);
    return b;
}
/// potentials based O(n^2 m) algorithm
ld potentials(const std::vector<std::vector<ld>>& a, int n, int m) {
    const ld INF = 1e300L; std::vector<ld> u(n + 1), v(m + 1); std::vector<int> p(m + 1), way(m + 1);
    for (int i = 1; i <= n; ++i) { p[0] = i; int j0 = 0; std::vector<ld> minv(m + 1, INF); std::vector<char> used(m + 1, 0);
        do { used[j0] = 1; int i0 = p[j0], j1 = 0; ld delta = INF; for (int j = 1; j <= m; ++j) if (!used[j]) { ld cur = a[i0 - 1][j - 1] - u[i0] - v[j]; if (cur < minv[j]) { minv[j] = cur; way[j] = j0; } if (minv[j] < delta) { delta = minv[j]; j1 = j; } }
            for (int j = 0; j <= m; ++j) if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else minv[j] -= delta; j0 = j1; } while (p[j0] != 0);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0); }
    ld s = 0; for (int j = 1; j <= m; ++j) if (p[j]) s += a[p[j] - 1][j - 1]; return s;
}
ld optimum(std::vector<std::vector<ld>> c, int n, int m) {
    if (n > m) { std::vector<std::vector<ld>> t(m, std::vector<ld>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) t[j][i] = c[i][j]; c.swap(t); std::swap(n, m); }
    return m <= 8 ? brute(c, n, m) : potentials(c, n, m);
}
template <class T> void fill(pbt::Ctx& g, Math::Matrix<T, 0, 0>& A, std::vector<std::vector<ld>>& c, int n, int m) {
    A.resize(n, m, false); c.assign(n, std::vector<ld>(m)); int kind = g.range(0, 5); bool integral = std::is_integral<T>::value; if (integral && kind > 3) kind = 1;
    std::vector<double> px, py, qx, qy; if (kind == 4) { for (int i = 0; i < n; ++i) { px.push_back(g.sym(5)); py.push_back(g.sym(5)); } for (int j = 0; j < m; ++j) { if (j < n && g.coin()) { qx.push_back(px[j] + g.sym(0.2)); qy.push_back(py[j] + g.sym(0.2)); } else { qx.push_back(g.sym(5)); qy.push_back(g.sym(5)); } } }
    static const char* names[] = {"0/1 costs", "small integers", "integers with negative values", "product i*j", "distances of points", "reals"}; g.cls(names[kind]); g.note() << n << 'x' << m << ' ' << names[kind] << ':';
    // the unit of the costs does not matter (a power of two keeps integers exact)
    double unit = !integral && g.oneIn(3) ? std::ldexp(1.0, g.range(-60, 40)) : 1; if (unit < 1e-3) g.cls("tiny costs"); if (unit != 1) g.note() << " unit " << unit << ':';
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) {
        double x = 0;
        switch (kind) { case 0: x = g.range(0, 1); break; case 1: x = g.range(0, 9); break; case 2: x = g.range(-9, 9); break; case 3: x = (i + 1) * (j + 1); break; case 4: x = std::hypot(px[i] - qx[j], py[i] - qy[j]); break; default: x = g.oneIn(6) ? g.range(0, 2) : g.real(0, 10); }
        x *= unit; A(i, j) = T(x); c[i][j] = A(i, j); if (i < 6 && j < 6) g.note() << ' ' << double(A(i, j));
    }
}
template <class T> void verify(Math::Graph::Munkres<T>& s, const std::vector<std::vector<ld>>& c, int n, int m) {
    int N = std::max(n, m); auto rows = s.getRowMatchList(); auto cols = s.getColMatchList(); auto mask = s.getMaskMatrix();
    REQ(int(rows.size()) == N && int(cols.size()) == N, "match list has " << rows.size() << " / " << cols.size() << " entries for a " << n << "x" << m << " problem");
    std::vector<int> seen(N, 0); ld sum = 0, mag = 0; int matched = 0;
    for (int i = 0; i < N; ++i) { REQ(int(rows[i]) < N, "row " << i << " matched to column " << rows[i]); REQ(!seen[rows[i]]++, "column " << rows[i] << " is assigned twice"); REQ(int(cols[rows[i]]) == i, "row and column match lists disagree at row " << i);
        if (i < n && int(rows[i]) < m) { sum += c[i][rows[i]]; ++matched; } }
    for (auto& r : c) for (ld x : r) mag = std::max(mag, std::fabs(x));
    REQ(int(mask.size1()) >= n && int(mask.size2()) >= m, "mask matrix is smaller than the problem");
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) REQ((ld(mask(i, j)) == 1) == (int(rows[i]) == j), "mask matrix disagrees with the match list at " << i << "," << j);
    REQ(matched == std::min(n, m), "only " << matched << " of " << std::min(n, m) << " possible matches");
    ld opt = optimum(c, n, m); ld tol = std::is_integral<T>::value ? 0 : std::numeric_limits<T>::epsilon() * 64 * N * N * mag;
    REQ(std::fabs(sum - opt) <= tol, "assignment costs " << double(sum) << ", a cheapest one costs " << double(opt));
}
template <class T> void one(pbt::Ctx& g, int n, int m) { Math::Matrix<T, 0, 0> A; std::vector<std::vector<ld>> c; fill(g, A, c, n, m); g.nontrivial(n > 1 && m > 1);
    Math::Graph::Munkres<T> s(A); s.solve(); verify(s, c, n, m); }
}  // namespace
PROP(square, 20000, 1000000, "at least 2x2") { int n = g.size(1, 9); switch (g.draw(2)) { case 0: one<double>(g, n, n); break; case 1: one<float>(g, n, n); break; default: one<int>(g, n, n); } }
PROP(rectangular, 20000, 1000000, "at least 2 rows and columns") { int n = g.size(1, 8), m = g.size(1, 8); g.cls(n < m ? "wide" : n > m ? "tall" : "square"); switch (g.draw(2)) { case 0: one<double>(g, n, m); break; case 1: one<float>(g, n, m); break; default: one<int>(g, n, m); } }
PROP(large, 300, 10000, "at least 10x10") { int n = g.range(10, 30), m = g.oneIn(2) ? n : g.range(10, 30); one<double>(g, n, m); }
PROP(reuse_history, 3000, 100000, "at least two problems solved with one solver") {
    int k = g.range(1, 5); Math::Graph::Munkres<double> s; g.nontrivial(k > 1);
    for (int i = 0; i < k; ++i) { int n = g.size(1, 7), m = g.oneIn(2) ? n : g.size(1, 7); Math::Matrix<double, 0, 0> A; std::vector<std::vector<ld>> c; fill(g, A, c, n, m); s.setMatrix(A); s.solve(); verify(s, c, n, m); }
}
