// Curvilinear grids for the harnesses.
#pragma once
#include "ops.hpp"
#include "ref.hpp"
namespace cg
{
    using namespace mk;
    inline bool ok(const CG& g, int i, int j) { return i >= 0 && j >= 0 && i < g.n && j < g.m && g.at(i, j).x != MISS && g.at(i, j).y != MISS; }
    inline bool face(const CG& g, int i, int j) { return ok(g, i, j) && ok(g, i, j + 1) && ok(g, i + 1, j) && ok(g, i + 1, j + 1); }
    inline void setNode(CG& g, int i, int j, P p) { g.x[(size_t)i * g.m + j] = p.x; g.y[(size_t)i * g.m + j] = p.y; }
    inline void kill(CG& g, int i, int j) { setNode(g, i, j, {MISS, MISS}); }
    // nodes that are not a corner of a complete face disappear
    inline void close(CG& g)
    {
        std::vector<char> keep((size_t)g.n * g.m, 0);
        for (int i = 0; i + 1 < g.n; i++) for (int j = 0; j + 1 < g.m; j++) if (face(g, i, j)) for (int a : {0, 1}) for (int b : {0, 1}) keep[(size_t)(i + a) * g.m + j + b] = 1;
        for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (!keep[(size_t)i * g.m + j]) kill(g, i, j);
    }
    // outer lines without any node are dropped
    inline CG trim(const CG& g)
    {
        int i0 = g.n, i1 = -1, j0 = g.m, j1 = -1; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j)) { i0 = std::min(i0, i); i1 = std::max(i1, i); j0 = std::min(j0, j); j1 = std::max(j1, j); }
        CG r; if (i1 < 0) return r; r.n = i1 - i0 + 1; r.m = j1 - j0 + 1; r.x.resize((size_t)r.n * r.m); r.y = r.x; for (int i = 0; i < r.n; i++) for (int j = 0; j < r.m; j++) setNode(r, i, j, ok(g, i0 + i, j0 + j) ? g.at(i0 + i, j0 + j) : P{MISS, MISS}); return r;
    }
    inline std::string diff(CG a, CG b, double tol)
    {
        a = trim(a); b = trim(b); if (a.n != b.n || a.m != b.m) return fmt("%d x %d nodes expected, %d x %d found", a.n, a.m, b.n, b.m);
        for (int i = 0; i < a.n; i++) for (int j = 0; j < a.m; j++)
        {
            if (ok(a, i, j) != ok(b, i, j)) return fmt("node (%d,%d) at (%g,%g) %s", i, j, a.at(i, j).x, a.at(i, j).y, ok(a, i, j) ? "is missing" : "should not be there");
            if (ok(a, i, j) && !(dist(a.at(i, j), b.at(i, j)) <= tol)) return fmt("node (%d,%d) is at (%.10g,%.10g), expected (%.10g,%.10g)", i, j, b.at(i, j).x, b.at(i, j).y, a.at(i, j).x, a.at(i, j).y);
        }
        return "";
    }
    inline CG make(int n, int m, const std::function<P(int, int)>& f) { CG g; g.n = n; g.m = m; g.x.resize((size_t)n * m); g.y = g.x; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) setNode(g, i, j, f(i, j)); return g; }
    inline int put(int id, const CG& g) { std::vector<P> p; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) p.push_back(g.at(i, j)); return setCG(id, g.n, g.m, p); }
    inline P bow(double u, double v) { double r = 60 + 11 * v, t = 0.13 * u; return {r * std::sin(t) + 3, r * std::cos(t) - 40}; } // a bend
    // 0 rectangular, 1 a bend, 2 rectangular with a missing corner block, 3 rectangular with a hole, 4 irregular spacing, sheared
    inline CG base(int k, int n = 5, int m = 6)
    {
        CG g; static const double X[] = {0, 9, 21, 30, 42, 50, 61}, Y[] = {0, 8, 20, 29, 41, 52};
        switch (k)
        {
        case 1: return make(n, m, [](int i, int j) { return bow(j, i); });
        case 4: return make(n, m, [&](int i, int j) { return P{X[j] + 0.15 * Y[i], Y[i] - 0.1 * X[j]}; });
        default: g = make(n, m, [](int i, int j) { return P{10.0 * j, 12.0 * i}; });
        }
        if (k == 2) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) kill(g, i, j); }
        if (k == 3) { kill(g, 2, 2); kill(g, 2, 3); }
        return g;
    }
    inline void hash(mc::Hash& h, const CG& g) { h.i(g.n); h.i(g.m); for (double v : g.x) h.d(v); for (double v : g.y) h.d(v); }
}
