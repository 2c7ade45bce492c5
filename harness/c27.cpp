// C27: grids and curves made from polygons and splines follow what they are made from.
#include "cg.hpp"
#include <map>
#include <algorithm>
using namespace mk;
using cg::ok;
namespace
{
    typedef std::vector<P> R;
    // natural cubic spline through the points, one unit of parameter per piece; second derivatives by elimination
    struct Spl
    {
        R p, d;
        explicit Spl(const R& q) : p(q), d(q.size(), P{0, 0})
        {
            int n = (int)p.size(); if (n < 3) return; int k = n - 2; std::vector<std::vector<double>> A(k, std::vector<double>(k, 0)); R b(k);
            for (int i = 0; i < k; i++) { A[i][i] = 4; if (i) A[i][i - 1] = 1; if (i + 1 < k) A[i][i + 1] = 1; b[i] = 6.0 * (p[i] + p[i + 2] - 2.0 * p[i + 1]); }
            for (int c = 0; c < k; c++) for (int r = c + 1; r < k; r++) { double f = A[r][c] / A[c][c]; for (int q2 = c; q2 < k; q2++) A[r][q2] -= f * A[c][q2]; b[r] = b[r] - f * b[c]; }
            for (int c = k - 1; c >= 0; c--) { P s = b[c]; for (int q2 = c + 1; q2 < k; q2++) s = s - A[c][q2] * d[q2 + 1]; d[c + 1] = (1 / A[c][c]) * s; }
        }
        P at(double t) const { int i = std::min(std::max((int)std::floor(t), 0), (int)p.size() - 2); double b = t - i, a = 1 - b; return a * p[i] + b * p[i + 1] + (1.0 / 6) * ((a * a * a - a) * d[i] + (b * b * b - b) * d[i + 1]); }
        double end() const { return (double)p.size() - 1; }
        double len(double a, double b) const { double L = 0; P q = at(a); int n = std::max(50, (int)(400 * std::fabs(b - a))); for (int k = 1; k <= n; k++) { P z = at(a + (b - a) * k / n); L += dist(q, z); q = z; } return L; }
        // parameter of the closest point
        double near(P q) const { double best = 1e300, t = 0; int n = 60 * (int)end(); for (int k = 0; k <= n; k++) { double u = end() * k / n, e = dist(at(u), q); if (e < best) { best = e; t = u; } } double lo = std::max(0.0, t - end() / n), hi = std::min(end(), t + end() / n); for (int k = 0; k < 60; k++) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (dist(at(a), q) < dist(at(b), q)) hi = b; else lo = a; } return 0.5 * (lo + hi); }
    };
    // parameters of the crossing of two splines
    bool meet(const Spl& a, const Spl& b, double& s, double& t)
    {
        double best = 1e300; for (int i = 0; i <= 40 * (int)a.end(); i++) for (int j = 0; j <= 40 * (int)b.end(); j++) { double e = dist(a.at(i / 40.0), b.at(j / 40.0)); if (e < best) { best = e; s = i / 40.0; t = j / 40.0; } }
        for (int k = 0; k < 40; k++) { double h = 1e-6; P f = a.at(s) - b.at(t), u = (0.5 / h) * (a.at(s + h) - a.at(s - h)), v = (-0.5 / h) * (b.at(t + h) - b.at(t - h)); double D = cross(u, v); if (std::fabs(D) < 1e-14) return false; s -= cross(f, v) / D; t -= cross(u, f) / D; }
        return s >= 0 && t >= 0 && s <= a.end() && t <= b.end() && dist(a.at(s), b.at(t)) < 1e-7;
    }
    double sar(const R& q) { double A = 0; for (size_t i = 0; i < q.size(); i++) A += 0.5 * cross(q[i], q[(i + 1) % q.size()]); return A; }
    double ldist(P q, const R& l) { double b = 1e300; for (size_t j = 0; j + 1 < l.size(); j++) { P u = l[j + 1] - l[j]; double t = std::min(1.0, std::max(0.0, dot(q - l[j], u) / dot(u, u))); b = std::min(b, dist(q, l[j] + t * u)); } return b; }
    void undone(Run& r, int id, const CG& before, const std::string& key) { bool u = false; int uid; CG o; api::mkernel_undo_state(u, uid); getCG(id, o); std::string d = cg::diff(before, o, 0); r.check(u && d.empty(), "undo:" + key, "undoing: " + d); }
    // the grid as a function of the numbers along the first and second direction, oriented so that the three given corners are the first three
    std::function<P(int, int)> frame(Run& r, const CG& g, int M, int N, P A, P B, P C, const std::string& key)
    {
        r.checkf((g.n == N + 1 && g.m == M + 1) || (g.n == M + 1 && g.m == N + 1), "size:" + key, [&] { return fmt("the grid has %d x %d nodes, expected %d x %d", g.n, g.m, N + 1, M + 1); });
        for (int tr = 0; tr < 2; tr++) for (int fi = 0; fi < 2; fi++) for (int fj = 0; fj < 2; fj++)
        {
            if (tr ? !(g.n == M + 1 && g.m == N + 1) : !(g.n == N + 1 && g.m == M + 1)) continue;
            auto f = [&g, tr, fi, fj, M, N](int a, int b) { a = fi ? M - a : a; b = fj ? N - b : b; return tr ? g.at(a, b) : g.at(b, a); };
            double e = 1e-2 * (dist(A, B) + dist(B, C)); if (dist(f(0, 0), A) < e && dist(f(M, 0), B) < e && dist(f(M, N), C) < e) return f;
        }
        r.check(false, "corners:" + key, "the corners of the grid are not the chosen corners"); return {};
    }
    void body(Run& r)
    {
        int sc = r.choose(6, "kind"); reset();
        if (sc == 0)
        { // points on splines
            int n = 2 + r.choose(4, "points"), code = r.choose(243, "heights"), between = r.choose(5, "between"), other = r.choose(3, "other spline"), bend = r.choose(2, "bend"); r.shard(); int lim = 1; for (int k = 0; k < n; k++) lim *= 3; if (code >= lim) throw mc::Skip{};
            R c; int q = code; for (int k = 0; k < n; k++) { c.push_back(bend ? P{12 * std::cos(0.9 * k) + (q % 3), 12 * std::sin(0.9 * k) - 0.5 * (q % 3)} : P{10.0 * k + (q % 3), 5.0 * (q % 3 - 1)}); q /= 3; } R o{{50, 1}, {57, 9}, {66, 3}}; std::vector<R> in; if (other == 1) in = {c, o}; else if (other == 2) in = {o, c}; else in = {c};
            Geo g; R want; for (size_t s = 0; s < in.size(); s++) { if (s) { g.sep(); want.push_back({MISS, MISS}); } for (P p : in[s]) g.add(p.x, p.y); Spl S(in[s]); for (size_t k = 0; k + 1 < in[s].size(); k++) for (int b = 0; b <= between; b++) want.push_back(S.at(k + double(b) / (between + 1))); want.push_back(in[s].back()); }
            Geo out = Geo::sized(want.size() + 2); int rc = api::mkernel_get_splines(g, out, between); r.step(); r.check(rc == 0, "call:spline", lastError()); r.validated++; for (size_t k = 0; k < want.size(); k++) r.checkf(dist(P{out.x[k], out.y[k]}, want[k]) < 1e-9, "spline", [&] { return fmt("point %d is (%g, %g), expected (%g, %g)", (int)k, out.x[k], out.y[k], want[k].x, want[k].y); });
            for (size_t k = want.size(); k < out.x.size(); k++) r.check(out.x[k] == -7777.25, "spline", "more points than asked for"); mc::Hash h; h.vd(out.x); h.vd(out.y); r.state(h.h); r.outcome((int)want.size());
        }
        else if (sc == 1)
        { // transfinite interpolation in a polygon with four sides
            static const R QUAD[] = {{{0, 0}, {40, 0}, {40, 30}, {0, 30}}, {{0, 0}, {40, 6}, {52, 38}, {12, 32}}, {{0, 0}, {44, -5}, {36, 30}, {5, 24}}, {{0, 0}, {30, 0}, {36, 20}, {-9, 26}}};
            int M = 1 + r.choose(4, "m"), N = 1 + r.choose(4, "n"), qd = r.choose(4, "shape"), gr = r.choose(4, "spacing"), bulge = r.choose(3, "bulge"), four = r.choose(3, "fourth side"), st = r.choose(2 * (M + N) + (four == 2), "first node"), dir = r.choose(2, "direction"), cor = r.choose(4, "corner"), proj = r.choose(2, "projection"), pre = r.choose(2, "existing"); r.shard();
            if (pre && (st || proj)) throw mc::Skip{}; if (!r.thorough() && (st * 3 + cor + qd + gr + bulge + 2 * proj) % 3) throw mc::Skip{}; if (four && cor) throw mc::Skip{};
            double s = proj ? 1e-4 : 1; P off = proj ? P{5, 50} : P{0, 0}; auto pos = [&](int k, int n, int side) { double t = double(k) / n; return gr == 0 ? t : gr == 1 ? t * (0.6 + 0.4 * t) : gr == 2 ? (side % 2 ? t * t : t) : t + 0.09 * std::sin(2 * M_PI * t); };
            // nodes along the sides: a from first to second, b from second to third; positions the same on opposite sides
            const R& q = QUAD[qd]; auto side = [&](int which, double t) { P a = q[which], b = q[(which + 1) % 4]; P m = a + t * (b - a), nrm{(b - a).y, -(b - a).x}; double h = bulge == 0 ? 0 : bulge == 1 ? (which == 0 || which == 2 ? 0.1 * (which == 2 ? -1 : 1) : 0) : 0.07; return off + s * (m + 4 * h * t * (1 - t) * nrm); };
            int K = four == 2 ? N + 1 : N; R poly; auto add = [&](int which, int n, bool back) { for (int k = 0; k < n; k++) { double t = back ? 1 - pos(n - k, n, which % 2) : pos(k, n, which % 2); poly.push_back(side(which, t)); } };
            auto opp = [&](int which, int n) { for (int k = 0; k < n; k++) { double t = 1 - pos(n - k, n, which % 2); poly.push_back(side(which, t)); } }; (void)add; for (int k = 0; k < M; k++) poly.push_back(side(0, pos(k, M, 0))); for (int k = 0; k < N; k++) poly.push_back(side(1, pos(k, N, 1))); opp(2, M); opp(3, K);
            int T = (int)poly.size(); // node numbers of the corners in poly: 0, M, M+N, 2M+N
            int cn[4] = {0, M, M + N, 2 * M + N}; auto num = [&](int k) { int v = dir ? (T - k) % T : k; return (v + st) % T; }; R P0(T); for (int k = 0; k < T; k++) P0[num(k)] = poly[k];
            Geo g; for (int k = 0; k <= T; k++) g.add(P0[k % T].x, P0[k % T].y); int c1 = num(cn[cor]), c2 = num(cn[(cor + 1) % 4]), c3 = num(cn[(cor + 2) % 4]); int m = cor % 2 ? N : M, n = cor % 2 ? M : N;
            int id = alloc(proj); CG before; if (pre) cg::put(id, cg::base(4)); getCG(id, before); int rc = api::mkernel_curvilinear_compute_transfinite_from_polygon(id, g, c1, c2, c3, four == 0); r.step(); std::string key = fmt("polygon;%s", four == 0 ? "four sides" : "three sides");
            r.check(rc == 0, "call:" + key, fmt("polygon of %d nodes, corners %d %d %d: ", T, c1, c2, c3) + lastError()); CG G; r.check(getCG(id, G) == 0, "read:" + key, lastError()); r.validated++;
            if (!st && !dir && !cor && !pre && (four == 0 || four == 2))
            { // one node too few for the sides
                int t2 = four ? 2 * M + N : T - 1; Geo g2; for (int k = 0; k <= t2; k++) g2.add(poly[k % t2].x, poly[k % t2].y); int i2 = alloc(proj); int rc2 = api::mkernel_curvilinear_compute_transfinite_from_polygon(i2, g2, cn[0], cn[1], cn[2], four == 0); r.checkf(rc2 != 0, "too few:" + key, [&] { return fmt("%d nodes are accepted for sides of %d and %d", t2, M, N); });
            }
            auto f = frame(r, G, m, n, P0[c1], P0[c2], P0[c3], key); auto nd = [&](int k) { return poly[((k % T) + T) % T]; }; int b0 = cn[cor]; double tol = 1e-9 * (1 + 40 * s);
            for (int a = 0; a <= m; a++) { P w = nd(b0 + a); r.checkf(dist(f(a, 0), w) < tol, "side:" + key, [&] { return fmt("node %d of the first side is not a node of the polygon", a); }); w = nd(b0 + 2 * m + n - a); r.checkf(dist(f(a, n), w) < tol, "side:" + key, [&] { return fmt("node %d of the third side is not a node of the polygon", a); }); }
            for (int b = 0; b <= n; b++) { P w = nd(b0 + m + b); r.checkf(dist(f(m, b), w) < tol, "side:" + key, [&] { return fmt("node %d of the second side is not a node of the polygon", b); }); P A = nd(b0), B = nd(b0 + 2 * m + n); w = four == 0 ? nd(b0 - b) : A + (double(b) / n) * (B - A); r.checkf(dist(f(0, b), w) < tol, "side:" + key, [&] { return fmt("node %d of the fourth side is wrong", b); }); }
            // cells keep their orientation and cover the area; the interior is exact when opposite sides are parallel and divided alike
            double A = 0, sg = sar({f(0, 0), f(m, 0), f(m, n), f(0, n)}) > 0 ? 1 : -1; R out; for (int a = 0; a < m; a++) out.push_back(f(a, 0)); for (int b = 0; b < n; b++) out.push_back(f(m, b)); for (int a = m; a > 0; a--) out.push_back(f(a, n)); for (int b = n; b > 0; b--) out.push_back(f(0, b));
            for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) { double z = sg * sar({f(a, b), f(a + 1, b), f(a + 1, b + 1), f(a, b + 1)}); A += z; r.checkf(z > 0, "folded:" + key, [&] { return fmt("cell (%d, %d) is folded", a, b); }); } r.checkf(std::fabs(A - sg * sar(out)) < 1e-9 * A, "area:" + key, [&] { return fmt("the cells cover %g of %g", A, sg * sar(out)); });
            bool alike = qd < 2 && bulge == 0 && (four == 0 || gr == 0 || gr == 2); if (four && gr == 2) alike = false; if (alike) for (int a = 0; a <= m; a++) for (int b = 0; b <= n; b++) { P w = f(a, 0) + f(0, b) - f(0, 0); r.checkf(dist(f(a, b), w) < (proj ? 2e-2 * s : 1e-7), "interior:" + key, [&] { return fmt("node (%d, %d) is %g off", a, b, dist(f(a, b), w) / s); }); }
            mc::Hash h; cg::hash(h, G); r.state(h.h); r.outcome(m * 10 + n); undone(r, id, before, key);
        }
        else if (sc == 2)
        { // a triangle
            static const R TRI[] = {{{0, 0}, {40, 0}, {18, 35}}, {{0, 0}, {50, 9}, {8, 31}}, {{0, 0}, {33, -6}, {29, 29}}};
            int a = 2 + r.choose(6, "first side"), b = 2 + r.choose(6, "second side"), c = 2 + r.choose(6, "third side"), t = r.choose(3, "shape"), gr = r.choose(3, "spacing"), st = r.choose(a + b + c, "first node"), proj = r.choose(2, "projection"), bulge = r.choose(2, "bulge"); r.shard(); if ((a + b + c) % 2 || a >= b + c || b >= a + c || c >= a + b) throw mc::Skip{}; if (!r.thorough() && (st + t + gr + proj) % 3) throw mc::Skip{};
            double s = proj ? 1e-4 : 1; P off = proj ? P{5, 50} : P{0, 0}; R poly; int nn[3] = {a, b, c}; for (int k = 0; k < 3; k++) for (int i = 0; i < nn[k]; i++) { double u = double(i) / nn[k]; if (gr == 1) u = u * (0.8 + 0.2 * u); if (gr == 2) u += 0.04 * std::sin(2 * M_PI * u); P A = TRI[t][k], B = TRI[t][(k + 1) % 3], nr{(B - A).y, -(B - A).x}; poly.push_back(off + s * (A + u * (B - A) + (bulge * 0.2 * u * (1 - u)) * nr)); }
            int T = (int)poly.size(); R P0(T); for (int k = 0; k < T; k++) P0[(k + st) % T] = poly[k]; Geo g; for (int k = 0; k <= T; k++) g.add(P0[k % T].x, P0[k % T].y); int id = alloc(proj); CG before; getCG(id, before); std::string key = "triangle";
            int rc = api::mkernel_curvilinear_compute_transfinite_from_triangle(id, g, st, (st + a) % T, (st + a + b) % T); r.step(); r.check(rc == 0, "call:" + key, lastError()); CG G; r.check(getCG(id, G) == 0, "read:" + key, lastError()); r.validated++;
            int h = (a + b + c) / 2, n1 = h - c, n2 = h - b, n3 = h - a; r.checkf(G.n == n1 + n3 + 1 && G.m == n2 + n3 + 1, "size:" + key, [&] { return fmt("%d x %d nodes, expected %d x %d", G.n, G.m, n1 + n3 + 1, n2 + n3 + 1); }); int cnt = 0, cells = 0; double A = 0; for (int i = 0; i < G.n; i++) for (int j = 0; j < G.m; j++) { cnt += ok(G, i, j); r.checkf(ok(G, i, j) == !(i > n1 && j < n3), "size:" + key, [&] { return fmt("node (%d, %d) is %s", i, j, ok(G, i, j) ? "there" : "missing"); }); }
            double sg = 0; for (int i = 0; i + 1 < G.n; i++) for (int j = 0; j + 1 < G.m; j++) if (cg::face(G, i, j)) { double z = sar({G.at(i, j), G.at(i, j + 1), G.at(i + 1, j + 1), G.at(i + 1, j)}); if (sg == 0) sg = z > 0 ? 1 : -1; if (std::min({n1, n2, n3}) * 3 >= std::max({n1, n2, n3}) && !bulge) r.checkf(z * sg > 0, "folded:" + key, [&] { return fmt("cell (%d, %d) is folded", i, j); }); A += z * sg; cells++; }
            r.checkf(cells == n1 * n3 + n2 * n3 + n1 * n2, "size:" + key, [&] { return fmt("%d cells", cells); }); r.checkf(std::fabs(A - std::fabs(sar(poly))) < 1e-8 * A, "area:" + key, [&] { return fmt("the cells cover %g of %g", A / s / s, std::fabs(sar(poly)) / s / s); }); for (int k = 0; k <= n3; k++) r.checkf(dist(G.at(n1, n3 - k), G.at(n1 + k, n3)) < 1e-9, "seam:" + key, [&] { return fmt("the blocks do not fit at %d", k); });
            for (int k = 0; k < T; k++) { bool in = false; for (int i = 0; i < G.n; i++) for (int j = 0; j < G.m; j++) in |= dist(G.at(i, j), poly[k]) < 1e-9 && ok(G, i, j); r.checkf(in, "side:" + key, [&] { return fmt("node %d of the outline is not in the grid", k); }); }
            mc::Hash hh; cg::hash(hh, G); r.state(hh.h); r.outcome(cnt); undone(r, id, before, key);
        }
        else if (sc == 3)
        { // splines in two families
            int nu = 2 + r.choose(2, "lines along"), nv = 2 + r.choose(2, "lines across"), shape = r.choose(4, "shape"), skew = r.choose(2, "skew"), M = 1 + r.choose(3, "m"), N = 1 + r.choose(3, "n"), method = r.choose(2, "method"), perm = r.choose(8, "order"), rev = r.choose(64, "direction"), proj = r.choose(2, "projection"); r.shard(); int ns = nu + nv; if (rev >> ns) throw mc::Skip{}; if (!r.thorough() && ((rev * 5 + perm + M + 2 * N + shape) % 11 || (proj && (rev + perm) % 3))) throw mc::Skip{}; 
            double s = proj ? 1e-4 : 1; P off = proj ? P{5, 50} : P{0, 0}; auto map = [&](double x, double y) { double X = x, Y = y; if (shape & 1) Y += 3.5 * std::sin(0.055 * x + 0.4); if (shape & 2) X += 0.004 * y * y + 0.05 * y; if (skew) { X += 0.25 * y; Y += 0.1 * x; } return off + s * P{X, Y}; };
            static const double U[3] = {0, 30, 47}, V[3] = {0, 41, 62}; std::vector<R> L; for (int k = 0; k < nu; k++) { R q; for (double x : {-9.0, 14.0, 35.0, V[nv - 1] + 11}) q.push_back(map(x, U[k])); if (!(shape & 1)) q = {q.front(), q.back()}; L.push_back(q); } for (int k = 0; k < nv; k++) { R q; for (double y : {-8.0, 19.0, U[nu - 1] + 9}) q.push_back(map(V[k], y)); if (!(shape & 2)) q = {q.front(), q.back()}; L.push_back(q); }
            std::vector<int> id(ns); for (int k = 0; k < ns; k++) id[k] = k; if (perm & 1) std::reverse(id.begin(), id.end()); if (perm & 2) std::swap(id[0], id[ns - 2]); if (perm & 4) std::rotate(id.begin(), id.begin() + 2, id.end()); std::vector<Spl> S; for (auto& l : L) S.emplace_back(l);
            Geo g; for (int k = 0; k < ns; k++) { if (k) g.sep(); R q = L[id[k]]; if (rev >> k & 1) std::reverse(q.begin(), q.end()); for (P p : q) g.add(p.x, p.y); } std::string key = fmt("splines;%s", method ? "grid" : "transfinite");
            // crossings
            std::vector<std::vector<double>> su(nu, std::vector<double>(nv)), sv(nv, std::vector<double>(nu)); for (int i = 0; i < nu; i++) for (int j = 0; j < nv; j++) if (!meet(S[i], S[nu + j], su[i][j], sv[j][i])) throw mc::Skip{}; for (int i = 0; i < nu; i++) for (int j = 0; j + 1 < nv; j++) if (su[i][j] >= su[i][j + 1]) throw mc::Skip{};
            meshkernel::CurvilinearParameters cp; cp.m_refinement = M; cp.n_refinement = N; int ki = alloc(proj); CG before; getCG(ki, before); int rc = method ? api::mkernel_curvilinear_compute_grid_from_splines(ki, g, cp) : api::mkernel_curvilinear_compute_transfinite_from_splines(ki, g, cp); r.step(); r.check(rc == 0, "call:" + key, lastError()); CG G; r.check(getCG(ki, G) == 0, "read:" + key, lastError()); r.validated++;
            bool first = id[0] < nu; int m = first ? M : N, n = first ? N : M; int TM = m * (nv - 1), TN = n * (nu - 1); P A = S[0].at(su[0][0]), B = S[0].at(su[0][nv - 1]), C = S[nu - 1].at(su[nu - 1][nv - 1]);
            r.checkf(first ? G.m == TM + 1 : G.n == TM + 1, "size:" + key, [&] { return fmt("%d x %d nodes for %d x %d lines refined %d x %d", G.n, G.m, nu, nv, M, N); }); auto f = frame(r, G, TM, TN, A, B, C, key);
            double tol = (proj ? 2e-5 : 2e-3) * (proj ? 0.1 : 1); if (proj) tol = 2e-3 * s; for (int i = 0; i < nu; i++) { double t0 = -1; for (int k = 0; k <= TM; k++) { P z = f(k, i * n); double t = S[i].near(z); r.checkf(dist(S[i].at(t), z) < 3 * tol, "on the spline:" + key, [&] { return fmt("node %d of line %d is %g from the spline", k, i, dist(S[i].at(t), z) / s); }); r.checkf(t > t0, "order:" + key, [&] { return std::string("nodes along a spline are not in order"); }); t0 = t; if (k % m == 0) r.checkf(dist(z, S[i].at(su[i][k / m])) < tol, "crossing:" + key, [&] { return fmt("crossing %d of line %d is %g off", k / m, i, dist(z, S[i].at(su[i][k / m])) / s); }); } }
            for (int j = 0; j < nv; j++) { double t0 = -1; for (int k = 0; k <= TN; k++) { P z = f(j * m, k); double t = S[nu + j].near(z); r.checkf(dist(S[nu + j].at(t), z) < 3 * tol, "on the spline:" + key, [&] { return fmt("node %d of crossing line %d is %g from the spline", k, j, dist(S[nu + j].at(t), z) / s); }); r.checkf(t > t0, "order:" + key, [&] { return std::string("nodes along a spline are not in order"); }); t0 = t; } }
            if (nv == 2 && !proj) for (int i = 0; i < nu; i++) { double L0 = S[i].len(su[i][0], su[i][1]) / m; for (int k = 0; k < m; k++) { double l = S[i].len(S[i].near(f(k, i * n)), S[i].near(f(k + 1, i * n))); r.checkf(std::fabs(l - L0) < 0.01 * L0, "spacing:" + key, [&] { return fmt("piece %d of line %d is %g long, expected %g", k, i, l, L0); }); } }
            double sg = sar({A, B, C}) > 0 ? 1 : -1; for (int a = 0; a < TM; a++) for (int b = 0; b < TN; b++) { double z = sg * sar({f(a, b), f(a + 1, b), f(a + 1, b + 1), f(a, b + 1)}); r.checkf(z > 0, "folded:" + key, [&] { return fmt("cell (%d, %d) is folded", a, b); }); }
            if (shape == 0 && nu == 2 && nv == 2) for (int a = 0; a <= TM; a++) for (int b = 0; b <= TN; b++) { P D = f(0, TN), w = (1 - double(a) / TM) * (1 - double(b) / TN) * A + (double(a) / TM) * (1 - double(b) / TN) * B + (double(a) / TM) * (double(b) / TN) * C + (1 - double(a) / TM) * (double(b) / TN) * D; r.checkf(dist(f(a, b), w) < 5 * tol, "interior:" + key, [&] { return fmt("node (%d, %d) is %g off", a, b, dist(f(a, b), w) / s); }); }
            mc::Hash h; cg::hash(h, G); r.state(h.h); r.outcome(TM * 20 + TN); undone(r, ki, before, key);
        }
        else if (sc == 4)
        { // a line of a grid to land or a spline
            int k = r.choose(5, "grid"), dirn = r.choose(2, "direction"), at = r.choose(dirn ? 5 : 6, "line"), a = r.choose(dirn ? 6 : 5, "from"), b = r.choose(dirn ? 6 : 5, "to"), kind = r.choose(2, "to what"), hts = r.choose(27, "heights"), reg = r.choose(1 + (dirn ? 5 : 6), "region") - 1, sw = r.choose(2, "ends swapped"); r.shard(); if (a >= b) throw mc::Skip{}; if (reg == at) throw mc::Skip{}; if (!r.thorough() && (hts + at + 2 * a + b + reg + k + sw) % 5) throw mc::Skip{};
            CG g = k == 0 ? cg::base(0) : k == 1 ? cg::base(1) : k == 2 ? cg::base(4) : cg::base(0), full = g; if (k == 3) { cg::kill(g, 0, 5); cg::close(g); } if (k == 4) { cg::kill(g, 2, 2); cg::close(g); }
            auto ix = [&](int along, int across) { return dirn ? std::pair<int, int>{across, along} : std::pair<int, int>{along, across}; }; auto A = [&](const CG& q, int along, int across) { auto [i, j] = ix(along, across); return q.at(i, j); }; int nl = dirn ? g.m : g.n, na = dirn ? g.n : g.m; for (int q = a; q <= b; q++) { auto [i, j] = ix(q, at); if (!ok(g, i, j) && (k != 4 || q == a || q == b)) throw mc::Skip{}; } if (reg >= 0) { auto [i, j] = ix(a, reg); if (!ok(g, i, j)) throw mc::Skip{}; }
            P e0 = A(full, 0, at), e1 = A(full, nl - 1, at), u = (1 / dist(e0, e1)) * (e1 - e0), w{-u.y, u.x}; double L = dist(e0, e1); R c; int h = hts; for (int q = 0; q < 3; q++) { c.push_back(e0 + (L * (0.5 * q + (q == 0 ? -0.2 : q == 2 ? 0.2 : 0.03))) * u + (2.0 + 2.5 * (h % 3 - 1)) * w); h /= 3; }
            Spl S(c); Geo g0(c); int id = alloc(0); cg::put(id, g); CG before; getCG(id, before); P p = A(g, a, at), q = A(g, b, at); if (sw) std::swap(p, q); P z{MISS, MISS}; if (reg >= 0) z = A(g, a, reg); int rc = kind ? api::mkernel_curvilinear_snap_to_spline(id, g0, p.x, p.y, q.x, q.y, z.x, z.y) : api::mkernel_curvilinear_snap_to_landboundary(id, g0, p.x, p.y, q.x, q.y, z.x, z.y); r.step(); std::string key = kind ? "snap;spline" : "snap;land";
            r.check(rc == 0, "call:" + key, lastError()); CG G; r.check(getCG(id, G) == 0 && G.n == g.n && G.m == g.m, "read:" + key, lastError()); r.validated++;
            for (int x = 0; x < nl; x++)
            {
                P d{0, 0}; bool mine = x >= a && x <= b; { auto [i, j] = ix(x, at); mine = mine && ok(g, i, j); } if (mine) { P was = A(g, x, at), is = A(G, x, at); d = is - was; double t = kind ? dist(was, S.at(S.near(was))) : ldist(was, c); double on = kind ? dist(is, S.at(S.near(is))) : ldist(is, c); r.checkf(on < (kind ? 1e-6 : 1e-9), "snapped:" + key, [&] { return fmt("node %d of the line ends %g from it", x, on); }); r.checkf(norm(d) < t + (kind ? 1e-3 : 1e-9), "snapped:" + key, [&] { return fmt("node %d of the line moves %g, the closest point is at %g", x, norm(d), t); }); }
                double lim[2] = {1, 1}; for (int side = 0; side < 2; side++) for (int y = at; y >= 0 && y < na; y += side ? 1 : -1)
                {
                    auto [i, j] = ix(x, y); if (!ok(g, i, j)) { r.checkf(!ok(G, i, j), "shape:" + key, [&] { return std::string("a missing node appears"); }); continue; } P mv = A(G, x, y) - A(g, x, y); double f = mine && norm(d) > 1e-3 ? dot(mv, d) / dot(d, d) : 0; r.checkf(norm(mv - f * d) < (norm(d) > 1e-3 ? 1e-9 : 2e-3), "others:" + key, [&] { return fmt("node (%d,%d) moves (%g,%g), its node of the line (%g,%g)", i, j, mv.x, mv.y, d.x, d.y); });
                    r.checkf(f >= -1e-9 && f <= lim[side] + 1e-9, "fading:" + key, [&] { return fmt("node (%d,%d) moves %g of what its node of the line moves", i, j, f); }); lim[side] = f;
                    if (reg >= 0 && mine && norm(d) > 1e-3) { int D = std::abs(reg - at), dd = y == at ? 0 : ((reg > at) == (y > at)) ? std::abs(y - at) : D; double want = dd >= D ? 0 : 0.5 * (1 + std::cos(M_PI * dd / D)); r.checkf(std::fabs(f - want) < 1e-6, "fading:" + key, [&] { return fmt("node (%d,%d) moves %g of what its node of the line moves, expected %g", i, j, f, want); }); }
                    if (reg < 0 && mine && norm(d) > 1e-3) { R all; for (size_t v = 0; v < g.x.size(); v++) if (g.x[v] != MISS) all.push_back({g.x[v], g.y[v]}); for (P v : c) all.push_back(v); double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (P v : all) { x0 = std::min(x0, v.x); x1 = std::max(x1, v.x); y0 = std::min(y0, v.y); y1 = std::max(y1, v.y); } double big = std::hypot(x1 - x0, y1 - y0); if (dist(A(g, x, y), A(g, x, at)) > 0.7 * big + norm(d)) r.checkf(f == 0, "fading:" + key, [&] { return fmt("node (%d,%d) moves although it is far from the line", i, j); }); }
                }
            }
            if (k == 3 && reg < 0)
            { // the missing node lies on the outline of the rest: nothing else may change
                int i2 = alloc(0); cg::put(i2, full); kind ? api::mkernel_curvilinear_snap_to_spline(i2, g0, p.x, p.y, q.x, q.y, MISS, MISS) : api::mkernel_curvilinear_snap_to_landboundary(i2, g0, p.x, p.y, q.x, q.y, MISS, MISS); CG F; getCG(i2, F); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(G, i, j)) r.checkf(dist(F.at(i, j), G.at(i, j)) < 1e-9, "missing:" + key, [&] { return fmt("node (%d,%d) moves differently when another node is missing", i, j); });
                bool uu; int ui; api::mkernel_undo_state(uu, ui); api::mkernel_undo_state(uu, ui);
            }
            mc::Hash hh; cg::hash(hh, G); r.state(hh.h); r.outcome(reg); undone(r, id, before, key);
        }
        else if (sc == 5)
        { // splines to land
            int n = 3 + r.choose(3, "points"), code = r.choose(243, "heights"), land = r.choose(3, "land"), lead = r.choose(3, "before"), trail = r.choose(3, "after"); r.shard(); int lim = 1; for (int k = 0; k < n; k++) lim *= 3; if (code >= lim) throw mc::Skip{}; if (!r.thorough() && (code + lead + trail) % 3 && n > 3) throw mc::Skip{};
            static const R LD[3] = {{{-40, 6}, {140, 6}}, {{-40, 1}, {140, 19}}, {{-40, 9}, {20, 4}, {50, 7}, {140, 3}}}; R c; int q = code; for (int k = 0; k < n; k++) { c.push_back({12.0 * k + (q % 3), 1.4 * (q % 3 - 1)}); q /= 3; }
            Geo l(LD[land]), one(c), all; R o{{70, -20}, {80, -25}, {90, -21}}; if (lead) { for (int k = 0; k < lead + 1; k++) all.add(o[k].x, o[k].y); all.sep(); } int s0 = (int)all.x.size(); for (P p : c) all.add(p.x, p.y); int s1 = (int)all.x.size() - 1; if (trail) { all.sep(); for (int k = 0; k < trail + 1; k++) all.add(o[k].x + 3, o[k].y); } Geo was = all; int id = alloc(0); std::string key = "snap splines";
            int rc = api::mkernel_splines_snap_to_landboundary(id, l, one, 0, n - 1); r.step(); r.check(rc == 0, "call:" + key, lastError()); rc = api::mkernel_splines_snap_to_landboundary(id, l, all, s0, s1); r.check(rc == 0, "call:" + key, lastError()); r.validated++;
            for (int k = 0; k < (int)all.x.size(); k++) { P w = k >= s0 && k <= s1 ? P{one.x[k - s0], one.y[k - s0]} : P{was.x[k], was.y[k]}, z{all.x[k], all.y[k]}; r.checkf(dist(w, z) < 1e-9, "range:" + key, [&] { return fmt("point %d of %d to %d is (%g, %g), expected (%g, %g)", k, s0, s1, z.x, z.y, w.x, w.y); }); }
            R d = one.pts(); Spl S(c), D(d); double before = 0, after = 0; for (int k = 0; k <= 20 * (n - 1); k++) { before = std::max(before, ldist(S.at(k / 20.0), LD[land])); after = std::max(after, ldist(D.at(k / 20.0), LD[land])); } r.checkf(after < (land < 2 ? 0.02 : 0.6) * std::max(before, 1.0), "closer:" + key, [&] { return fmt("the spline was %g from the land and is %g from it", before, after); });
            for (int e = 0; e < 2; e++) { double t = e ? n - 1 : 0; P T = e ? S.at(t) - S.at(t - 1e-5) : S.at(1e-5) - S.at(0); T = (1 / norm(T)) * T; P m = d[e ? n - 1 : 0] - c[e ? n - 1 : 0]; r.checkf(std::fabs(dot(m, T)) < 1e-3 * (1 + norm(m)), "ends:" + key, [&] { return fmt("an end of the spline moves %g along the spline", dot(m, T)); }); }
            mc::Hash h; h.vd(one.x); h.vd(one.y); r.state(h.h); r.outcome(n);
        }
        else throw mc::Skip{};
    }
}
MC_MAIN(body)
