// C32: grids grown from a centre spline.
#include "ops.hpp"
using namespace mk;
namespace
{
    using R = std::vector<P>;
    struct Par { int M, N, out, unif, adapt; double w, aspect, grow; };
    Geo geo(const std::vector<R>& s) { Geo g; for (size_t k = 0; k < s.size(); k++) { if (k) g.sep(); for (P p : s[k]) g.add(p.x, p.y); } return g; }
    void set(const Par& p, meshkernel::CurvilinearParameters& c, meshkernel::SplinesToCurvilinearParameters& q)
    {
        c.m_refinement = p.M; c.n_refinement = p.N; q.aspect_ratio = p.aspect; q.aspect_ratio_grow_factor = p.grow; q.average_width = p.w; q.curvature_adapted_grid_spacing = p.adapt; q.grow_grid_outside = p.out; q.maximum_num_faces_in_uniform_part = p.unif; q.check_front_collisions = 0; q.min_cosine_crossing_angles = 0.5; q.remove_skinny_triangles = 0;
    }
    int compute(int id, const std::vector<R>& s, const Par& p) { Geo g = geo(s); meshkernel::CurvilinearParameters c; meshkernel::SplinesToCurvilinearParameters q; set(p, c, q); return api::mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, g, c, q); }
    int layers(double ratio, double grow) { return grow - 1 > 1e-8 ? (int)std::floor(std::log((grow - 1) * ratio + 1) / std::log(grow)) : (int)std::floor(0.999 + ratio); }
    double near(double x) { return std::fabs(x - std::round(x)); }
    void straight(Run& r)
    {
        static const std::vector<std::vector<double>> CX = {{4}, {1, 9}, {0.5, 5, 9.7}, {2, 3, 4, 9}};
        static const std::vector<R> CN = {{{0, 0}, {5, 0}, {10, 0}}, {{0, 0}, {2, 0}, {6, 0}, {10, 0}}};
        static const double UP[4] = {3, 3, 2, 4.3}, DN[4] = {3, 2, 3.4, 4.3};
        int cn = r.choose(2, "centre"), cx = r.choose(4, "crosses"), hh = r.choose(4, "heights"), lat = r.choose(4, "laterals"), ori = r.choose(3, "orientation"), ord = r.choose(3, "order"); r.shard();
        Par p; static const double W[3] = {2.3, 1.7, 3.1}, A[3] = {0.3, 0.5, 0.9}, G[3] = {1, 1.1, 1.3}; p.w = W[r.choose(3, "w")]; p.aspect = A[r.choose(3, "aspect")]; p.grow = G[r.choose(3, "grow")]; static const int MM[2] = {3, 50}, NN[3] = {2, 4, 40}, UU[3] = {1, 3, 50}; p.M = MM[r.choose(2, "M")]; p.N = NN[r.choose(3, "N")]; p.out = r.choose(2, "outside"); p.unif = UU[r.choose(3, "uniform")]; p.adapt = r.choose(2, "adapt"); int tr = r.choose(4, "transform");
        if (!lat && p.unif != 3) throw mc::Skip{}; if (lat == 1 || lat == 2 || (lat == 3 && p.out)) throw mc::Skip{}; if (!r.thorough() && (cn + cx + hh + ori + 2 * ord + (int)(10 * p.w) + (int)(10 * p.aspect) + (int)(10 * p.grow) + p.M + p.N + p.unif + p.adapt + 3 * tr) % 16) throw mc::Skip{};
        double U = UP[hh], D = DN[hh], LU = lat & 1 ? 1.3 : 0, LD = lat & 2 ? 1.1 : 0; std::vector<R> s; s.push_back(CN[cn]); for (size_t k = 0; k < CX[cx].size(); k++) { double x = CX[cx][k]; R q{{x, -D}, {x, U}}; if (ori == 1 || (ori == 2 && k % 2)) std::swap(q[0], q[1]); s.push_back(q); }
        if (LU) s.push_back({{-1, LU}, {3, LU}, {11, LU}}); if (LD) s.push_back({{11, -LD}, {3, -LD}, {-1, -LD}}); if (ord == 1) std::reverse(s.begin(), s.end()); if (ord == 2) std::rotate(s.begin(), s.begin() + 1, s.end());
        static const double AN[4] = {0, 0.5, 1.5707963267948966, 3.6}; double ca = std::cos(AN[tr]), sa = std::sin(AN[tr]); P o = tr ? P{1000, -500} : P{0, 0}; auto T = [&](P z) { return P{o.x + ca * z.x - sa * z.y, o.y + sa * z.x + ca * z.y}; }; auto I = [&](P z) { z = z - o; return P{ca * z.x + sa * z.y, -sa * z.x + ca * z.y}; }; for (auto& q : s) for (P& z : q) z = T(z);
        reset(); int id = alloc(0); CG before; getCG(id, before); int rc = compute(id, s, p); r.step(); std::string key = "straight"; r.check(rc == 0, "call:" + key, lastError()); CG g; r.check(getCG(id, g) == 0, "read:" + key, lastError()); r.validated++;
        // expectation
        int m = std::min(p.M, 1 + (int)std::floor(10 / p.w)); std::vector<double> H[2]; double tot[2] = {D, U}, l[2] = {LD, LU}; double first = std::min(std::max(LD ? LD : D, LU ? LU : U), p.aspect * p.w); int num[2] = {LD ? 2 : 1, LU ? 2 : 1}; bool out = p.out || (num[0] == 1 && num[1] == 1); double v[2] = {first, first}; int nu[2] = {0, 0}, ne[2] = {0, 0}; bool uni[2];
        for (int k = 0; k < 2; k++) { uni[k] = num[k] > 1; if (uni[k]) { nu[k] = std::min((int)std::floor(l[k] / first + 0.99999), p.unif); v[k] = l[k] / nu[k]; } }
        for (int k = 0; k < 2; k++) if (!uni[k] && uni[1 - k]) v[k] = v[1 - k];
        for (int k = 0; k < 2; k++)
        {
            double rest = uni[k] ? tot[k] - l[k] : tot[k]; if (out) ne[k] = std::min(layers(rest / v[k], p.grow), p.N); double g1 = 1; if (ne[k] > 1) { double a = 1e-3, b = 50; for (int it = 0; it < 200; it++) { g1 = 0.5 * (a + b); double sum = 0, t = v[k]; for (int j = 0; j < ne[k]; j++) { sum += t; t *= g1; } (sum < rest ? a : b) = g1; } }
            double y = 0; for (int j = 0; j < nu[k] && (int)H[k].size() < p.N; j++) H[k].push_back(y += v[k]); double t = v[k]; for (int j = 0; j < ne[k] && (int)H[k].size() < p.N; j++) { H[k].push_back(y += t); t *= g1; }
        }
        std::string dump; for (int j = 0; j < g.m; j++) dump += valid(g.at(0, j)) ? fmt("%g ", I(g.at(0, j)).y) : "- "; std::string want; for (int k = 0; k < 2; k++) { want += k ? "up " : "down "; for (double y : H[k]) want += fmt("%g ", y); } dump = fmt("n %d m %d rows %s want %s", g.n, g.m, dump.c_str(), want.c_str());
        r.check(g.n == m + 1, "columns:" + key, fmt("%d columns, expected %d", g.n - 1, m)); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) { P z = I(g.at(i, j)); r.checkf(std::fabs(z.x - 10.0 * i / m) < 1e-4, "column:" + key, [&] { return fmt("node (%d,%d) is at %g along the spline, expected %g; ", i, j, z.x, 10.0 * i / m) + dump; }); }
        r.check(g.m == 1 + (int)(H[0].size() + H[1].size()), "rows:" + key, dump);
        for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) { int k = j - (int)H[0].size(); double y = k == 0 ? 0 : k > 0 ? H[1][k - 1] : -H[0][-k - 1]; P z = I(g.at(i, j)); r.checkf(std::fabs(z.y - y) < 1e-4, "row:" + key, [&] { return fmt("node (%d,%d) is %g beside the spline, expected %g; ", i, j, z.y, y) + dump; }); }
        mc::Hash h; h.vd(g.x); h.vd(g.y); r.state(h.h); r.outcome(g.m);
        bool u; int uid; api::mkernel_undo_state(u, uid); CG b2; getCG(id, b2); r.check(u && diff(before, b2, 0).empty(), "undo:" + key, "undo does not restore the grid"); api::mkernel_redo_state(u, uid); getCG(id, b2); r.check(u && diff(g, b2, 0).empty(), "redo:" + key, "redo gives another grid");
    }

    // a grid under another numbering or direction of the splines, in another place
    void moved(Run& r)
    {
        static const std::vector<R> CN = {{{0, 0}, {5, 0}, {10, 0}}, {{0, 0}, {5, 1}, {10, 0}}, {{0, 0}, {3, 0.6}, {7, -0.6}, {10, 0}}, {{0, 0}, {2, -1}, {6, -1.5}, {10, 1}}};
        int cn = r.choose(4, "centre"), nc = 1 + r.choose(3, "crosses"), hh = r.choose(9, "heights"), skew = r.choose(3, "skew"), lat = r.choose(2, "laterals"); r.shard();
        if (!r.thorough() && (cn + hh + skew + nc) % 4) throw mc::Skip{};
        Par p; static const double W[2] = {2.3, 1.1}, A[2] = {0.3, 0.7}, G[2] = {1.1, 1.3}; p.w = W[r.choose(2, "w")]; p.aspect = A[r.choose(2, "aspect")]; p.grow = G[r.choose(2, "grow")]; p.M = r.choose(2, "M") ? 50 : 4; p.N = r.choose(2, "N") ? 12 : 2; p.out = 0; p.unif = 4; p.adapt = r.choose(2, "adapt");
        static const double HT[3] = {1.5, 2.2, 3}, X[3][3] = {{4.1, 0, 0}, {1.1, 8.7, 0}, {0.6, 5.3, 9.2}}; std::vector<R> s; s.push_back(CN[cn]); for (int k = 0; k < nc; k++) { double x = X[nc - 1][k], u = HT[(hh + k) % 3], d = HT[(hh / 3 + 2 * k) % 3], t = skew * 0.08 * (k % 2 ? -1 : 1); double y0 = 0; s.push_back({{x - t * d, y0 - d - 1.6}, {x + t * u, y0 + u + 1.6}}); }
        if (lat) { R a, b; for (P z : CN[cn]) { a.push_back({z.x * 1.2 - 1, z.y + 1.3}); b.push_back({z.x * 1.2 - 1, z.y - 1.2}); } s.push_back(a); s.push_back(b); }
        reset(); int id = alloc(0); int rc = compute(id, s, p); r.step(); CG g; if (!rc) getCG(id, g); std::string key = "moved";
        if (getenv("DUMP")) { for (auto& q : s) { for (P z : q) printf("(%g,%g) ", z.x, z.y); puts(""); } printf("rc %d\n", rc); for (int i = 0; i < g.n; i++) { for (int j = 0; j < g.m; j++) printf("(%.2f,%.2f) ", g.at(i, j).x, g.at(i, j).y); puts(""); } }
        int nv = r.choose(7, "variant"); if ((nv == 5 && cn > 1) || (nv == 3 && cn == 3)) throw mc::Skip{}; static const double AN[3] = {0.5, 1.5707963267948966, 3.6}; bool fi = false, fj = false; auto T = [&](P z) { if (nv < 3) { double c = std::cos(AN[nv]), q = std::sin(AN[nv]); return P{100 + c * z.x - q * z.y, -50 + q * z.x + c * z.y}; } if (nv == 3) return P{z.x, -z.y}; return z; };
        std::vector<R> t = s; for (auto& q : t) for (P& z : q) z = T(z); if (nv == 3) fj = true; if (nv == 4) for (size_t k = 1; k < t.size(); k++) std::reverse(t[k].begin(), t[k].end()); if (nv == 5) { std::reverse(t[0].begin(), t[0].end()); fi = fj = true; } if (nv == 6) { std::reverse(t.begin(), t.end()); }
        int jd = alloc(0); int rd = compute(jd, t, p); r.check(rc == rd, "outcome:" + key, fmt("the call returns %d and %d in variant %d", rc, rd, nv)); r.outcome(rc * 10); if (rc) return; CG h; r.check(getCG(jd, h) == 0, "read:" + key, lastError()); r.validated++;
        r.check(g.n == h.n && g.m == h.m, "size:" + key, fmt("%d x %d nodes, %d x %d nodes in variant %d", g.n, g.m, h.n, h.m, nv)); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) { P a = g.at(i, j), b = h.at(fi ? g.n - 1 - i : i, fj ? g.m - 1 - j : j); r.checkf(valid(a) == valid(b), "missing:" + key, [&] { return fmt("node (%d,%d) exists in one of the grids only, variant %d", i, j, nv); }); if (!valid(a)) continue; a = T(a); r.checkf(dist(a, b) < 1e-3, "place:" + key, [&] { return fmt("node (%d,%d) is at (%g,%g), expected (%g,%g) in variant %d", i, j, b.x, b.y, a.x, a.y, nv); }); }
        // the lines leave the centre spline at right angles, and the first row has the prescribed height
        int c0 = -1; for (int j = 0; j < g.m; j++) if (dist(g.at(0, j), CN[cn][0]) < 1e-6) c0 = j; r.check(c0 >= 0, "centre:" + key, "no row of nodes on the centre spline"); double first = p.aspect * p.w, worst = 0;
        for (int i = 1; i + 1 < g.n; i++) for (int k = -1; k < 2; k += 2) { if (c0 + k < 0 || c0 + k >= g.m) continue; P z = g.at(i, c0), a = g.at(i - 1, c0), b = g.at(i + 1, c0), y = g.at(i, c0 + k); if (!valid(y) || !valid(a) || !valid(b)) continue; double co = std::fabs(dot(b - a, y - z)) / norm(b - a) / norm(y - z); worst = std::max(worst, co); if (!lat) r.checkf(co < 0.15, "angle:" + key, [&] { return fmt("the line at node %d leaves the centre spline at an angle with cosine %g", i, co); });
            if (!lat) r.checkf(dist(y, z) > 0.98 * first && dist(y, z) < 1.08 * first, "height:" + key, [&] { return fmt("the first cell at node %d is %g high, expected %g", i, dist(y, z), first); }); }
        mc::Hash q; q.vd(h.x); q.vd(h.y); r.state(q.h); r.outcome(g.m); if (getenv("DUMP")) printf("worst %g\n", worst);
    }
    // growing layer by layer gives the grid that is computed at once
    void layerwise(Run& r)
    {
        static const std::vector<R> CN = {{{0, 0}, {5, 0}, {10, 0}}, {{0, 0}, {5, 1}, {10, 0}}, {{0, 0}, {3, 0.6}, {7, -0.6}, {10, 0}}}; int cn = r.choose(3, "centre"), nc = 1 + r.choose(3, "crosses"), lat = r.choose(2, "laterals"), N = 1 + r.choose(6, "N"), out = r.choose(2, "outside"), upto = r.choose(7, "layers"), was = r.choose(2, "grid before"), proj = r.choose(2, "projection"), bad = r.choose(4, "wrong layer"); r.shard(); if (upto > N) throw mc::Skip{};
        std::vector<R> s; s.push_back(CN[cn]); for (int k = 0; k < nc; k++) { double x = 1.2 + 3.1 * k; s.push_back({{x, -3.0 - 0.2 * k}, {x + 0.1, 3.3}}); } if (lat) { R a, b; for (P z : CN[cn]) { a.push_back({z.x * 1.2 - 1, z.y + 1.3}); b.push_back({z.x * 1.2 - 1, z.y - 1.2}); } s.push_back(a); s.push_back(b); }
        double sc = proj ? 1e-3 : 1; for (auto& q : s) for (P& z : q) z = sc * z; Par p{6, N, out, 3, 1, proj ? 2.3 * 111.19 : 2.3, 0.4, 1.2}; std::string key = "layerwise"; reset(); int id = alloc(proj), jd = alloc(proj); meshkernel::CurvilinearParameters c; meshkernel::SplinesToCurvilinearParameters q; set(p, c, q); Geo g = geo(s);
        if (was) { R nodes; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) nodes.push_back({sc * j, sc * i}); setCG(id, 3, 4, nodes); setCG(jd, 3, 4, nodes); } CG before; getCG(id, before);
        int rc = api::mkernel_curvilinear_initialize_orthogonal_grid_from_splines(id, g, c, q); r.step(); r.check(rc == 0, "initialize:" + key, lastError()); for (int l = 1; l <= upto; l++) { rc = api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, l); r.step(); r.check(rc == 0, "iterate:" + key, lastError()); }
        if (bad) { static const int BL[4] = {0, 0, -1, 1}; rc = api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, bad == 3 ? N + 1 : BL[bad]); r.step(); r.check(rc != 0, "wrong layer:" + key, "growing a layer that does not exist is not refused"); }
        CG w; getCG(id, w); r.check(diff(before, w, 0).empty(), "early:" + key, "the grid changes before it is refreshed");
        rc = api::mkernel_curvilinear_refresh_orthogonal_grid_from_splines(id); r.step(); int rd = compute(jd, s, p); r.check(rd == 0, "call:" + key, lastError()); CG a, b; getCG(jd, b); r.validated++;
        if (upto == 0) { r.outcome(rc); return; }
        r.check(rc == 0, "refresh:" + key, lastError()); getCG(id, a);
        if (upto == N) { std::string d = diff(a, b, 0); r.check(d.empty(), "same:" + key, "growing all layers one by one gives another grid: " + d); }
        else
        { // the rows up to the layer that was grown
            auto centre = [&](const CG& z) { for (int j = 0; j < z.m; j++) if (dist(z.at(0, j), s[0][0]) < 1e-9) return j; return -1; }; int ca = centre(a), cb = centre(b); r.check(ca >= 0 && cb >= 0 && a.n == b.n, "centre:" + key, "no row of nodes on the centre spline");
            for (int i = 0; i < a.n; i++) for (int k = -upto + 1; k < upto; k++) { P y{MISS, MISS}, z{MISS, MISS}; if (ca + k >= 0 && ca + k < a.m) y = a.at(i, ca + k); if (cb + k >= 0 && cb + k < b.m) z = b.at(i, cb + k); r.checkf(valid(y) == valid(z) && (!valid(y) || dist(y, z) < 1e-12), "layer:" + key, [&] { return fmt("node %d of layer %d is at (%g,%g), in the whole grid at (%g,%g)", i, k, y.x, y.y, z.x, z.y); }); }
        }
        mc::Hash h; h.vd(a.x); h.vd(a.y); r.state(h.h); r.outcome(a.m);
        bool u; int uid; if (api::mkernel_undo_state(u, uid), uid == jd) api::mkernel_undo_state(u, uid); CG o; getCG(id, o); r.check(u && diff(before, o, 0).empty(), "undo:" + key, "undo does not restore the grid"); r.check(api::mkernel_curvilinear_delete_orthogonal_grid_from_splines(id) == 0, "delete:" + key, lastError()); r.check(api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, 1) != 0, "deleted:" + key, "the deleted algorithm still works");
    }
    // known finding: with bounding splines and growing outside, the grid passes the ends of the cross splines
    void outside(Run& r)
    {
        std::vector<R> s = {{{0, 0}, {5, 0}, {10, 0}}, {{4, -3}, {4, 3}}, {{-1, 1.3}, {3, 1.3}, {11, 1.3}}, {{-1, -1.1}, {3, -1.1}, {11, -1.1}}}; r.shard(); Par p{3, 40, 1, 3, 0, 2.3, 0.3, 1.1}; reset(); int id = alloc(0); int rc = compute(id, s, p); r.step(); r.check(rc == 0, "call:outside", lastError()); CG g; getCG(id, g); r.validated++; double y = 0; for (double v : g.y) if (v != MISS) y = std::max(y, std::fabs(v));
        r.check(y > 2.9 && y < 3.1, "outside the bounding splines", fmt("the grid reaches %g from the centre spline, the cross spline 3", y));
    }
    void body(Run& r) { int sc = r.choose(4, "scenario"); if (sc == 3) outside(r); if (sc == 0) straight(r); if (sc == 1) moved(r); if (sc == 2) layerwise(r); }
}
MC_MAIN(body)
