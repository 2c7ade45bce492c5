// C14: a point is selected by a polygon set exactly when it lies in an outer ring and not in one of its holes.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    bool simple(const std::vector<P>& p)
    {
        size_t n = p.size(); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (dist(p[i], p[j]) < 1e-9) return false;
        for (size_t i = 0; i < n; i++)
        {
            P a = p[i], b = p[(i + 1) % n];
            for (size_t j = 0; j < n; j++) if (j != i && j != (i + 1) % n && segDist(p[j], a, b) < 1e-9) return false;
            for (size_t j = i + 1; j < n; j++) if (ref::segmentsConflict(a, b, p[j], p[(j + 1) % n], false, 1e-12)) return false;
        }
        return std::fabs(area(p)) > 1e-6;
    }
    struct Enc { std::vector<P> outer; std::vector<std::vector<P>> holes; };
    void put(Geo& g, const std::vector<P>& r, double sx) { for (auto p : r) g.add(sx * p.x, sx * p.y); g.add(sx * r[0].x, sx * r[0].y); }
    Geo make(const std::vector<Enc>& v, double sx) { Geo g; for (size_t i = 0; i < v.size(); i++) { if (i) g.sep(); put(g, v[i].outer, sx); for (auto& h : v[i].holes) { g.add(HOLE, HOLE, HOLE); put(g, h, sx); } } return g; }
    int want(P p, const std::vector<Enc>& v)
    {
        bool in = false;
        for (auto& e : v) { int o = pip(p, e.outer, 1e-3); if (o == 0) return 0; bool hole = false; for (auto& h : e.holes) { int k = pip(p, h, 1e-3); if (k == 0) return 0; if (k > 0) hole = true; } if (o > 0 && !hole) in = true; }
        return in ? 1 : -1;
    }
    std::vector<P> cloud(double lo, double hi, int n) { std::vector<P> r; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) r.push_back({lo + (hi - lo) * (i + 0.13 * (j % 3) + 0.01) / (n - 0.6), lo + (hi - lo) * (j + 0.17 * (i % 4) + 0.02) / (n - 0.4)}); return r; }
    void examine(Run& r, int proj, const std::vector<Enc>& v, std::vector<P> pts, bool withMesh, const std::string& key)
    {
        // points at exactly the height or abscissa of a corner, on both sides of it
        if (proj < 2) { auto level = [&](const std::vector<P>& R) { for (P c : R) for (double d : {-7.3, -2.1, 3.4, 9.7}) { pts.push_back({c.x + d, c.y}); pts.push_back({c.x, c.y + d}); } }; for (auto& e : v) { level(e.outer); for (auto& h : e.holes) level(h); } }
        double sx = proj ? 0.1 : 1; reset(); int id = alloc(proj); Geo sel = make(v, sx), in, out; for (auto p : pts) in.add(sx * p.x, sx * p.y);
        out = Geo::sized(pts.size()); int rc = api::mkernel_polygon_get_included_points(id, sel, in, out); r.step();
        r.check(rc == 0, "included:call:" + key, "polygon_get_included_points fails: " + lastError()); mc::Hash h;
        for (size_t i = 0; i < pts.size(); i++)
        {
            int w = want(pts[i], v); if (w == 0) continue; bool got = out.v[i] == 1.0; h.i(got);
            r.checkf((w > 0) == got && (got || out.v[i] == 0.0), "included:" + key, [&] { return fmt("point (%g,%g) is %s (%g) but lies %s", sx * pts[i].x, sx * pts[i].y, got ? "selected" : "not selected", out.v[i], w > 0 ? "inside" : "outside"); });
        }
        if (proj == 0 && v.size() == 1 && v[0].holes.empty())
        { // corners of the ring itself and the middles of its sides belong to the polygon
            auto& o = v[0].outer; Geo c; for (size_t i = 0; i < o.size(); i++) { c.add(o[i].x, o[i].y); P m = 0.5 * (o[i] + o[(i + 1) % o.size()]); if (o[i].x == o[(i + 1) % o.size()].x || o[i].y == o[(i + 1) % o.size()].y) c.add(m.x, m.y); }
            Geo res = Geo::sized(c.x.size()); api::mkernel_polygon_get_included_points(id, sel, c, res); r.step();
            for (size_t i = 0; i < c.x.size(); i++) r.checkf(res.v[i] == 1.0, "boundary:" + key, [&] { return fmt("point (%g,%g) of the ring is not selected", c.x[i], c.y[i]); });
        }
        r.state(h.h); r.outcome(h.h); r.validated++;
        if (!withMesh) return;
        // the nodes of a mesh: a chain through all the points that are clear of the rings
        MeshIn m; for (auto p : pts) if (want(p, v)) m.n.push_back(sx * p); for (int i = 0; i + 1 < (int)m.n.size(); i++) m.e.push_back({i, i + 1});
        setMesh2(id, m); 
        for (int inside = 0; inside < 2; inside++)
        {
            int n = -1; rc = api::mkernel_mesh2d_count_nodes_in_polygons(id, sel, inside, n); r.check(rc == 0, "nodes:call:" + key, "count_nodes_in_polygons fails: " + lastError());
            std::vector<int> got(n + 1, -7), exp; rc = api::mkernel_mesh2d_get_nodes_in_polygons(id, sel, inside, got.data()); r.check(rc == 0, "nodes:call:" + key, "get_nodes_in_polygons fails: " + lastError()); got.pop_back();
            for (int i = 0; i < (int)m.n.size(); i++) if ((want((1 / sx) * m.n[i], v) > 0) == (inside == 1)) exp.push_back(i);
            std::sort(got.begin(), got.end()); r.checkf(got == exp, "nodes:" + key, [&] { return fmt("%zu nodes %s reported, %zu expected", got.size(), inside ? "inside" : "outside", exp.size()); });
        }
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        if (sc == 0)
        { // every simple quadrilateral on a 4x4 lattice, any start and orientation
            int v[4]; for (int& k : v) k = r.choose(16, "corner"); r.shard(); std::vector<P> p; for (int k : v) p.push_back({8.0 * (k % 4) + (v[1] % 2 ? 0.5 * (k / 4) : 0), 8.0 * (k / 4) - (v[1] % 2 ? 0.25 * (k % 4) : 0)});
            if (!simple(p)) throw mc::Skip{};
            examine(r, 0, {{p, {}}}, cloud(-4, 36, 7), v[0] == 0, "quadrilateral");
        }
        else if (sc == 1)
        { // every simple pentagon on a 3x3 lattice
            int v[5], w = r.thorough() ? 4 : 3; for (int& k : v) k = r.choose(w * w, "corner"); r.shard(); std::vector<P> p; for (int k : v) p.push_back({12.0 * (k % w) + 0.9 * (k / w), 12.0 * (k / w) - 0.5 * (k % w)});
            if (!simple(p)) throw mc::Skip{};
            examine(r, v[0] % 3, {{p, {}}}, cloud(-4, 28, 6), v[0] == 1, "pentagon");
        }
        else
        { // sets: an outer ring, holes, a second and a third polygon, in every order and orientation
            static const std::vector<std::vector<P>> O = {{{0, 0}, {40, 0}, {40, 40}, {0, 40}}, {{0, 0}, {40, 2}, {38, 40}, {20, 30}, {2, 39}}, {{0, 0}, {42, 1}, {41, 13}, {30, 12}, {30, 28}, {41, 27}, {42, 41}, {1, 40}}};
            static const std::vector<std::vector<P>> H = {{{5, 5}, {18, 5}, {18, 18}, {5, 18}}, {{20, 6}, {29, 7}, {28, 17}}, {{6, 21}, {16, 20}, {17, 27}, {11, 23}, {7, 28}}};
            static const std::vector<std::vector<P>> S = {{{60, 0}, {80, 0}, {70, 30}}, {{8, 8}, {15, 8}, {15, 15}, {8, 15}}, {{35, 33}, {55, 33}, {55, 52}, {35, 52}}, {{-20, -20}, {90, -20}, {90, -10}, {-20, -10}}};
            int o = r.choose(3, "outer ring"), hm = r.choose(8, "holes"), s1 = r.choose(5, "second polygon"), s2 = r.choose(5, "third polygon"), order = r.choose(3, "order"), rev = r.choose(4, "orientation"), rot = r.choose(3, "start"), proj = r.choose(3, "projection"); r.shard();
            if (s1 && s2 && s2 <= s1) throw mc::Skip{};
            if (!s1 && s2) throw mc::Skip{};
            auto turn = [&](std::vector<P> p, bool b) { if (b) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + rot % p.size(), p.end()); return p; };
            Enc e; e.outer = turn(O[o], rev & 1); for (int k = 0; k < 3; k++) if (hm >> k & 1) e.holes.push_back(turn(H[k], rev & 2));
            std::vector<Enc> v{e}; if (s1) v.push_back({turn(S[s1 - 1], rev & 2), {}}); if (s2) v.push_back({turn(S[s2 - 1], rev & 1), {}});
            std::rotate(v.begin(), v.begin() + order % v.size(), v.end());
            examine(r, proj, v, cloud(-13, 83, 13), true, fmt("set%s%s", hm ? ":holes" : "", s1 ? ":several" : ""));
        }
    }
}
MC_MAIN(body)
