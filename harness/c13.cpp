// C13: the closest node, edge or face reported is the closest one of the current content, whatever was edited before.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    const double DEG = 3.14159265358979323846 / 180;
    int proj = 0;
    double metric(P a, P b)
    {
        if (!proj) return dist(a, b);
        double s1 = std::sin((b.y - a.y) * DEG / 2), s2 = std::sin((b.x - a.x) * DEG / 2);
        return 2 * 6378137.0 * std::asin(std::sqrt(std::min(1.0, s1 * s1 + std::cos(a.y * DEG) * std::cos(b.y * DEG) * s2 * s2)));
    }
    struct Box { double x0, y0, x1, y1; bool in(P p) const { return p.x >= x0 && p.x <= x1 && p.y >= y0 && p.y <= y1; } };
    // candidate location: lower and upper bound of its distance come from the centre (exact) or the polygon (bounds)
    struct Loc { bool ok = false, exact = true; P c{}; std::vector<P> poly; };
    double lo(const Loc& l, P p) { if (l.exact) return metric(l.c, p); if (pip(p, l.poly) >= 0) return 0; double d = 1e300; for (size_t i = 0; i < l.poly.size(); i++) d = std::min(d, segDist(p, l.poly[i], l.poly[(i + 1) % l.poly.size()])); return d; }
    double hi(const Loc& l, P p) { if (l.exact) return metric(l.c, p); double d = 0; for (auto q : l.poly) d = std::max(d, dist(p, q)); return d; }
    struct Probe { int kind; P p; Box box; double radius; int rc, idx; P out; };
    std::vector<P> probes(double o, double s, int n) { std::vector<P> r; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) r.push_back({o + s * i + 0.137 * j + 0.0113, o + s * j - 0.0931 * i + 0.0171}); return r; }
    std::vector<Box> boxes(double c) { return {{-1e3, -1e3, 1e3, 1e3}, {c + 2.31, -500, 500, 500}, {-500, -500, 500, c + 7.77}, {-900, -900, -890, -890}}; }
    // kinds: 0 faces, 1 nodes, 2 edges, 3 node index in radius, 4 closest node in radius, 5 get_edge
    void ask(int id, bool curvi, Probe& q)
    {
        api::BoundingBox b; b.xLowerLeft = q.box.x0; b.yLowerLeft = q.box.y0; b.xUpperRight = q.box.x1; b.yUpperRight = q.box.y1; q.idx = -7; q.out = {-5555, -5555};
        if (q.kind <= 2) q.rc = curvi ? api::mkernel_curvilinear_get_location_index(id, q.p.x, q.p.y, q.kind, b, q.idx) : api::mkernel_mesh2d_get_location_index(id, q.p.x, q.p.y, q.kind, b, q.idx);
        else if (q.kind == 3) q.rc = api::mkernel_mesh2d_get_node_index(id, q.p.x, q.p.y, q.radius, q.box.x0, q.box.y0, q.box.x1, q.box.y1, q.idx);
        else if (q.kind == 4) q.rc = api::mkernel_mesh2d_get_closest_node(id, q.p.x, q.p.y, q.radius, q.box.x0, q.box.y0, q.box.x1, q.box.y1, q.out.x, q.out.y);
        else q.rc = api::mkernel_mesh2d_get_edge(id, q.p.x, q.p.y, q.box.x0, q.box.y0, q.box.x1, q.box.y1, q.idx);
    }
    bool isRect(const std::vector<P>& p) { if (p.size() != 4) return false; for (int i = 0; i < 4; i++) { P u = p[(i + 1) % 4] - p[i], v = p[(i + 2) % 4] - p[(i + 1) % 4]; if (std::fabs(dot(u, v)) > 1e-9 * (1 + norm(u) * norm(v))) return false; } return true; }
    std::vector<Loc> locsMesh(const M2& m, int kind)
    {
        std::vector<Loc> v;
        if (kind == 0) { for (auto& f : m.faces()) { Loc l; l.ok = true; l.poly = m.facePts(f); l.exact = proj == 0 && isRect(l.poly); l.c = centroid(l.poly); v.push_back(l); } }
        else if (kind == 1 || kind == 3 || kind == 4) { for (int i = 0; i < m.nn(); i++) { Loc l; l.ok = m.nodeOk(i); l.c = m.node(i); v.push_back(l); } }
        else for (int e = 0; e < m.ne(); e++) { Loc l; l.ok = m.edgeOk(e); l.c = P{m.ex[e], m.ey[e]}; v.push_back(l); }
        return v;
    }
    std::vector<Loc> locsCurvi(const CG& g, int kind)
    {
        std::vector<Loc> v; auto ok = [&](int n, int m) { return valid(g.at(n, m)); };
        if (kind == 1) for (int n = 0; n < g.n; n++) for (int m = 0; m < g.m; m++) { Loc l; l.ok = ok(n, m); l.c = g.at(n, m); v.push_back(l); }
        if (kind == 2)
        {
            for (int n = 0; n + 1 < g.n; n++) for (int m = 0; m < g.m; m++) { Loc l; l.ok = ok(n, m) && ok(n + 1, m); l.c = 0.5 * (g.at(n, m) + g.at(n + 1, m)); v.push_back(l); }
            for (int n = 0; n < g.n; n++) for (int m = 0; m + 1 < g.m; m++) { Loc l; l.ok = ok(n, m) && ok(n, m + 1); l.c = 0.5 * (g.at(n, m) + g.at(n, m + 1)); v.push_back(l); }
        }
        if (kind == 0) for (int n = 0; n + 1 < g.n; n++) for (int m = 0; m + 1 < g.m; m++) { Loc l; l.ok = ok(n, m) && ok(n, m + 1) && ok(n + 1, m) && ok(n + 1, m + 1); l.c = 0.25 * (g.at(n, m) + g.at(n, m + 1) + g.at(n + 1, m) + g.at(n + 1, m + 1)); v.push_back(l); }
        return v;
    }
    std::string judge(const Probe& q, const std::vector<Loc>& L)
    {
        bool radius = q.kind == 3 || q.kind == 4; double slack = proj ? 0.006 : 1e-9;
        double best = 1e300, bestHi = 1e300; int cand = 0; bool fuzzy = false;
        for (auto& l : L) if (l.ok)
        {
            if (!radius && l.exact && !q.box.in(l.c)) continue;
            if (!l.exact) { bool all = true, any = false; for (auto p : l.poly) (q.box.in(p) ? any : all) = q.box.in(p) ? true : false; if (!all) { fuzzy = true; if (!any) continue; } }
            cand++; double d = lo(l, q.p); best = std::min(best, d); if (!(fuzzy && !l.exact)) bestHi = std::min(bestHi, hi(l, q.p));
        }
        if (radius)
        {
            if (std::fabs(best - q.radius) < slack * (1 + q.radius) + (proj ? 0.01 * q.radius : 0)) return "";
            if (best > q.radius) { if (q.kind == 3) return q.rc == 0 && q.idx >= 0 ? fmt("node %d reported, the closest is %g away, the radius %g", q.idx, best, q.radius) : ""; return q.rc == 0 && q.out.x != -5555 && q.out.x != MISS ? "a node outside the radius is reported" : ""; }
            if (q.rc) return "fails: " + lastError();
            double got;
            if (q.kind == 3) { if (q.idx < 0 || q.idx >= (int)L.size() || !L[q.idx].ok) return fmt("node %d reported, which does not exist (closest is %g away)", q.idx, best); got = metric(L[q.idx].c, q.p); }
            else { bool f = false; for (auto& l : L) if (l.ok && dist(l.c, q.out) <= 1e-9 * (1 + norm(l.c))) f = true; if (!f) return "the reported position is not that of a node"; got = metric(q.out, q.p); }
            return got > best * (1 + slack) + slack ? fmt("reported at distance %g, the closest is at %g", got, best) : "";
        }
        if (cand == 0) return q.rc == 0 && !fuzzy ? fmt("location %d reported in a box without any", q.idx) : "";
        if (q.rc) return fuzzy ? "" : "fails: " + lastError();
        if (q.idx < 0 || q.idx >= (int)L.size() || !L[q.idx].ok) return fmt("location %d reported, which does not exist", q.idx);
        if (L[q.idx].exact && !q.box.in(L[q.idx].c)) return fmt("location %d reported, which is outside the box", q.idx);
        double got = lo(L[q.idx], q.p);
        return got > bestHi * (1 + slack) + slack ? fmt("location %d reported at distance %g, the closest is at %g", q.idx, got, bestHi) : "";
    }
    std::string kindName(int k) { static const char* n[] = {"faces", "nodes", "edges", "node_index", "closest_node", "get_edge"}; return n[k]; }
    std::vector<Probe> makeProbes(int kind, bool curvi, bool few)
    {
        std::vector<Probe> v; double o = proj ? -3 : curvi ? 93 : -6, s = curvi ? 13.3 : proj ? 9.7 : 11.3; auto B = boxes(curvi ? 115 : 10); std::vector<double> R = kind == 3 || kind == 4 ? (proj ? std::vector<double>{3e5, 2e6} : std::vector<double>{3.0, 9.5, 1e4}) : std::vector<double>{0};
        std::vector<size_t> bi = few ? std::vector<size_t>{0} : kind == 3 || kind == 4 ? std::vector<size_t>{0, 1} : std::vector<size_t>{1, 0, 2, 3};
        auto pts = probes(o, s, few ? 2 : 5);
        for (size_t b : bi) for (double rad : R) for (auto p : pts) v.push_back({kind, p, B[b], rad, 0, -7, {}});
        return v;
    }
    void prime(int id, bool curvi) { for (int k = 0; k < (curvi ? 3 : 6); k++) for (auto& q : makeProbes(k, curvi, true)) ask(id, curvi, q); }
    // every sequence of three queries of any kind in any box, with an edit, undo or redo before the last one
    void queries(Run& r, bool curvi)
    {
        proj = 0; int K = curvi ? 3 : 6; int q1 = r.choose(K * 4, "query"), q2 = r.choose(K * 4, "query"), q3 = r.choose(K * 4, "query"), ed = r.choose(5, "edit"); r.shard();
        reset(); int id = alloc(0); if (ops::buildBase(id)) throw mc::Skip{}; auto edit = [&] { return curvi ? api::mkernel_curvilinear_move_node(id, 140, 100, 133, 104) : api::mkernel_mesh2d_translate(id, 4.3, -2.9); }; bool b; int u;
        if (ed >= 2) edit(); if (ed >= 3) api::mkernel_undo_state(b, u); auto B = boxes(curvi ? 115 : 10); auto pts = probes(curvi ? 93 : -6, curvi ? 13.3 : 11.3, 3); std::vector<std::pair<Probe, int>> ps; M2 m[2]; CG g[2];
        auto go = [&](int q, int when) { for (auto p : pts) { Probe x{q / 4, p, B[q % 4], 9.5, 0, -7, {}}; ask(id, curvi, x); ps.push_back({x, when}); r.step(); } };
        go(q1, 0); go(q2, 0); if (curvi) getCG(id, g[0]); else getM2(id, m[0]);
        if (ed == 1) edit(); else if (ed == 2 || ed == 4) { api::mkernel_undo_state(b, u); if (ed == 4) api::mkernel_redo_state(b, u); } else if (ed == 3) api::mkernel_redo_state(b, u);
        go(q3, 1); if (curvi) { getCG(id, g[1]); } else getM2(id, m[1]); r.validated++; mc::Hash h; if (curvi) { h.vd(g[1].x); } else hash(h, m[1]); h.i(q1 * 10000 + q2 * 100 + q3); r.state(h.h);
        for (auto& [q, w] : ps) { std::string d = judge(q, curvi ? locsCurvi(g[w], q.kind) : locsMesh(m[w], q.kind)); const Probe& qq = q; r.checkf(d.empty(), "sequence:" + kindName(q.kind), [&] { return fmt("closest %s to (%g,%g) in box %g..%g x %g..%g: ", kindName(qq.kind).c_str(), qq.p.x, qq.p.y, qq.box.x0, qq.box.x1, qq.box.y0, qq.box.y1) + d; }); r.outcome(q.kind * 1000 + q.idx); }
    }
    void body(Run& r)
    {
        static auto all = ops::all();
        int sc = r.choose(7, "scenario"); if (sc >= 5) { queries(r, sc == 6); return; } bool curvi = sc == 1 || sc == 4; proj = sc == 2 ? 1 : sc == 3 ? 2 : 0;
        std::vector<int> A; for (int i = 0; i < (int)all.size(); i++) if (all[i].group == (curvi ? ops::CURVI : ops::MESH2D) && all[i].name != "mesh2d_insert_node" && !(sc == 3 && all[i].name == "mesh2d_compute_orthogonalization") && all[i].name != "mesh2d_convert_projection" && all[i].name != "mesh2d_convert_to_curvilinear" && all[i].name != "curvilinear_convert_to_mesh2d") A.push_back(i);
        if (curvi) { for (int i = 0; i < (int)all.size(); i++) if (all[i].name == "mesh2d_convert_to_curvilinear") A.push_back(i); }
        int n = (int)A.size() + 2; // the last two: undo, redo
        int depth = sc == 2 || sc == 3 ? 1 : 2; if (sc == 4) depth = r.thorough() ? 3 : 0;
        if (depth == 0) throw mc::Skip{};
        int c1 = r.choose(n, "call"), c2 = depth > 1 ? r.choose(n, "call") : -1, c3 = depth > 2 ? r.choose(n, "call") : -1;
        int between = depth > 1 ? r.choose(2, "queries in between") : 0; int first = r.choose(2, "read first"); r.shard();
        if (sc == 4 && (first || !between)) throw mc::Skip{};
        reset(); int id = alloc(proj); if (ops::buildBase(id)) throw mc::Skip{};
        prime(id, curvi); std::string key;
        for (int c : {c1, c2, c3})
        {
            if (c < 0) continue;
            if (c != c1 && between) prime(id, curvi);
            bool b; int uid;
            int rc = c == n - 2 ? api::mkernel_undo_state(b, uid) : c == n - 1 ? api::mkernel_redo_state(b, uid) : all[A[c]].run(id);
            std::string nm = c == n - 2 ? "undo" : c == n - 1 ? "redo" : all[A[c]].name; r.note(nm + fmt(" -> %d", rc)); key = nm; r.step();
        }
        std::vector<Probe> ps; 
        M2 m; CG g;
        auto read = [&] { if (curvi) { if (getCG(id, g)) throw mc::Skip{}; } else if (getM2(id, m)) throw mc::Skip{}; };
        if (first) read();
        // first with the box of the earlier queries, so that nothing forces the index to be made again
        for (int k = 0; k < (curvi ? 3 : 6); k++) for (auto q : makeProbes(k, curvi, true)) { ask(id, curvi, q); ps.push_back(q); }
        for (int k = 0; k < (curvi ? 3 : 6); k++) for (auto q : makeProbes(k, curvi, false)) { ask(id, curvi, q); ps.push_back(q); }
        if (!first) read();
        r.validated++;
        if (!curvi) { if (!proj && !ref::planar(m)) throw mc::Skip{}; mc::Hash h; hash(h, m); r.state(h.h); } else { for (double v : g.x) if (!std::isfinite(v)) throw mc::Skip{}; mc::Hash h; h.vd(g.x); h.vd(g.y); r.state(h.h); }
        std::vector<std::vector<Loc>> L; for (int k = 0; k < 6; k++) L.push_back(curvi ? (k < 3 ? locsCurvi(g, k) : std::vector<Loc>{}) : locsMesh(m, k));
        for (auto& q : ps)
        {
            if (proj && q.kind == 0) continue;
            std::string d = judge(q, L[q.kind]);
            r.checkf(d.empty(), kindName(q.kind) + ":" + key, [&] { return fmt("closest %s to (%g,%g) in box %g..%g x %g..%g: ", kindName(q.kind).c_str(), q.p.x, q.p.y, q.box.x0, q.box.x1, q.box.y0, q.box.y1) + d; });
            r.outcome(q.kind * 1000 + q.idx);
        }
    }
}
MC_MAIN(body)
