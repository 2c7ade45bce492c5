// C26: triangulations of samples and polygons are the Delaunay triangulations they are said to be.
#include "ops.hpp"
#include "ref.hpp"
#include <map>
#include <set>
using namespace mk;
namespace
{
    double crs(P a, P b) { return a.x * b.y - a.y * b.x; }
    double inc(P a, P b, P c, P d) { if (crs(b - a, c - a) < 0) std::swap(b, c); P u = a - d, v = b - d, w = c - d; auto q = [](P p) { return p.x * p.x + p.y * p.y; }; return q(u) * crs(v, w) - q(v) * crs(u, w) + q(w) * crs(u, v); }
    double circ(P a, P b, P c, P d) { double s = std::max({dist(a, b), dist(b, c), dist(a, c)}); return inc(a, b, c, d) / (s * s * s * s); }
    // smallest and largest angle of a triangle, in degrees
    std::pair<double, double> angles(P a, P b, P c) { double lo = 1e9, hi = 0; P T[3] = {a, b, c}; for (int k = 0; k < 3; k++) { P u = T[(k + 1) % 3] - T[k], v = T[(k + 2) % 3] - T[k]; double t = std::atan2(std::fabs(crs(u, v)), u.x * v.x + u.y * v.y) * 180 / M_PI; lo = std::min(lo, t); hi = std::max(hi, t); } return {lo, hi}; }
    using E = std::set<std::pair<int, int>>;
    void body(Run& r)
    {
        int sc = r.choose(3, "kind"); reset();
        if (sc == 0)
        { // samples
            static const P PT[12] = {{0.3, 0.9}, {11.2, -1.7}, {22.9, 1.1}, {31.3, 0.2}, {-1.9, 10.8}, {9.1, 12.3}, {19.6, 8.2}, {33.1, 11.7}, {1.2, 21.3}, {13.7, 19.2}, {21.4, 23.6}, {30.2, 20.4}};
            static std::vector<int> SUB; static bool init = [] { for (int m = 0; m < 4096; m++) { int k = __builtin_popcount(m); if (k >= 3 && k <= 9) SUB.push_back(m); } return true; }(); (void)init;
            int s = r.choose((int)SUB.size(), "samples"), num = r.choose(3, "numbering"), pre = r.choose(3, "existing"), proj = r.choose(2, "projection"), flat = r.choose(2, "flat"); r.shard(); if (!r.thorough() && (num || pre || proj || flat) && (s + num + pre + proj + flat) % 8) throw mc::Skip{};
            double K = proj ? std::cos(52 * M_PI / 180) : 1, sca = proj ? 1e-3 : 1; P off = proj ? P{4, 52} : P{0, 0}; std::vector<P> n; for (int i = 0; i < 12; i++) if (SUB[s] >> i & 1) n.push_back(off + sca * P{PT[i].x, (flat ? 0.21 : 1) * PT[i].y}); if (num == 1) std::reverse(n.begin(), n.end()); if (num == 2) std::rotate(n.begin(), n.begin() + n.size() / 2, n.end());
            int id = alloc(proj); MeshIn ex = grid(2, 2, sca * 10, sca * 10, off.x + sca * 100, off.y); if (pre) setMesh2(id, ex); if (pre == 2) api::mkernel_mesh2d_delete_node(id, 0); M2 before; getM2(id, before); int nb = before.nn(); Geo g(n);
            int rc = api::mkernel_mesh2d_make_triangular_mesh_from_samples(id, g); r.step(); r.check(rc == 0, "call:samples", lastError()); M2 m; r.check(getM2(id, m) == 0, "read:samples", lastError()); r.validated++;
            // reference: triangles whose circumscribed circle contains no other sample, without very small or large angles
            bool shaky = false; std::set<std::pair<int, int>> want; int N = (int)n.size(), nt = 0; for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) for (int c = b + 1; c < N; c++) { if (std::fabs(crs(n[b] - n[a], n[c] - n[a])) < 1e-9 * sca * sca) { shaky = true; continue; } bool ok = true; for (int d = 0; d < N && ok; d++) if (d != a && d != b && d != c) { double v = circ(n[a], n[b], n[c], n[d]); if (std::fabs(v) < 1e-7) shaky = true; if (v > 0) ok = false; } if (!ok) continue; auto mp = [&](P p) { return P{p.x * K, p.y}; }; auto [lo, hi] = angles(mp(n[a]), mp(n[b]), mp(n[c])); if (std::fabs(lo - 5) < 0.1 || std::fabs(hi - 150) < 0.1) shaky = true; if (lo < 5 || hi > 150) continue; nt++; want.insert({a, b}); want.insert({b, c}); want.insert({a, c}); }
            if (shaky) { r.note("not judged: degenerate samples"); return; }
            std::set<std::pair<int, int>> have; std::vector<int> back(m.nn(), -1); int extra = 0; for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i)) { for (int k = 0; k < N; k++) if (m.node(i).x == n[k].x && m.node(i).y == n[k].y) back[i] = k; if (back[i] < 0) extra++; }
            int en = 0; for (int i = 0; i < before.nn(); i++) en += before.nodeOk(i); int oldE = 0; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { int a = back[m.en[2 * e]], b = back[m.en[2 * e + 1]]; if (a < 0 && b < 0) { oldE++; continue; } r.check(a >= 0 && b >= 0, "samples", "an edge joins a sample to the existing mesh"); r.check(have.insert(std::minmax(a, b)).second, "samples", "an edge occurs twice"); }
            int be = 0; for (int e = 0; e < before.ne(); e++) be += before.edgeOk(e); r.check(extra == en && oldE == be, "samples", fmt("the existing mesh has %d nodes and %d edges, it had %d and %d", extra, oldE, en, be)); std::set<int> used; for (auto& x : want) { used.insert(x.first); used.insert(x.second); } int got = 0; for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && back[i] >= 0) { got++; r.check(used.count(back[i]), "samples", "a sample without triangle is a node"); } r.check(got == (int)used.size(), "samples", fmt("%d samples are nodes, expected %zu", got, used.size()));
            r.check(have == want, "samples", fmt("%zu edges, the triangulation has %zu", have.size(), want.size())); (void)nb; (void)nt;
            { std::string d = validateM2(m); r.check(d.empty(), "valid:samples", d); } mc::Hash h; hash(h, m); r.state(h.h); r.outcome((int)want.size());
            bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(before); std::string d = diff(before, o, 0); r.check(u && d.empty(), "undo:samples", d);
        }
        else if (sc == 1)
        { // polygons: corners at two distances, sides divided into pieces of about the same length
            int nc = r.choose(3, "corners"), code = r.choose(64, "distances"), len = r.choose(4, "length"), rev = r.choose(2, "direction"), rot = r.choose(3, "first node"), pre = r.choose(2, "existing"), proj = r.choose(2, "projection"); r.shard(); nc += 4; if (code >> nc) throw mc::Skip{}; if (proj && rot == 1) throw mc::Skip{};
            static const double L[4] = {4.1, 6.3, 9.2, 3.1}; double K = proj ? std::cos(52 * M_PI / 180) : 1, sca = proj ? 1e-3 : 1; P off = proj ? P{4, 52} : P{0, 0}; std::vector<P> C, R; for (int i = 0; i < nc; i++) { double a = 2 * M_PI * i / nc + 0.21, q = (code >> i & 1) ? 24 : 15.5; C.push_back({q * std::cos(a), q * std::sin(a)}); }
            for (int i = 0; i < nc; i++) { P a = C[i], b = C[(i + 1) % nc]; int k = std::max(1, (int)std::lround(dist(a, b) / L[len])); for (int t = 0; t < k; t++) R.push_back(a + (double(t) / k) * (b - a)); } for (auto& p : R) p = off + sca * P{p.x / K, p.y}; if (rev) std::reverse(R.begin(), R.end()); std::rotate(R.begin(), R.begin() + rot * (R.size() / 3), R.end());
            int id = alloc(proj); MeshIn ex = grid(2, 2, sca * 10, sca * 10, off.x + sca * 100, off.y); if (pre) setMesh2(id, ex); M2 before; getM2(id, before); Geo g; for (size_t i = 0; i <= R.size(); i++) g.add(R[i % R.size()].x, R[i % R.size()].y);
            int rc = api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, g); r.step(); r.check(rc == 0, "call:polygon", lastError()); M2 m; r.check(getM2(id, m) == 0, "read:polygon", lastError()); r.validated++; { std::string d = validateM2(m); r.check(d.empty(), "valid:polygon", d); }
            auto F = m.faces(); auto mp = [&](P p) { P q = (1 / sca) * (p - off); return P{q.x * K, q.y}; }; std::vector<P> Q; for (P p : R) Q.push_back(mp(p)); double A = 0; int mine = 0; std::set<int> nodes; std::map<std::pair<int, int>, std::vector<int>> EF;
            for (auto& f : F) { bool old = true; for (int i : f) old &= mp(m.node(i)).x > 60; if (old) continue; mine++; r.check(f.size() == 3, "polygon", "a face that is not a triangle"); std::vector<P> t; for (int i : f) { t.push_back(mp(m.node(i))); nodes.insert(i); } A += std::fabs(area(t)); P c = (1.0 / 3) * (t[0] + t[1] + t[2]); r.check(pip(c, Q) >= 0, "polygon", "a triangle outside of the polygon"); for (int k = 0; k < 3; k++) EF[std::minmax(f[k], f[(k + 1) % 3])].push_back(f[(k + 2) % 3]); }
            // the outline is the polygon except for flat triangles that are left out, all other nodes are inside
            double left = 0; std::map<std::pair<double, double>, int> at; std::vector<int> nd(R.size(), -1); for (size_t i = 0; i < R.size(); i++) at[{R[i].x, R[i].y}] = (int)i; for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i)) { auto it = at.find({m.node(i).x, m.node(i).y}); if (it != at.end()) nd[it->second] = i; }
            E skip; for (size_t i = 0; i < R.size(); i++) { int a = nd[i], b = nd[(i + 1) % R.size()]; r.check(a >= 0 && b >= 0, "outline:polygon", fmt("node %zu of the polygon is not a node of the mesh", i)); auto it = EF.find(std::minmax(a, b)); if (it != EF.end()) { r.check(it->second.size() == 1, "outline:polygon", "a side of the polygon is not an outer edge"); continue; } bool ok = false; for (int q : nodes) if (EF.count(std::minmax(a, q)) && EF.count(std::minmax(b, q))) { auto [lo, hi] = angles(mp(m.node(a)), mp(m.node(b)), mp(m.node(q))); if (lo < 5.01 || hi > 149.99) { ok = true; left += std::fabs(area({mp(m.node(a)), mp(m.node(b)), mp(m.node(q))})); skip.insert(std::minmax(a, q)); skip.insert(std::minmax(b, q)); } } r.check(ok, "outline:polygon", fmt("side %zu of the polygon is not an edge", i)); }
            for (auto& [e, v] : EF) if (v.size() == 1 && !skip.count(e)) { P a = m.node(e.first), b = m.node(e.second); r.check(at.count({a.x, a.y}) && at.count({b.x, b.y}), "outline:polygon", "an outer edge does not join nodes of the polygon"); int i = at[{a.x, a.y}], j = at[{b.x, b.y}]; r.check((i + 1) % (int)R.size() == j || (j + 1) % (int)R.size() == i, "outline:polygon", "an outer edge is not a side of the polygon"); }
            r.check(std::fabs(A + left - std::fabs(area(Q))) < 1e-6 * std::fabs(area(Q)), "polygon", fmt("the triangles cover %g of %g", A, std::fabs(area(Q))));
            // locally Delaunay, triangles of about the size of the sides
            for (auto& [e, v] : EF) if (v.size() == 2) { double c = circ(m.node(e.first), m.node(e.second), m.node(v[0]), m.node(v[1])); r.check(c < 1e-6, "delaunay:polygon", fmt("edge (%d,%d) should be flipped (%g)", e.first, e.second, c)); }
            double per = 0; for (size_t i = 0; i < Q.size(); i++) per += dist(Q[i], Q[(i + 1) % Q.size()]); double avg = per / (Q.size() + 1), tri = 0.25 * std::sqrt(3.0) * avg * avg; for (auto& f : F) { bool old = true; std::vector<P> t; for (int i : f) { old &= mp(m.node(i)).x > 60; t.push_back(mp(m.node(i))); } if (!old && !proj) r.check(std::fabs(area(t)) < 1.05 * tri * 2.3, "size:polygon", fmt("a triangle of area %g, %g is expected", std::fabs(area(t)), tri)); }
            int oldE = 0, be = 0; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e) && mp(m.node(m.en[2 * e])).x > 60) oldE++; for (int e = 0; e < before.ne(); e++) be += before.edgeOk(e); r.check(oldE == be, "existing:polygon", "the existing mesh has changed");
            mc::Hash h; hash(h, m); r.state(h.h); r.outcome(mine); bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(before); std::string d = diff(before, o, 0); r.check(u && d.empty(), "undo:polygon", d);
        }
        else if (sc == 2)
        { // polygons with a hole: no nodes in the hole, none outside, no triangles around points in it
            int nc = 4 + r.choose(3, "corners"), len = r.choose(4, "length"), hx = r.choose(3, "hole x"), hy = r.choose(3, "hole y"), hs = r.choose(4, "hole size"), rev = r.choose(4, "directions"), pre = r.choose(2, "existing"); r.shard(); static const double L[4] = {4.1, 6.3, 9.2, 3.1}, HS[4] = {2.6, 5.3, 7.1, 3.9};
            std::vector<P> R, H; for (int i = 0; i < nc; i++) { double t0 = 2 * M_PI * i / nc + 0.21, t1 = 2 * M_PI * (i + 1) / nc + 0.21; P a{22 * std::cos(t0), 22 * std::sin(t0)}, b{22 * std::cos(t1), 22 * std::sin(t1)}; int k = std::max(1, (int)std::lround(dist(a, b) / L[len])); for (int t = 0; t < k; t++) R.push_back(a + (double(t) / k) * (b - a)); } for (int k = 0; k < 5; k++) H.push_back({-4.3 + 4.1 * hx + HS[hs] * std::cos(1.26 * k + 0.4), -3.7 + 3.9 * hy + HS[hs] * std::sin(1.26 * k + 0.4)}); if (rev & 1) std::reverse(R.begin(), R.end()); if (rev & 2) std::reverse(H.begin(), H.end());
            int id = alloc(0); MeshIn ex = grid(2, 2, 10, 10, 100, 0); if (pre) setMesh2(id, ex); M2 before; getM2(id, before); Geo g; for (size_t i = 0; i <= R.size(); i++) g.add(R[i % R.size()].x, R[i % R.size()].y); g.add(HOLE, HOLE, HOLE); for (size_t i = 0; i <= H.size(); i++) g.add(H[i % H.size()].x, H[i % H.size()].y);
            int rc = api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, g); r.step(); r.check(rc == 0, "call:hole", lastError()); M2 m; r.check(getM2(id, m) == 0, "read:hole", lastError()); r.validated++; { std::string d = validateM2(m); r.check(d.empty(), "valid:hole", d); }
            for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && m.node(i).x < 60) { r.check(pip(m.node(i), R) >= 0, "hole", fmt("node %d is outside", i)); r.check(pip(m.node(i), H) <= 0, "hole", fmt("node %d is in the hole", i)); }
            int mine = 0; for (auto& f : m.faces()) { if (m.node(f[0]).x > 60) continue; mine++; P c{0, 0}; for (int i : f) c = c + (1.0 / f.size()) * m.node(i); (void)c; }
            mc::Hash h; hash(h, m); r.state(h.h); r.outcome(mine); bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(before); std::string d = diff(before, o, 0); r.check(u && d.empty(), "undo:hole", d);
        }
        else throw mc::Skip{};
    }
}
MC_MAIN(body)
