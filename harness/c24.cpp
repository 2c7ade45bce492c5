// C24: the intersections of polygons with a mesh are exactly the crossed edges and faces, at the right places.
#include "ops.hpp"
#include "ref.hpp"
#include <map>
#include <set>
using namespace mk;
namespace
{
    double crs(P a, P b) { return a.x * b.y - a.y * b.x; }
    bool cross2(P a, P b, P c, P d, double& t, double& u) { P p = b - a, q = d - c; double k = crs(p, q); if (std::fabs(k) < 1e-12) return false; t = crs(c - a, q) / k; u = crs(c - a, p) / k; return true; }
    void body(Run& r)
    {
        int kind = r.choose(4, "polygon kind"), mesh = r.choose(6, "mesh"), proj = r.choose(2, "projection"); std::vector<std::vector<P>> polys; std::vector<int> pick;
        // 16 points in general position around and inside the mesh
        auto pt = [](int k) { int i = k % 4, j = k / 4; return P{-4.3 + 12.1 * i + 1.7 * j + 0.31 * i * j, -5.2 + 11.6 * j - 1.13 * i + 0.47 * i * i}; };
        if (kind == 0) { for (int i = 0; i < 3; i++) { int k = r.choose(16, "corner"); for (int q : pick) if (q == k) throw mc::Skip{}; pick.push_back(k); } }
        else if (kind == 1) { int n = r.thorough() ? 14 : 9; static const int SUB[] = {0, 2, 5, 7, 8, 10, 13, 15, 3, 1, 12, 6, 9, 4}; for (int i = 0; i < 4; i++) { int k = SUB[r.choose(n, "corner")]; for (int q : pick) if (q == k) throw mc::Skip{}; pick.push_back(k); } }
        else if (kind == 2)
        { // combs with many segments: every number of teeth, start and direction
            int teeth = 2 + r.choose(6, "teeth"), st = r.choose(2 * teeth + 2, "start"), dir = r.choose(2, "direction"), ori = r.choose(2, "orientation"); std::vector<P> R; for (int i = 0; i < teeth; i++) { double a = -5 + 42.0 * i / teeth, b = -5 + 42.0 * (i + 0.53) / teeth; R.push_back({a + 0.37, 33.1 - 0.7 * i}); R.push_back({b, 3.3 + 0.9 * i}); } R.push_back({38.9, 34.7}); R.push_back({36.3, -6.6}); R.push_back({-6.1, -7.7}); if (ori) for (auto& p : R) std::swap(p.x, p.y); std::rotate(R.begin(), R.begin() + st, R.end()); if (dir) std::reverse(R.begin(), R.end()); polys.push_back(R);
        }
        else { int a = r.choose(12, "first"), b = r.choose(12, "second"), hole = r.choose(3, "with hole"); auto tri = [&](int k, double s) { P c = pt(k) + P{3.1, 2.2}; return std::vector<P>{c + s * P{-9.1, -5.2}, c + s * P{10.3, -6.7}, c + s * P{1.3, 11.4}}; }; if (hole) { polys.push_back({{-7.7, -8.3}, {44.1, -9.2}, {46.3, 41.4}, {-9.9, 40.1}}); polys.push_back(tri(a, 0.6)); if (hole == 2 && b != a) polys.push_back(tri(b, 0.21)); } else { polys.push_back(tri(a, 1)); polys.push_back(tri(b, 0.77)); } pick = {hole}; }
        r.shard(); int hole = kind == 3 ? pick[0] : 0; if (kind < 2) { std::vector<P> R; for (int k : pick) R.push_back(pt(k)); polys.push_back(R); }
        MeshIn in = mesh == 1 ? trigrid(4, 4, 10, 10) : grid(4, 4, 10, 10); if (mesh == 2) for (auto& p : in.n) p = P{p.x + 0.23 * p.y, p.y - 0.17 * p.x}; if (mesh == 3) for (auto& e : in.e) std::swap(e[0], e[1]); double s = proj ? 1e-3 : 1; P off = proj ? P{4, 0.5} : P{0, 0}; for (auto& p : in.n) p = off + s * p; reset(); int id = alloc(proj); setMesh2(id, in);
        if (mesh >= 4) { Geo g; for (P p : {P{11, 11}, P{19, 11}, P{19, mesh == 4 ? 19.0 : 44.0}, P{11, mesh == 4 ? 19.0 : 44.0}, P{11, 11}}) g.add((off + s * p).x, (off + s * p).y); api::mkernel_mesh2d_delete(id, g, mesh == 4 ? 0 : 1, 0); } if (mesh == 5) { Geo gg; int k = -1; P c = off + s * P{0, 0}; api::mkernel_mesh2d_get_node_index(id, c.x, c.y, 0.1 * s * (proj ? 111000 : 1), -180, -90, 180, 90, k); api::mkernel_mesh2d_delete_node(id, 0); }
        M2 m; getM2(id, m); auto F = m.faces(); Geo g; for (size_t q = 0; q < polys.size(); q++) { auto& R = polys[q]; for (auto& p : R) p = off + s * p; R.push_back(R[0]); if (q) { if (hole) { g.x.push_back(-998.0); g.y.push_back(-998.0); } else g.sep(); } for (P p : R) g.add(p.x, p.y); }
        // reference: all crossings
        struct X { int poly, seg; double t, u; }; std::map<int, std::vector<X>> want; bool shaky = false; int ne = (int)m.en.size() / 2;
        for (int e = 0; e < ne; e++) { int a = m.en[2 * e], b = m.en[2 * e + 1]; if (a < 0 || b < 0) continue; for (size_t q = 0; q < polys.size(); q++) for (size_t k = 0; k + 1 < polys[q].size(); k++) { double t, u; if (!cross2(polys[q][k], polys[q][k + 1], m.node(a), m.node(b), t, u)) continue; if (t < -1e-7 || t > 1 + 1e-7 || u < -1e-7 || u > 1 + 1e-7) continue; if (t < 1e-7 || t > 1 - 1e-7 || u < 1e-7 || u > 1 - 1e-7) shaky = true; want[e].push_back({(int)q, (int)k, t, u}); } }
        if (shaky) { r.note("not judged: outline through a node"); return; }
        std::map<int, std::vector<int>> FE; for (size_t f = 0; f < F.size(); f++) { int s0 = 0; for (size_t k = 0; k < f; k++) s0 += m.npf[k]; for (int k = 0; k < m.npf[f]; k++) FE[(int)f].push_back(m.fe[s0 + k]); } std::set<int> hasFace; for (auto& f : FE) for (int e : f.second) hasFace.insert(e);
        const int U = -777; size_t cap = (size_t)ne * 8 + 64; std::vector<int> en(cap, U), ei(cap, U), si(cap, U), fi(cap, U), fn(cap, U), fe(cap, U); std::vector<double> ed(cap, U), sd(cap, U);
        std::string key = fmt("kind%d;mesh%d", kind, mesh); r.check(api::mkernel_mesh2d_intersections_from_polygon(id, g, en.data(), ei.data(), ed.data(), sd.data(), si.data(), fi.data(), fn.data(), fe.data()) == 0, "call:" + key, "fails: " + lastError()); r.step();
        int n = 0; while (ei[n] != U) n++; std::set<int> seen; double prev = -1; int nx = 0; for (auto& w : want) nx += hasFace.count(w.first) > 0;
        for (int i = 0; i < n; i++)
        {
            int e = ei[i]; r.checkf(e >= 0 && e < ne && want.count(e), "edge:" + key, [&] { return fmt("edge %d is reported but the outline does not cross it", e); }); r.checkf(seen.insert(e).second, "twice:" + key, [&] { return fmt("edge %d is reported twice", e); });
            const X* x = nullptr; for (auto& c : want[e]) if (c.seg == si[i] && std::fabs(c.t - sd[i]) < (proj ? 1e-4 : 1e-7) && std::fabs(c.u - ed[i]) < (proj ? 1e-4 : 1e-7)) x = &c;
            r.checkf(x != nullptr, "place:" + key, [&] { auto& c = want[e][0]; return fmt("edge %d at segment %d, %g along it and %g along the edge; one crossing is at segment %d, %g and %g", e, si[i], sd[i], ed[i], c.seg, c.t, c.u); });
            int a = m.en[2 * e], b = m.en[2 * e + 1], l = en[2 * i], q = en[2 * i + 1]; r.checkf((l == a && q == b) || (l == b && q == a), "nodes:" + key, [&] { return fmt("edge %d of nodes %d and %d is given nodes %d and %d", e, a, b, l, q); }); auto& S = polys[x->poly]; P d = S[x->seg + 1] - S[x->seg]; r.checkf(crs(d, m.node(l) - S[x->seg]) < 0 && crs(d, m.node(q) - S[x->seg]) > 0, "side:" + key, [&] { return fmt("nodes %d and %d of edge %d: the first is not on the outside of a counter-clockwise outline", l, q, e); });
            double pos = x->seg + x->t; if (polys.size() == 1) r.checkf(pos > prev - 1e-6, "order:" + key, [&] { return fmt("edge %d at %g comes after one at %g", e, pos, prev); }); prev = pos;
        }
        for (auto& w : want) if (hasFace.count(w.first)) r.checkf(seen.count(w.first), "missing:" + key, [&] { return fmt("edge %d is crossed but not reported (%d of %d are)", w.first, n, nx); });
        // faces: exactly those with a crossed edge, each with its crossed edges
        int nf = 0; while (fn[nf] != U) nf++; int at = 0; std::set<int> fs; for (int i = 0; i < nf; i++) { int f = fi[at]; std::multiset<int> got, exp; for (int k = 0; k < fn[i]; k++) { r.checkf(fi[at + k] == f, "face list:" + key, [&] { return fmt("face %d and %d in one group", f, fi[at + k]); }); got.insert(fe[at + k]); } at += fn[i]; r.checkf(f >= 0 && f < (int)F.size() && fs.insert(f).second, "face:" + key, [&] { return fmt("face %d is reported twice or does not exist", f); }); for (int e : FE[f]) { std::set<int> pp; for (auto& c : want[e]) pp.insert(c.poly); for (size_t k = 0; k < pp.size(); k++) exp.insert(e); } r.checkf(got == exp, "face edges:" + key, [&] { return fmt("face %d is given %d crossed edges, it has %d", f, (int)got.size(), (int)exp.size()); }); }
        r.checkf(fi[at] == U && fe[at] == U, "face list:" + key, [&] { return std::string("more face entries than announced"); });
        for (auto& f : FE) { bool c = false; for (int e : f.second) c |= !want[e].empty(); r.checkf(!c || fs.count(f.first), "face missing:" + key, [&] { return fmt("face %d is crossed but not reported", f.first); }); }
        r.validated++; mc::Hash h; h.vi(std::vector<int>(ei.begin(), ei.begin() + n)); h.vi(std::vector<int>(fi.begin(), fi.begin() + at)); r.state(h.h); r.outcome(n);
    }
}
MC_MAIN(body)
