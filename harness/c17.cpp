// C17: orthogonalization, smoothing, edge flipping and snapping.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    namespace M = meshkernel;
    MeshIn base(int shape, int tri, int disp, int form)
    {
        MeshIn m = grid(3, 3, 10, 10);
        static const P D[5] = {{0, 0}, {2.3, 0.4}, {-0.7, 2.1}, {-1.9, -1.2}, {0.8, -2.2}};
        int in[4] = {5, 6, 9, 10}; for (int k = 0, d = disp; k < 4; k++, d /= 5) m.n[in[k]] = m.n[in[k]] + D[d % 5];
        static const int T[4] = {0, 0b000010000, 0b101010101, 0b111111111}; for (int c = 0; c < 9; c++) if (T[tri] >> c & 1) { int a = c % 3 + 4 * (c / 3); m.e.push_back(form % 2 ? std::array<int, 2>{a + 1, a + 4} : std::array<int, 2>{a, a + 5}); }
        if (shape == 1) for (auto& p : m.n) p = {p.x * (1 + 0.012 * p.y), p.y * (1 - 0.006 * p.x)};
        return m;
    }
    std::vector<P> outline(const M2& m) { std::vector<P> s; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e) && (m.ef[2 * e] < 0) + (m.ef[2 * e + 1] < 0) == 1) { s.push_back(m.node(m.en[2 * e])); s.push_back(m.node(m.en[2 * e + 1])); } return s; }
    double onOutline(P p, const std::vector<P>& s) { double d = 1e9; for (size_t i = 0; i < s.size(); i += 2) d = std::min(d, segDist(p, s[i], s[i + 1])); return d; }
    void body(Run& r)
    {
        int sc = r.choose(4, "scenario"); reset();
        if (sc == 0)
        {
            int shape = r.choose(2, "shape"), tri = r.choose(4, "triangles"), form = r.choose(2, "diagonals"), disp = r.choose(625, "displacements"), opt = r.choose(2, "option"), par = r.choose(6, "parameters"), pol = r.choose(3, "polygon"), T = r.choose(4, "transformation"); r.shard();
            if (form && !tri) throw mc::Skip{}; if (T > 1 && ((!r.thorough() && disp % 3) || (shape && tri < 2) || (T == 3 && tri > 1))) throw mc::Skip{}; if (!r.thorough() && (disp + par * 7 + T * 3 + pol) % 16) throw mc::Skip{};
            M::OrthogonalizationParameters op; op.outer_iterations = 2; op.boundary_iterations = 3; op.inner_iterations = 4;
            static const double A[6] = {0.975, 1, 0.5, 0, 0.975, 0.9}, B[6] = {1, 1, 0.5, 0, 0, 1}, C[6] = {1, 1, 1, 1, 0, 0.5}; op.orthogonalization_to_smoothing_factor = A[par]; op.orthogonalization_to_smoothing_factor_at_boundary = B[par]; op.areal_to_angle_smoothing_factor = C[par];
            MeshIn mi = base(shape, tri, disp, form); static const std::vector<P> PL[3] = {{}, {{-5, -5}, {14, -6}, {15, 52}, {-6, 50}}, {{6, 5}, {27, 7}, {15, 27}}};
            const double U = 0.1 / 6378137.0 * 180 / M_PI; /* degrees per 0.1 m: the circumcentres are iterated to 0.1 mm on a sphere, to 1 mm on a plane */ int proj = 0; auto map = [&](P p) { switch (T) { case 1: return P{p.x + 137, p.y - 55}; case 2: case 3: return P{5 + (p.x - 15) * U / std::cos(52 * M_PI / 180), 52 + (p.y - 15) * U}; } return p; };
            auto orth = [&](const MeshIn& m, const std::vector<P>& poly, M2& a, M2& b, int& id, bool inter) { id = alloc(proj); setMesh2(id, m); getM2(id, a); Geo g, none; for (auto p : poly) g.add(p.x, p.y); if (poly.size()) g.add(poly[0].x, poly[0].y); int rc;
                if (!inter) rc = api::mkernel_mesh2d_compute_orthogonalization(id, opt, op, g, none);
                else { rc = api::mkernel_mesh2d_initialize_orthogonalization(id, opt, op, g, none); for (int o = 0; o < op.outer_iterations && !rc; o++) { rc = api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); for (int k = 0; k < op.boundary_iterations * op.inner_iterations && !rc; k++) rc = api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); if (!rc) rc = api::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id); } if (!rc) rc = api::mkernel_mesh2d_delete_orthogonalization(id); }
                r.step(); r.check(rc == 0, "call", lastError()); r.check(getM2(id, b) == 0, "read", "cannot be read"); r.validated++; };
            M2 a, b; int id; orth(mi, PL[pol], a, b, id, false);
            r.check(a.en == b.en && a.fn == b.fn, "topology", "the edges or faces have changed");
            auto out = outline(a); std::set<int> bn; for (int e = 0; e < a.ne(); e++) if ((a.ef[2 * e] < 0) + (a.ef[2 * e + 1] < 0) == 1) { bn.insert(a.en[2 * e]); bn.insert(a.en[2 * e + 1]); }
            for (int i = 0; i < a.nn(); i++)
            {
                bool in = pol == 0 || pip(a.node(i), PL[pol]) >= 0; if (!in || i == 0 || i == 3 || i == 12 || i == 15) r.check(dist(a.node(i), b.node(i)) == 0 || (tri && in), "fixed", fmt("node %d moved from (%g,%g) to (%g,%g)", i, a.nx[i], a.ny[i], b.nx[i], b.ny[i]));
                if (bn.count(i)) { double d = onOutline(b.node(i), out); r.check(d < 1e-6, "outline", fmt("node %d left the outline by %g", i, d)); }
            }
            if (disp == 0 && shape == 0 && tri == 0) for (int i = 0; i < a.nn(); i++) r.check(dist(a.node(i), b.node(i)) < 1e-6, "regular", fmt("node %d of a regular grid moved by %g", i, dist(a.node(i), b.node(i))));
            r.check(ref::planar(b), "planar", "the mesh has crossing edges"); { std::string dg = validateGeom(b); r.check(dg.empty(), "geometry", dg); }
            if (pol == 0 && par == 1 && tri == 0) { auto q = [&](const M2& m) { int t = alloc(0); MeshIn x; for (int i = 0; i < m.nn(); i++) x.n.push_back(m.node(i)); for (int e = 0; e < m.ne(); e++) x.e.push_back({m.en[2 * e], m.en[2 * e + 1]}); setMesh2(t, x); Geo g = Geo::sized(m.ne()); r.check(api::mkernel_mesh2d_get_orthogonality(t, g) == 0, "orthogonality", lastError()); double s = 0; for (int e = 0; e < m.ne(); e++) if (g.v[e] > -900) s += g.v[e]; return s; }; double q0 = q(a), q1 = q(b); r.check(q1 <= q0 + 1e-6, "better", fmt("the sum of the orthogonality went from %g to %g", q0, q1)); }
            bool u; int uid; M2 o;
            if (T == 0) { M2 c; int id2; orth(mi, PL[pol], o, c, id2, true); std::string d = diff(b, c, 0); r.check(d.empty(), "interactive", d); }
            else
            {
                MeshIn mt = mi; std::vector<P> pt = PL[pol]; for (auto& p : mt.n) p = map(p); for (auto& p : pt) p = map(p);
                if (!disp) throw mc::Skip{}; proj = T == 2 ? 1 : T == 3 ? 2 : 0; M2 c; int id2; orth(mt, pt, o, c, id2, false); for (int i = 0; i < b.nn(); i++) { P w = map(b.node(i)), h = c.node(i); r.check(T > 1 ? dist(w, h) < 0.05 * U : dist(w, h) < 1e-4, fmt("equivariance %d", T), fmt("node %d at (%.9g,%.9g), expected (%.9g,%.9g)", i, h.x, h.y, w.x, w.y)); }
                id = id2; a = o;
            }
            api::mkernel_undo_state(u, uid); getM2(uid, o); canon(o); canon(a); std::string d = diff(a, o, 0); r.check(u && d.empty(), "undo", d); mc::Hash h; hash(h, b); r.state(h.h);
        }
        else if (sc == 1)
        { // flipping edges: every choice of diagonals
            int code = r.choose(19683, "diagonals"), tr = r.choose(2, "triangulate"), jit = r.choose(3, "nodes"), pol = r.choose(2, "edit"); r.shard();
            if (!r.thorough() && (jit || pol) && code % 4) throw mc::Skip{};
            MeshIn m = grid(3, 3, 10, 10); static const double J[8] = {0.9, -0.8, 0.5, 1.1, -0.6, -1.0, 0.7, -0.4}; if (jit) for (int i = 0; i < 16; i++) m.n[i] = m.n[i] + (jit == 1 ? 1.0 : 2.2) * P{J[i % 7], J[(3 * i + 1) % 8]};
            bool all = true; for (int c = 0, k = code; c < 9; c++, k /= 3) { int a = c % 3 + 4 * (c / 3); if (k % 3 == 1) m.e.push_back({a, a + 5}); else if (k % 3 == 2) m.e.push_back({a + 1, a + 4}); else all = false; }
            int id = alloc(0); M2 a, b; setMesh2(id, m); if (pol) api::mkernel_mesh2d_delete_node(id, 0); { int t = alloc(0); setMesh2(t, m); if (pol) api::mkernel_mesh2d_delete_node(t, 0); getM2(t, a); }
            Geo none; int rc = api::mkernel_mesh2d_flip_edges(id, tr, 0, none, none); r.step(); r.check(rc == 0, "call:flip", lastError()); r.check(getM2(id, b) == 0, "read:flip", "cannot be read"); r.validated++;
            std::string d = validateM2(b); r.check(d.empty(), "valid:flip", d); if (getenv("DUMP")) { for (int k = 0; k < b.nn(); k++) if (b.nodeOk(k)) printf("n%d(%.5g,%.5g) ", k, b.nx[k], b.ny[k]); puts(""); for (auto* z : {&a, &b}) { for (int e = 0; e < z->ne(); e++) if (z->edgeOk(e)) printf("%d-%d ", z->en[2*e], z->en[2*e+1]); puts(""); } fflush(stdout); }
            r.check(ref::planar(b), "planar:flip", "the mesh has crossing edges");
            r.check(a.nn() == b.nn(), "flip", "the number of nodes changed"); for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i)) r.check(b.nodeOk(i) && dist(a.node(i), b.node(i)) == 0, "flip", fmt("node %d moved", i));
            r.check(std::fabs(meshArea(a) - meshArea(b)) < 1e-7 * meshArea(a), "flip", fmt("the area changed from %g to %g", meshArea(a), meshArea(b)));
            auto EA = ref::Mesh::from(a).edgeSet(), EB = ref::Mesh::from(b).edgeSet(); auto FA = a.faces(), FB = b.faces();
            auto bound = [](const M2& m) { std::set<std::pair<int, int>> s; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e) && (m.ef[2 * e] < 0) + (m.ef[2 * e + 1] < 0) == 1) s.insert(std::minmax(m.en[2 * e], m.en[2 * e + 1])); return s; };
            r.check(bound(a) == bound(b), "flip", "the outline has changed");
            if (!tr) { r.check(EA.size() == EB.size() && FA.size() == FB.size(), "flip", "the number of edges or faces changed"); std::multiset<size_t> sa, sb; for (auto& f : FA) sa.insert(f.size()); for (auto& f : FB) sb.insert(f.size()); r.check(sa == sb, "flip", "the kinds of faces changed"); std::set<std::vector<int>> SB; for (auto f : FB) { std::sort(f.begin(), f.end()); SB.insert(f); } for (auto f : FA) if (f.size() > 3) { std::sort(f.begin(), f.end()); r.check(SB.count(f), "flip", "a face that is not a triangle changed"); } }
            else for (auto& f : FB) r.check(f.size() == 3, "flip", fmt("a face with %zu edges is left", f.size()));
            if (all || tr)
            { // every node should have its optimal number of edges: no single flip makes it better
                std::vector<int> deg(b.nn(), 0), opt(b.nn(), 6), d0(b.nn(), 0); for (auto& e : EA) { d0[e.first]++; d0[e.second]++; } for (auto& e : EB) { deg[e.first]++; deg[e.second]++; } for (auto& e : bound(a)) opt[e.first] = opt[e.second] = 4; for (int i : {0, 3, 12, 15}) opt[i] = -1; if (pol) for (int i : {1, 4}) opt[i] = -1;
                std::map<std::pair<int, int>, std::vector<int>> EF; for (auto& f : FB) for (int k = 0; k < 3; k++) EF[std::minmax(f[k], f[(k + 1) % 3])].push_back(f[(k + 2) % 3]);
                for (auto& [e, v] : EF) if (v.size() == 2)
                {
                    int p = e.first, q = e.second, l = v[0], t = v[1]; if (opt[p] < 0 || opt[q] < 0 || opt[l] < 0 || opt[t] < 0) continue; auto sq = [](int x) { return x * x; };
                    int gain = sq(deg[p] - opt[p]) + sq(deg[q] - opt[q]) + sq(deg[l] - opt[l]) + sq(deg[t] - opt[t]) - sq(deg[p] - 1 - opt[p]) - sq(deg[q] - 1 - opt[q]) - sq(deg[l] + 1 - opt[l]) - sq(deg[t] + 1 - opt[t]);
                    P A = b.node(p), B = b.node(q), C = b.node(l), D = b.node(t); double s1 = ref::orient(C, D, A), s2 = ref::orient(C, D, B); if (gain > 0 && s1 * s2 < 0 && std::min(std::fabs(s1), std::fabs(s2)) > 5) r.check(false, "optimal:flip", fmt("edge (%d,%d) should be replaced by (%d,%d)", p, q, l, t));
                }
            }
            mc::Hash h; hash(h, b); r.state(h.h); r.outcome((int)FB.size());
            bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(a); d = diff(a, o, 0); r.check(u && d.empty(), "undo:flip", d);
        }
        else if (sc == 3)
        { // triangulating and flipping two polygons with three to six corners that have a side in common
            int k1 = 3 + r.choose(4, "corners"), k2 = 3 + r.choose(4, "corners"), rot = r.choose(10, "first node"), mir = r.choose(2, "mirrored"), jit = r.choose(3, "nodes"), ord = r.choose(3, "edges"); r.shard(); int N = k1 + k2 - 2; if (rot >= N) throw mc::Skip{};
            static const double J[8] = {0.9, -0.8, 0.5, 1.1, -0.6, -1.0, 0.7, -0.4}; std::vector<P> n{{0, 5}, {0, -5}}; auto ring = [&](int k, double sg) { double R = 5 / std::sin(M_PI / k), d = 5 / std::tan(M_PI / k); for (int i = 1; i < k - 1; i++) { double t = M_PI + M_PI / k + 2 * M_PI * i / k; n.push_back({sg * (d + R * std::cos(t)), R * std::sin(t)}); } }; ring(k1, 1); ring(k2, -1);
            std::vector<std::array<int, 2>> e{{0, 1}}; auto path = [&](int from, int k) { int p = 1; for (int i = 0; i < k - 2; i++) { e.push_back({p, from + i}); p = from + i; } e.push_back({p, 0}); }; path(2, k1); path(k1, k2); if (jit) for (int i = 0; i < N; i++) n[i] = n[i] + (jit == 1 ? 0.5 : 0.9) * P{J[i % 7], J[(3 * i + 1) % 8]};
            MeshIn m; m.n.resize(N); for (int i = 0; i < N; i++) { P p = n[i]; if (mir) p.y = -p.y; m.n[(i + rot) % N] = p; } for (auto& x : e) m.e.push_back({(x[0] + rot) % N, (x[1] + rot) % N}); if (ord == 1) std::reverse(m.e.begin(), m.e.end()); if (ord == 2) for (size_t i = 0; i < m.e.size(); i += 2) std::swap(m.e[i][0], m.e[i][1]);
            int id = alloc(0); M2 a, b; r.check(setMesh2(id, m) == 0, "set:polygons", lastError()); getM2(id, a); if (a.faces().size() != 2) { r.note("not two faces"); return; } Geo none; int rc = api::mkernel_mesh2d_flip_edges(id, 1, 0, none, none); r.step(); r.check(rc == 0, "call:polygons", lastError()); r.check(getM2(id, b) == 0, "read:polygons", "cannot be read"); r.validated++;
            std::string d = validateM2(b); r.check(d.empty(), "valid:polygons", d); r.check(ref::planar(b), "planar:polygons", "the mesh has crossing edges"); auto F = b.faces(); for (auto& f : F) r.check(f.size() == 3, "polygons", fmt("a face with %zu edges is left", f.size())); r.check((int)F.size() == N - 2, "polygons", fmt("%zu triangles, expected %d", F.size(), N - 2)); r.check(std::fabs(meshArea(a) - meshArea(b)) < 1e-7 * meshArea(a), "polygons", "the area changed"); for (int i = 0; i < N; i++) r.check(b.nodeOk(i) && dist(a.node(i), b.node(i)) == 0, "polygons", fmt("node %d moved", i));
            auto EB = ref::Mesh::from(b).edgeSet(); for (size_t i = 1; i < e.size(); i++) r.check(EB.count(std::minmax((e[i][0] + rot) % N, (e[i][1] + rot) % N)), "polygons", "a side of the outline is gone"); mc::Hash h; hash(h, b); r.state(h.h); r.outcome((int)EB.size()); bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(a); d = diff(a, o, 0); r.check(u && d.empty(), "undo:polygons", d);
        }
        else
        { // snapping to land boundaries
            int side = r.choose(4, "side"), tri = r.choose(2, "triangles"), h0 = r.choose(6, "start"), h1 = r.choose(6, "middle"), h2 = r.choose(6, "end"), ext = r.choose(2, "extent") * 2, rev = r.choose(2, "direction"), pol = r.choose(3, "polygon"), extra = r.choose(2, "second line"); r.shard();
            static const double H[6] = {-0.9, -2.1, 0.6, 1.9, -85, 4.1}; static const double X0[3] = {-6, 4, -30}, X1[3] = {36, 27, 60};
            MeshIn m = tri ? trigrid(3, 3, 10, 10) : grid(3, 3, 10, 10); std::vector<P> land{{X0[ext], H[h0]}, {14.3, H[h1]}, {X1[ext], H[h2]}}, land2{{-60, -170}, {90, -175}};
            if (rev) std::reverse(land.begin(), land.end()); std::vector<P> poly; if (pol == 1) poly = {{-70, -290}, {100, -290}, {100, 90}, {-70, 90}}; if (pol == 2) poly = {{-70, -60}, {17, -60}, {17, 60}, {-70, 60}};
            auto rot = [&](P p) { P q = p - P{15, 15}; for (int t = 0; t < side; t++) q = {-q.y, q.x}; return q + P{15, 15}; };
            for (auto& p : m.n) p = rot(p); for (auto& p : land) p = rot(p); for (auto& p : poly) p = rot(p); for (auto& p : land2) p = rot(p);
            int id = alloc(0); setMesh2(id, m); M2 a, b; getM2(id, a); Geo g, l; for (auto p : poly) g.add(p.x, p.y); if (poly.size()) g.add(poly[0].x, poly[0].y); if (extra) { for (auto p : land2) l.add(p.x, p.y); l.sep(); } for (auto p : land) l.add(p.x, p.y);
            int rc = api::mkernel_mesh2d_snap_to_landboundary(id, g, l); r.step(); if (rc != 0) { M2 c; getM2(id, c); std::string e = diff(a, c, 0); r.check(e.empty(), "failed snap", e); r.check(extra || pol == 2 || h0 > 3 || h1 > 3 || h2 > 3, "call:snap", lastError()); throw mc::Skip{}; } r.check(getM2(id, b) == 0, "read:snap", "cannot be read"); r.validated++;
            r.check(a.en == b.en, "snap", "the edges have changed"); int moved = 0;
            for (int i = 0; i < a.nn(); i++)
            {
                bool mv = dist(a.node(i), b.node(i)) > 0; moved += mv; if (!mv) continue; double d = 1e9, far = 1e9; for (int k = 0; k < 2; k++) { d = std::min(d, segDist(b.node(i), land[k], land[k + 1])); far = std::min(far, segDist(a.node(i), land[k], land[k + 1])); }
                r.check(d < 1e-6 || h1 == 4, "snap", fmt("node %d was moved to (%g,%g), which is not on the land boundary", i, b.nx[i], b.ny[i]));

            }
            // a land boundary that runs past a whole side close to it takes all its nodes
            bool close = ext != 1 && h0 < 4 && h1 < 4 && h2 < 4 && pol != 2; if (close) for (int i = 0; i < 4; i++) { double d = 1e9; P q{}; for (int k = 0; k < 2; k++) { P A = land[k], B = land[k + 1]; double t = std::clamp(((a.node(i).x - A.x) * (B.x - A.x) + (a.node(i).y - A.y) * (B.y - A.y)) / (dist(A, B) * dist(A, B)), 0.0, 1.0); P c = A + t * (B - A); if (dist(c, a.node(i)) < d) { d = dist(c, a.node(i)); q = c; } } r.check(dist(b.node(i), q) < 1e-6, "snap all", fmt("node %d is at (%g,%g), the closest point of the land boundary is (%g,%g)", i, b.nx[i], b.ny[i], q.x, q.y)); }
            if (h0 == 4 && h1 == 4 && h2 == 4) r.check(moved == 0, "snap far", fmt("%d nodes moved", moved));
            mc::Hash h; hash(h, b); r.state(h.h); r.outcome(moved);
            bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); canon(a); std::string d = diff(a, o, 0); r.check(d.empty(), "undo:snap", d);
        }
    }
}
MC_MAIN(body)
