// C29: quality measures equal their definitions on the current mesh and grid.
#include "ops.hpp"
#include "cg.hpp"
#include "ref.hpp"
#include <map>
#include <set>
using namespace mk;
namespace
{
    double crs(P a, P b) { return a.x * b.y - a.y * b.x; }
    bool in(const std::vector<P>& R, P q) { bool s = false; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) if ((R[i].y > q.y) != (R[j].y > q.y) && q.x < (R[j].x - R[i].x) * (q.y - R[i].y) / (R[j].y - R[i].y) + R[i].x) s = !s; return s; }
    void body(Run& r)
    {
        int sc = r.choose(3, "kind"); reset();
        if (sc == 0)
        {
            int sh = r.choose(27, "shifts"), he = r.choose(27, "heights"), dv = r.choose(27, "divisions"), ed = r.choose(6, "edit"), proj = r.choose(2, "projection"); r.shard(); if (!r.thorough() && (sh + he + dv) % 3 && (ed || proj)) throw mc::Skip{};
            static const double SH[3] = {0, 4.7, -3.1}, HE[3] = {9.3, 6.1, 16.9}, X[4] = {0, 10, 18.3, 31}; double K = std::cos(52 * M_PI / 180), s = proj ? 1e-4 : 1; P off = proj ? P{4, 52} : P{0, 0};
            MeshIn m; double y = 0, x0 = 0; int a = sh, b = he; for (int j = 0; j < 4; j++) { for (int i = 0; i < 4; i++) m.n.push_back({x0 + X[i], y}); y += HE[b % 3]; x0 += SH[a % 3]; a /= 3; b /= 3; }
            for (int j = 0; j < 4; j++) for (int i = 0; i < 4; i++) { if (i < 3) m.e.push_back({4 * j + i, 4 * j + i + 1}); if (j < 3) m.e.push_back(i % 2 ? std::array<int, 2>{4 * j + i + 4, 4 * j + i} : std::array<int, 2>{4 * j + i, 4 * j + i + 4}); }
            int d = dv; for (int j = 0; j < 3; j++, d /= 3) for (int i = 0; i < 3; i++) { if (d % 3 == 1) m.e.push_back({4 * j + i, 4 * j + i + 5}); if (d % 3 == 2) m.e.push_back({4 * j + i + 4, 4 * j + i + 1}); }
            for (auto& p : m.n) p = off + s * P{proj ? p.x / K : p.x, p.y}; int id = alloc(proj); r.check(setMesh2(id, m) == 0, "set", lastError()); auto G = [&](P p) { return off + s * P{proj ? p.x / K : p.x, p.y}; };
            // edits after which the measures are asked for at once
            M2 t; if (ed) { Geo o = Geo::sized((int)m.e.size()); api::mkernel_mesh2d_get_orthogonality(id, o); int e; if (ed == 1) { P q = G(P{12.1, m.n[5].y}); q.y = m.n[5].y + s * 1.3; api::mkernel_mesh2d_move_node(id, q.x, q.y, 5); } if (ed == 2) api::mkernel_mesh2d_delete_edge_by_index(id, 9); if (ed == 3) api::mkernel_mesh2d_delete_node(id, 0); if (ed == 4) api::mkernel_mesh2d_translate(id, s * 3, s * 2); if (ed == 5) { Geo none; api::mkernel_mesh2d_delete_node(id, 15); bool u; int uid; api::mkernel_undo_state(u, uid); } (void)e; }
            int ne0 = (int)m.e.size(); Geo O = Geo::sized(ne0), S = Geo::sized(ne0); int which = (sh + he + dv) % 4; static const double TH[4] = {0.1, 0.6, 0.95, 1.4}; double th = TH[(sh + 2 * he + dv) % 4]; int cnt = -1, nob = -1; Geo C, OB; int nn, nne;
            auto ask = [&](int k) { if (k == 0) r.check(api::mkernel_mesh2d_get_orthogonality(id, O) == 0, "call:orthogonality", lastError()); if (k == 1) r.check(api::mkernel_mesh2d_get_smoothness(id, S) == 0, "call:smoothness", lastError()); if (k == 2) { r.check(api::mkernel_mesh2d_count_small_flow_edge_centers(id, th, cnt) == 0, "call:flow", lastError()); C = Geo::sized(std::max(1, cnt)); if (cnt > 0) r.check(api::mkernel_mesh2d_get_small_flow_edge_centers(id, th, C) == 0, "call:flow", lastError()); } if (k == 3) { r.check(api::mkernel_mesh2d_count_obtuse_triangles(id, nob) == 0, "call:obtuse", lastError()); OB = Geo::sized(std::max(1, nob)); if (nob > 0) r.check(api::mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, OB) == 0, "call:obtuse", lastError()); } };
            for (int k = 0; k < 4; k++) { ask((which + k) % 4); r.step(); } (void)nn; (void)nne;
            M2 c; r.check(getM2(id, c) == 0, "read", lastError()); r.validated++; auto F = c.faces(); bool dirty = c.ne() != ne0; // the order of the answers must be that of the edges that are read afterwards
            // reference, in metres-like coordinates
            auto T = [&](P p) { P q = (1 / s) * (p - off); return P{proj ? q.x * K : q.x, q.y}; }; std::vector<P> N(c.nn()); for (int i = 0; i < c.nn(); i++) if (c.nodeOk(i)) N[i] = T(c.node(i));
            std::vector<P> cc(F.size()), mc(F.size()); std::vector<char> known(F.size(), 1), inr(F.size(), 0); std::vector<double> A(F.size()); std::vector<char> cshaky(F.size(), 0);
            for (int e = 0; e < c.ne(); e++) if (c.edgeOk(e) && c.ef[2 * e] >= 0 && c.ef[2 * e + 1] >= 0) for (int k : {0, 1}) inr[c.ef[2 * e + k]] = 1;
            for (size_t f = 0; f < F.size(); f++)
            {
                std::vector<P> R; for (int i : F[f]) R.push_back(N[i]); P g{0, 0}; for (P p : R) g = g + (1.0 / R.size()) * p; mc[f] = g; A[f] = std::fabs(area(R)); P q = g;
                if (R.size() == 3) { P u = R[1] - R[0], v = R[2] - R[0]; double k = 2 * crs(u, v), uu = u.x * u.x + u.y * u.y, vv = v.x * v.x + v.y * v.y; q = R[0] + P{(v.y * uu - u.y * vv) / k, (u.x * vv - v.x * uu) / k}; }
                else { bool rect = R.size() == 4; for (int k = 0; k < 4 && rect; k++) { P u = R[(k + 1) % 4] - R[k], v = R[(k + 2) % 4] - R[(k + 1) % 4]; if (std::fabs(u.x * v.x + u.y * v.y) > 1e-6 * dist({0, 0}, u) * dist({0, 0}, v) * (proj ? 1e3 : 1)) rect = false; } known[f] = rect; }
                if (!inr[f]) { if (R.size() == 4 && !known[f]) known[f] = 0; q = g; if (R.size() == 3) known[f] = 1; }
                double bd = 1e9; for (size_t k = 0; k < R.size(); k++) bd = std::min(bd, segDist(q, R[k], R[(k + 1) % R.size()])); if (bd < (proj ? 0.02 : 1e-6)) cshaky[f] = 1;
                if (!in(R, q)) for (size_t k = 0; k < R.size(); k++) { P u = q - g, v = R[(k + 1) % R.size()] - R[k]; double w = crs(u, v); if (w == 0) continue; double ta = crs(R[k] - g, v) / w, tb = crs(R[k] - g, u) / w; if (ta >= 0 && ta <= 1 && tb >= 0 && tb <= 1) { q = g + ta * u; break; } }
                cc[f] = q;
            }
            double tol = proj ? 2e-3 : 1e-6; std::vector<double> wo(c.ne(), -999), ws(c.ne(), -999); std::vector<char> jo(c.ne(), 1); std::vector<P> flow; bool fshaky = false;
            for (int e = 0; e < c.ne(); e++) if (c.edgeOk(e) && c.ef[2 * e] >= 0 && c.ef[2 * e + 1] >= 0)
            {
                int f = c.ef[2 * e], g = c.ef[2 * e + 1]; ws[e] = std::max(A[f], A[g]) / std::min(A[f], A[g]); P u = N[c.en[2 * e + 1]] - N[c.en[2 * e]], v = cc[g] - cc[f]; double lu = dist({0, 0}, u), lv = dist({0, 0}, v); bool k2 = known[f] && known[g] && !cshaky[f] && !cshaky[g]; jo[e] = k2 && lv > 0.05; if (lv > 0) wo[e] = std::fabs(u.x * v.x + u.y * v.y) / lu / lv;
                double cut = th * 0.5 * (std::sqrt(A[f]) + std::sqrt(A[g])); if (!known[f] || !known[g] || std::fabs(lv - cut) < (proj ? 0.05 : 1e-6) || ((cshaky[f] || cshaky[g]) && std::fabs(lv - cut) < 0.1)) fshaky = true; if (lv < cut) flow.push_back(0.5 * (cc[f] + cc[g]));
            }
            else jo[e] = 1;
            if (!dirty) for (int e = 0; e < c.ne(); e++)
            {
                if (jo[e]) r.check(std::fabs(O.v[e] - wo[e]) < tol * (1 + (wo[e] < 0 ? 0 : 4)), fmt("orthogonality;edit%d", ed), fmt("edge %d has %.9g, expected %.9g", e, O.v[e], wo[e]));
                r.check(std::fabs(S.v[e] - ws[e]) < tol * (1 + std::fabs(ws[e])), fmt("smoothness;edit%d", ed), fmt("edge %d has %.9g, expected %.9g", e, S.v[e], ws[e]));
            }
            else r.check(c.ne() <= ne0, "count", "the number of edges increased");
            if (!fshaky) { r.check(cnt == (int)flow.size(), fmt("small flow edges;edit%d", ed), fmt("%d are reported, %zu are there", cnt, flow.size())); std::vector<char> used(flow.size(), 0); for (int i = 0; i < cnt; i++) { P q = T({C.x[i], C.y[i]}); bool ok = false; for (size_t k = 0; k < flow.size() && !ok; k++) if (!used[k] && dist(q, flow[k]) < (proj ? 0.05 : 1e-5)) used[k] = ok = true; r.check(ok, fmt("small flow edges;edit%d", ed), fmt("(%g,%g) is not the centre of a small flow edge", q.x, q.y)); } }
            { std::vector<P> ob; bool sk = false; for (size_t f = 0; f < F.size(); f++) if (F[f].size() == 3) { double w = 0; for (int k = 0; k < 3; k++) { P u = N[F[f][(k + 1) % 3]] - N[F[f][k]], v = N[F[f][(k + 2) % 3]] - N[F[f][k]]; w = std::min(w, (u.x * v.x + u.y * v.y) / dist({0, 0}, u) / dist({0, 0}, v)); double cs = (u.x * v.x + u.y * v.y) / dist({0, 0}, u) / dist({0, 0}, v); if (std::fabs(cs) < 1e-4) sk = true; } if (w < 0) ob.push_back(mc[f]); }
                if (!sk) { r.check(nob == (int)ob.size(), fmt("obtuse triangles;edit%d", ed), fmt("%d are reported, %zu are there", nob, ob.size())); for (int i = 0; i < nob; i++) { P q = T({OB.x[i], OB.y[i]}); double b2 = 1e9; for (P p : ob) b2 = std::min(b2, dist(p, q)); r.check(b2 < (proj ? 0.05 : 1e-6), fmt("obtuse triangles;edit%d", ed), fmt("(%g,%g) is not the mass centre of an obtuse triangle", q.x, q.y)); } } }
            { int n = -1; r.check(api::mkernel_mesh2d_get_property_dimension(id, 1, n) == 0, "call:edge lengths", lastError()); r.check(n == c.ne(), "edge lengths", fmt("%d lengths for %d edges", n, c.ne())); Geo g = Geo::sized(n); r.check(api::mkernel_mesh2d_get_property(id, 1, g) == 0, "call:edge lengths", lastError()); for (int e = 0; e < n; e++) if (c.edgeOk(e)) { double w = dist(N[c.en[2 * e]], N[c.en[2 * e + 1]]) * (proj ? 6378137.0 * s * M_PI / 180 : 1); r.check(std::fabs(g.v[e] - w) < tol * w, "edge lengths", fmt("edge %d has %.9g, expected %.9g", e, g.v[e], w)); } }
            // faces all of whose edges are within a range
            { static const double LO[4] = {0, 0.02, -1000, 0.1}, HI[4] = {0.03, 0.5, 0.2, 1}; double lo = LO[(sh + dv) % 4], hi = HI[(sh + dv) % 4]; Geo O2 = Geo::sized(std::max(1, c.ne())); api::mkernel_mesh2d_get_orthogonality(id, O2); std::vector<int> want; std::map<std::pair<int, int>, int> E; for (int e = 0; e < c.ne(); e++) if (c.edgeOk(e)) E[std::minmax(c.en[2 * e], c.en[2 * e + 1])] = e; for (size_t f = 0; f < F.size(); f++) { bool all = true; for (size_t k = 0; k < F[f].size(); k++) { double v = O2.v[E[std::minmax(F[f][k], F[f][(k + 1) % F[f].size()])]]; if (v < lo || v > hi) all = false; } if (all) want.push_back((int)f); }
                int n = -1; r.check(api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, lo, hi, n) == 0, "call:filter", lastError()); int w = 0; for (int f : want) w += (int)F[f].size() + 2; if (w) w--; 
                if (!want.empty()) { r.check(n == w, "filter", fmt("the size is %d, expected %d", n, w)); Geo g = Geo::sized(n); r.check(api::mkernel_mesh2d_get_filtered_face_polygons(id, 0, lo, hi, g) == 0, "call:filter", lastError()); int k = 0; for (size_t q = 0; q < want.size(); q++) { auto& f = F[want[q]]; for (size_t i = 0; i <= f.size(); i++, k++) { P p = c.node(f[i % f.size()]); r.check(g.x[k] == p.x && g.y[k] == p.y, "filter", fmt("point %d is (%g,%g), expected (%g,%g)", k, g.x[k], g.y[k], p.x, p.y)); } if (q + 1 < want.size()) { r.check(g.x[k] == -999, "filter", "no separator"); k++; } } } }
            mc::Hash h; h.vd(O.v); h.vd(S.v); r.state(h.h); r.outcome(cnt * 20 + nob);
            // deleting the small flow edges
            if (!fshaky && ed < 2)
            {
                int rc = api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, th, 1e-12); r.step(); r.check(rc == 0, "call:delete", lastError()); M2 q; r.check(getM2(id, q) == 0, "read:delete", lastError()); std::set<std::pair<int, int>> W, H; for (int e = 0; e < c.ne(); e++) { if (!c.edgeOk(e)) continue; int f = c.ef[2 * e], g = c.ef[2 * e + 1]; bool small = f >= 0 && g >= 0 && dist(cc[f], cc[g]) < th * 0.5 * (std::sqrt(A[f]) + std::sqrt(A[g])); if (!small) W.insert(std::minmax(c.en[2 * e], c.en[2 * e + 1])); }
                for (int e = 0; e < q.ne(); e++) if (q.edgeOk(e)) H.insert(std::minmax(q.en[2 * e], q.en[2 * e + 1])); std::set<std::pair<int, int>> miss, more; for (auto& x : W) if (!H.count(x)) miss.insert(x); for (auto& x : H) if (!W.count(x)) more.insert(x);
                r.check(miss.empty() && more.empty(), "delete small flow edges", fmt("%zu edges too few and %zu too many are left", miss.size(), more.size())); bool u; int uid; M2 o; api::mkernel_undo_state(u, uid); getM2(id, o); canon(o); M2 cc2 = c; canon(cc2); std::string df = diff(cc2, o, 0); r.check(u && df.empty(), "undo", df);
            }
        }
        else if (sc == 2)
        { // cells of very different sizes: rectangles, some of them divided
            int w = r.choose(27, "widths"), ht = r.choose(27, "heights"), dg = r.choose(8, "diagonals"); r.shard(); static const double W[3] = {10, 0.013, 2400}; MeshIn m = grid(3, 3, 1, 1); double X[4] = {0}, Y[4] = {0}; for (int i = 0; i < 3; i++, w /= 3, ht /= 3) { X[i + 1] = X[i] + W[w % 3]; Y[i + 1] = Y[i] + W[ht % 3]; } for (auto& p : m.n) p = {X[(int)p.x], Y[(int)p.y]}; for (int k = 0; k < 3; k++) if (dg >> k & 1) m.e.push_back({5 * k, 5 * k + 5});
            int id = alloc(0); r.check(setMesh2(id, m) == 0, "set", lastError()); Geo S = Geo::sized((int)m.e.size()), O = S; r.check(api::mkernel_mesh2d_get_smoothness(id, S) == 0, "call:smoothness", lastError()); r.check(api::mkernel_mesh2d_get_orthogonality(id, O) == 0, "call:orthogonality", lastError()); r.step(); r.validated++; M2 c; r.check(getM2(id, c) == 0, "read", lastError()); auto F = c.faces(); std::vector<double> A; for (auto& f : F) { std::vector<P> R; for (int i : f) R.push_back(c.node(i) - c.node(f[0])); A.push_back(std::fabs(area(R))); }
            for (int e = 0; e < c.ne(); e++) { int f = c.ef[2 * e], g = c.ef[2 * e + 1]; double ws = -999; if (f >= 0 && g >= 0) { ws = std::max(A[f], A[g]) / std::min(A[f], A[g]); if (F[f].size() == 4 && F[g].size() == 4) r.check(O.v[e] < 1e-5 && O.v[e] >= 0, "orthogonality;sizes", fmt("edge %d between rectangles has %g", e, O.v[e])); } else r.check(O.v[e] == -999, "orthogonality;sizes", fmt("outer edge %d has %g", e, O.v[e])); r.check(std::fabs(S.v[e] - ws) < 1e-6 * (1 + std::fabs(ws)), "smoothness;sizes", fmt("edge %d has %.9g, expected %.9g", e, S.v[e], ws)); }
            mc::Hash h; h.vd(S.v); r.state(h.h);
        }
        else
        { // curvilinear grids
            int code = r.choose(729, "nodes"), dir = r.choose(2, "direction"), hole = r.choose(5, "missing node"), size = r.choose(3, "size"); r.shard(); static const int NN[3] = {4, 3, 5}, MM[3] = {3, 5, 4}; int n = NN[size], m = MM[size]; static const double V[3] = {0, 1.7, -2.3};
            std::vector<P> g; int k = code; double v[6]; for (int i = 0; i < 6; i++, k /= 3) v[i] = V[k % 3]; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) g.push_back({10.0 * j + 0.6 * j * j + v[(i + j) % 6] + 0.3 * i * j, 9.0 * i - 0.4 * i * i + v[(2 * i + 3 * j + 1) % 6]});
            int id = alloc(0); r.check(setCG(id, n, m, g) == 0, "set", lastError()); if (hole) { int q = hole == 1 ? 0 : hole == 2 ? n * m - 1 : hole == 3 ? m / 2 : (n - 1) * m; r.check(api::mkernel_curvilinear_delete_node(id, g[q].x, g[q].y) == 0, "delete", lastError()); }
            CG c; r.check(getCG(id, c) == 0, "read", lastError()); r.check(c.n * c.m == n * m, "read", "size"); std::vector<double> S(n * m, -5), Q(n * m, -5); r.check(api::mkernel_curvilinear_compute_smoothness(id, dir, S.data()) == 0, "call:smoothness", lastError()); r.check(api::mkernel_curvilinear_compute_curvature(id, dir, Q.data()) == 0, "call:curvature", lastError()); r.step(); r.validated++;
            // direction 0 is along m (columns), 1 along n (rows)
            for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
            {
                auto at = [&](int a, int b) { return P{c.x[a * m + b], c.y[a * m + b]}; }; auto ok = [&](int a, int b) { return a >= 0 && b >= 0 && a < n && b < m && c.x[a * m + b] != -999; }; int di = dir == 1, dj = dir == 0; double ws = -999, wq = -999;
                if (ok(i, j) && ok(i - di, j - dj) && ok(i + di, j + dj)) { P a = at(i - di, j - dj), b = at(i, j), e = at(i + di, j + dj); double l1 = dist(a, b), l2 = dist(b, e); ws = std::max(l1, l2) / std::min(l1, l2); double ar = crs(b - a, e - b), dt = (e - b).x * (e - a).x + (e - b).y * (e - a).y; wq = 1000 / (std::fabs(ar) < 1e-9 ? 999999.0 : l1 * std::fabs(dt / ar)); }
                r.check(std::fabs(S[i * m + j] - ws) < 1e-8 * (1 + std::fabs(ws)), "grid smoothness", fmt("node (%d,%d) has %.9g, expected %.9g", i, j, S[i * m + j], ws)); r.check(std::fabs(Q[i * m + j] - wq) < 1e-6 * (1 + std::fabs(wq)) || (wq > 0 && wq < 0.002), "grid curvature", fmt("node (%d,%d) has %.9g, expected %.9g", i, j, Q[i * m + j], wq));
            }
            mc::Hash h; h.vd(S); h.vd(Q); r.state(h.h);
        }
    }
}
MC_MAIN(body)
