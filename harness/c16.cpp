// C16: rotating, translating and converting a mesh moves every node to where the composition of the mappings says.
#include "ops.hpp"
#include "ref.hpp"
#include <set>
using namespace mk;
namespace
{
    // Krüger series for the transverse Mercator projection on WGS84, zone with central meridian l0 in degrees
    struct UTM
    {
        double l0; bool south; static constexpr double a = 6378137.0, f = 1 / 298.257223563, k0 = 0.9996;
        P fwd(P q) const
        {
            double n = f / (2 - f), A = a / (1 + n) * (1 + n * n / 4 + n * n * n * n / 64), al[3] = {n / 2 - 2 * n * n / 3 + 5 * n * n * n / 16, 13 * n * n / 48 - 3 * n * n * n / 5, 61 * n * n * n / 240}, ph = q.y * M_PI / 180, dl = (q.x - l0) * M_PI / 180, s2 = 2 * std::sqrt(n) / (1 + n), t = std::sinh(std::atanh(std::sin(ph)) - s2 * std::atanh(s2 * std::sin(ph))), xi = std::atan2(t, std::cos(dl)), et = std::atanh(std::sin(dl) / std::sqrt(1 + t * t)), E = et, N = xi;
            for (int j = 1; j <= 3; j++) { E += al[j - 1] * std::cos(2 * j * xi) * std::sinh(2 * j * et); N += al[j - 1] * std::sin(2 * j * xi) * std::cosh(2 * j * et); } return {500000 + k0 * A * E, (south ? 1e7 : 0) + k0 * A * N};
        }
        P inv(P q) const { P g{l0, 0}; g.y = (q.y - (south ? 1e7 : 0)) / 110574.0; g.x = l0 + (q.x - 500000) / (111320 * std::cos(g.y * M_PI / 180)); for (int it = 0; it < 60; it++) { double h = 1e-6; P c = fwd(g), dx = fwd({g.x + h, g.y}) - c, dy = fwd({g.x, g.y + h}) - c, d = q - c; double det = (dx.x * dy.y - dx.y * dy.x) / (h * h); P st{(d.x * dy.y - d.y * dy.x) / h / det, (dx.x * d.y - dx.y * d.x) / h / det}; g = g + st; if (std::fabs(st.x) + std::fabs(st.y) < 1e-13) break; } return g; }
    };
    struct Z { const char* s; UTM u; };
    const Z ZONES[] = {{"+proj=utm +zone=31 +ellps=WGS84", {3, false}}, {"+proj=utm +zone=32 +ellps=WGS84", {9, false}}, {"+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31", {3, false}}};
    void body(Run& r)
    {
        int mesh = r.choose(4, "mesh"), place = r.choose(2, "place"), proj = r.choose(2, "projection"), D = r.thorough() ? 4 : 3; std::vector<int> ops; for (int i = 0; i < D; i++) ops.push_back(r.choose(12, "operation")); r.shard();
        // around 3.9 degrees east, at 52 north or 11 north
        P c0 = place ? P{3.9, 11.2} : P{3.9, 52.1}; const UTM& U = ZONES[0].u; MeshIn in = mesh == 1 ? trigrid(3, 3, 10, 10) : grid(4, 3, 10, 10); std::vector<P> nodes; for (auto& p : in.n) { P g = c0 + (mesh == 3 ? 0.01 : 3e-4) * p; nodes.push_back(proj ? g : U.fwd(g)); } in.n = nodes;
        reset(); int id = alloc(proj); r.check(setMesh2(id, in) == 0, "set", lastError()); if (mesh == 2) { api::mkernel_mesh2d_delete_node(id, 0); api::mkernel_mesh2d_delete_node(id, 5); } api::mkernel_clear_undo_state();
        M2 m0; getM2(id, m0); std::vector<P> ref; for (size_t i = 0; i < m0.nx.size(); i++) ref.push_back({m0.nx[i], m0.ny[i]}); int rp = proj; struct S { std::vector<P> n; int p; }; std::vector<S> und; double tol = 0; bool moved = false; std::string hist;
        for (int o : ops)
        {
            r.step(); int rc = 0, want = 0; auto map = [&](auto f) { und.push_back({ref, rp}); for (auto& p : ref) if (p.x != MISS) p = f(p); moved = true; }; hist += (char)('a' + o);
            if (o <= 2) { static const double AN[] = {30, -135, 90}; P c = o == 0 ? (rp ? c0 : U.fwd(c0)) : o == 1 ? P{0, 0} : ref[1] + P{13, -7}; double th = AN[o] * M_PI / 180, cs = std::cos(th), sn = std::sin(th); rc = api::mkernel_mesh2d_rotate(id, c.x, c.y, AN[o]); want = rp; if (!rp) map([&](P p) { P d = p - c; return c + P{cs * d.x - sn * d.y, sn * d.x + cs * d.y}; }); if (o == 1 && !rp) tol += 1e-6; }
            else if (o <= 4) { P t = o == 3 ? P{1234.5, -777.25} : P{-30000, 25000}; rc = api::mkernel_mesh2d_translate(id, t.x, t.y); want = rp; if (!rp) map([&](P p) { return p + t; }); }
            else if (o <= 9)
            { // conversions; to the projection it already has is nothing
                bool toS = o <= 6; int z = o == 5 || o == 7 ? 0 : o == 6 || o == 8 ? 1 : 2; bool far = false; if (rp == 0 && toS) for (auto& p : ref) if (p.x != MISS && (std::fabs(p.x - 500000) > 600000 || p.y < 100000 || p.y > 8e6)) far = true; if (rp == 1 && !toS) for (auto& p : ref) if (p.x != MISS && std::fabs(p.x - ZONES[z].u.l0) > 8) far = true; if (far) { r.note("outside the zone: not judged"); return; }
                rc = api::mkernel_mesh2d_convert_projection(id, toS ? 1 : 0, ZONES[z].s); if (rp == 0 && toS) { map([&](P p) { return ZONES[z].u.inv(p); }); rp = 1; tol += 1e-2; } else if (rp == 1 && !toS) { map([&](P p) { return ZONES[z].u.fwd(p); }); rp = 0; tol += 1e-2; }
            }
            else if (o == 11) { rc = api::mkernel_mesh2d_convert_projection(id, 2, ZONES[0].s); want = 1; }
            else { bool un = false; int ui = -1; rc = api::mkernel_undo_state(un, ui); r.checkf(un == !und.empty(), "undo", [&] { return fmt("undone %d with %d in the history, after %s", (int)un, (int)und.size(), hist.c_str()); }); if (!und.empty()) { ref = und.back().n; rp = und.back().p; und.pop_back(); } }
            r.checkf((rc != 0) == (want != 0), "result", [&] { return fmt("operation %d in projection %d gives %d (%s) after %s", o, rp, rc, rc ? lastError().c_str() : "", hist.c_str()); });
            int gp = -1; api::mkernel_get_projection(id, gp); r.checkf(gp == rp, "projection", [&] { return fmt("projection %d, expected %d after %s", gp, rp, hist.c_str()); });
            M2 m; getM2(id, m); r.checkf(m.en == m0.en && m.fn == m0.fn && m.npf == m0.npf && m.fe == m0.fe && m.ef == m0.ef, "topology", [&] { return "edges or faces differ after " + hist; });
            for (size_t i = 0; i < ref.size(); i++) { P p{m.nx[i], m.ny[i]}; double d = ref[i].x == MISS ? (p.x == MISS ? 0 : 1e9) : rp ? std::hypot((p.x - ref[i].x) * std::cos(p.y * M_PI / 180), p.y - ref[i].y) * 111194 : dist(p, ref[i]); r.checkf(d <= tol + 1e-7, "place", [&] { return fmt("node %d at (%.9g, %.9g), expected (%.9g, %.9g), %g off, after %s", (int)i, p.x, p.y, ref[i].x, ref[i].y, d, hist.c_str()); }); }
            // face and edge centres follow
            for (size_t e = 0; e + 1 < m.en.size(); e += 2) if (m.en[e] >= 0) { P c = 0.5 * (m.node(m.en[e]) + m.node(m.en[e + 1])); r.checkf(dist(c, {m.ex[e / 2], m.ey[e / 2]}) < (rp ? 1e-7 : 1e-3), "edge centre", [&] { return fmt("centre of edge %d after %s", (int)e / 2, hist.c_str()); }); }
            auto F = m.faces(); for (size_t f = 0; f < F.size(); f++) { P lo{1e300, 1e300}, hi{-1e300, -1e300}; for (int k : F[f]) { P p = m.node(k); lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); } r.checkf(m.fx[f] > lo.x && m.fx[f] < hi.x && m.fy[f] > lo.y && m.fy[f] < hi.y, "face centre", [&] { return fmt("centre (%g, %g) of face %d outside it after %s", m.fx[f], m.fy[f], (int)f, hist.c_str()); }); }
            // searching finds the nodes at their new places
            for (size_t i = 0; i < ref.size(); i += 4) if (ref[i].x != MISS) { int k = -1; int q = api::mkernel_mesh2d_get_node_index(id, m.nx[i], m.ny[i], 5.0, -1e9, -1e9, 1e9, 1e9, k); r.checkf(q == 0 && k == (int)i, "search", [&] { return fmt("searching at node %d gives %d after %s", (int)i, k, hist.c_str()); }); }
            mc::Hash h; h.vd(m.nx); h.vd(m.ny); h.i(rp); r.state(h.h);
        }
        r.validated++; r.outcome(rp * 2 + moved);
    }
}
MC_MAIN(body)
