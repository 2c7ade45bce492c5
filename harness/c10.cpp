// C10: Casulli refinement and de-refinement.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    MeshIn base(int k)
    {
        MeshIn m;
        auto inner = [](MeshIn& m, int nx, int ny) { static const double J[8] = {0.9, -0.8, 0.5, 1.1, -0.6, -1.0, 0.7, -0.4}; for (int i = 0; i < (int)m.n.size(); i++) { int a = i % (nx + 1), b = i / (nx + 1); if (a > 0 && a < nx && b > 0 && b < ny) m.n[i] = m.n[i] + P{J[i % 7], J[(3 * i + 1) % 8]}; } };
        if (k == 0) m = grid(3, 3, 10, 10);
        else if (k == 1)
        { // a triangle of sixteen triangles
            std::map<std::pair<int, int>, int> at; for (int j = 0; j < 5; j++) for (int i = 0; i + j < 5; i++) { at[{i, j}] = (int)m.n.size(); m.n.push_back({1 + 9.0 * i + 4.5 * j, 0.5 + 8.0 * j}); }
            for (auto& [q, v] : at) { auto [i, j] = q; for (auto [x, y] : {std::pair<int, int>{1, 0}, {0, 1}, {-1, 1}}) if (at.count({i + x, j + y})) m.e.push_back({v, at[{i + x, j + y}]}); }
        }
        else if (k == 2) { m = grid(4, 3, 8, 11); inner(m, 4, 3); }
        else if (k == 3) { m = grid(3, 4, 10, 8); inner(m, 3, 4); std::vector<int> p(20); for (int i = 0; i < 20; i++) p[i] = (i * 7 + 3) % 20; MeshIn q = m; for (int i = 0; i < 20; i++) q.n[p[i]] = m.n[i]; std::reverse(q.e.begin(), q.e.end()); for (auto& e : q.e) e = {p[e[1]], p[e[0]]}; m = q; }
        else if (k == 4)
        { // two rows of quadrilaterals and one of triangles
            for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) m.n.push_back({8 - 2.0 * j + i * (16.0 + 4 * j) / 3, 8.0 * j});
            for (int i = 0; i < 5; i++) m.n.push_back({8.0 * i, 32});
            for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) m.e.push_back({4 * j + i, 4 * j + i + 1});
            for (int j = 0; j < 2; j++) for (int i = 0; i < 4; i++) m.e.push_back({4 * j + i, 4 * j + i + 4});
            for (int i = 0; i < 4; i++) { m.e.push_back({8 + i, 12 + i}); m.e.push_back({8 + i, 13 + i}); m.e.push_back({12 + i, 13 + i}); }
        }
        else if (k == 10) // two fans of three triangles that meet in one node
        {
            m.n.push_back({20, 18}); for (int s = 0; s < 2; s++) { int o = (int)m.n.size(); for (int i = 0; i < 4; i++) { double t = (s * 180 - 80 + 53.0 * i) * M_PI / 180; m.n.push_back({20 + (13 + i % 2) * std::cos(t), 18 + (13 + i % 2) * std::sin(t)}); m.e.push_back(i % 2 ? std::array<int, 2>{0, o + i} : std::array<int, 2>{o + i, 0}); if (i) m.e.push_back({o + i - 1, o + i}); } }
        }
        else if (k == 11) // a node with eight triangles
        {
            m.n.push_back({20, 18}); for (int i = 0; i < 8; i++) { double t = (4 + 45.0 * i) * M_PI / 180; m.n.push_back({20 + 15 * std::cos(t), 18 + 15 * std::sin(t)}); m.e.push_back(i % 3 ? std::array<int, 2>{0, i + 1} : std::array<int, 2>{i + 1, 0}); m.e.push_back({i + 1, (i + 1) % 8 + 1}); }
        }
        else if (k > 5) { int nx = k < 8 ? 5 : k == 8 ? 6 : 7, ny = k == 6 ? 5 : k == 7 ? 6 : k == 8 ? 4 : 3; m = grid(nx, ny, 40.0 / nx, 36.0 / ny); inner(m, nx, ny); }
        else { m = grid(4, 4, 8, 8); }                                                                       // its centre block is deleted later
        return m;
    }
    using Key = std::array<long long, 2>;
    struct Want { std::map<Key, int> nodes; std::set<std::pair<Key, Key>> edges; std::vector<char> sel, corner; };
    double SC = 1; // size of a unit in the coordinates
    Key key(P p) { return {llround(p.x / SC * 1e5), llround(p.y / SC * 1e5)}; }
    // the mesh that refinement must give
    // the centre from which the nodes of a face are pulled in: for triangles and rectangles the circumcentre, for others the
    // point inside that explains the nodes found in the result
    P centre(const M2& m, const std::vector<int>& f, const std::vector<char>& sel, const M2& res)
    {
        std::vector<P> q; for (int i : f) q.push_back(m.node(i)); P c = centroid(q);
        if (SC == 1 && q.size() == 3) { P a = q[1] - q[0], b = q[2] - q[0]; double d = 2 * cross(a, b), A = a.x * a.x + a.y * a.y, B = b.x * b.x + b.y * b.y; return q[0] + P{(b.y * A - a.y * B) / d, (a.x * B - b.x * A) / d}; }
        if (q.size() == 4 && dist(0.5 * (q[0] + q[2]), 0.5 * (q[1] + q[3])) < 1e-9 * SC && std::fabs(dist(q[0], q[2]) - dist(q[1], q[3])) < 1e-9 * SC) return c;
        double best = 1e9; P out = c; double size = std::sqrt(area(q));
        for (size_t k = 0; k < f.size(); k++) if (sel[f[k]])
        {
            for (int j = 0; j < res.nn(); j++) if (res.nodeOk(j))
            {
                P t = 2 * res.node(j) - q[k]; if (dist(t, c) > 0.35 * size || dist(t, c) >= best) continue; bool all = true;
                for (size_t l = 0; l < f.size() && all; l++) if (sel[f[l]]) { bool hit = false; P w = 0.5 * (t + q[l]); for (int i = 0; i < res.nn() && !hit; i++) hit = res.nodeOk(i) && dist(res.node(i), w) < 1e-7 * SC; all = hit; }
                if (all) { best = dist(t, c); out = t; }
            }
            break;
        }
        return out;
    }
    bool predict(const M2& m, const std::vector<P>* poly, const M2& res, Want& w)
    {
        auto F = m.faces(); int n = m.nn(); std::vector<char>& sel = w.sel; sel.assign(n, 0); w.corner.assign(n, 0);
        std::vector<int> nf(n, 0), nb(n, 0), deg(n, 0);
        for (auto& f : F) for (int i : f) nf[i]++;
        auto faces = [&](int e) { return (m.ef[2 * e] >= 0) + (m.ef[2 * e + 1] >= 0); };
        std::map<std::pair<int, int>, int> E; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { int a = m.en[2 * e], b = m.en[2 * e + 1]; E[std::minmax(a, b)] = e; deg[a]++; deg[b]++; if (faces(e) == 1) { nb[a]++; nb[b]++; } }
        for (int i = 0; i < n; i++) if (m.nodeOk(i) && nf[i]) { if (!poly) sel[i] = 1; else { int s = pip(m.node(i), *poly, 1e-9 * SC); if (s == 0) return false; sel[i] = s > 0; } }
        for (int i = 0; i < n; i++) if (sel[i] && (nf[i] + (nb[i] ? 2 : 0) > 6 || (nb[i] && (nf[i] == 1 || nb[i] > 2 || deg[i] == 2 || nf[i] < deg[i] - 1)))) w.corner[i] = 1;
        for (auto& f : F) for (size_t k = 0; k < f.size(); k++) { int p = f[(k + f.size() - 1) % f.size()], i = f[k], q = f[(k + 1) % f.size()]; if (sel[i] && faces(E[std::minmax(p, i)]) == 1 && faces(E[std::minmax(i, q)]) == 1) w.corner[i] = 1; }
        auto node = [&](P p) { Key k = key(p); w.nodes[k]++; return k; };
        auto edge = [&](Key a, Key b) { if (a != b) w.edges.insert(std::minmax(a, b)); };
        std::vector<Key> old(n); for (int i = 0; i < n; i++) if (m.nodeOk(i)) { old[i] = key(m.node(i)); if (!sel[i] || w.corner[i]) w.nodes[old[i]]++; }
        std::map<std::pair<int, int>, Key> N, G;
        for (size_t f = 0; f < F.size(); f++) { P c = centre(m, F[f], sel, res); for (int i : F[f]) N[{(int)f, i}] = sel[i] ? node(0.5 * (c + m.node(i))) : old[i]; }
        for (auto& [ab, e] : E) if (faces(e) == 1) for (int t = 0; t < 2; t++) { int i = t ? ab.second : ab.first, j = t ? ab.first : ab.second; G[{e, i}] = sel[i] ? node(0.75 * m.node(i) + 0.25 * m.node(j)) : old[i]; }
        std::vector<std::vector<Key>> bound(n);
        for (auto& [ab, e] : E)
        {
            auto [a, b] = ab; int k = faces(e); if (k == 0) { edge(old[a], old[b]); continue; }
            int f = std::max(m.ef[2 * e], m.ef[2 * e + 1]), g = std::min(m.ef[2 * e], m.ef[2 * e + 1]);
            Key fa = N[{f, a}], fb = N[{f, b}], ga = k == 2 ? N[{g, a}] : G[{e, a}], gb = k == 2 ? N[{g, b}] : G[{e, b}];
            edge(fa, fb); edge(ga, gb); edge(fa, ga); edge(fb, gb);
            for (int i : {a, b}) if (w.corner[i]) { if (k == 2) edge(old[i], i == a ? fa : fb); edge(old[i], i == a ? ga : gb); }
            if (k == 1) { bound[a].push_back(ga); bound[b].push_back(gb); }
        }
        for (int i = 0; i < n; i++) if (sel[i] && !w.corner[i] && bound[i].size() == 2) edge(bound[i][0], bound[i][1]);
        return true;
    }
    std::string compare(const M2& b, const Want& w)
    {
        std::map<Key, int> have; for (int i = 0; i < b.nn(); i++) if (b.nodeOk(i)) have[key(b.node(i))]++;
        // rounding: a node is looked for in the neighbouring cells too
        auto in = [](const auto& s, Key k) { for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) if (s.count(Key{k[0] + x, k[1] + y})) return true; return false; };
        for (auto& [k, c] : w.nodes) if (!in(have, k)) return fmt("no node at (%g,%g)", k[0] / 1e5, k[1] / 1e5);
        for (auto& [k, c] : have) if (!in(w.nodes, k)) return fmt("there should be no node at (%g,%g)", k[0] / 1e5, k[1] / 1e5);
        auto inE = [](const auto& s, Key p, Key q) { for (int t = 0; t < 81; t++) if (s.count(std::minmax(Key{p[0] + t % 3 - 1, p[1] + t / 3 % 3 - 1}, Key{q[0] + t / 9 % 3 - 1, q[1] + t / 27 - 1}))) return true; return false; };
        std::set<std::pair<Key, Key>> E; for (int e = 0; e < b.ne(); e++) if (b.edgeOk(e)) E.insert(std::minmax(key(b.node(b.en[2 * e])), key(b.node(b.en[2 * e + 1]))));
        auto show = [](const std::pair<Key, Key>& e) { return fmt("(%g,%g)-(%g,%g)", e.first[0] / 1e5, e.first[1] / 1e5, e.second[0] / 1e5, e.second[1] / 1e5); };
        for (auto& e : w.edges) if (!E.count(e) && !inE(E, e.first, e.second)) return "no edge " + show(e);
        for (auto& e : E) if (!w.edges.count(e) && !inE(w.edges, e.first, e.second)) return "there should be no edge " + show(e);
        return "";
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario"); reset(); int id = alloc(0); int mesh = r.choose(sc == 1 ? 10 : 8, "mesh"); if (sc != 1 && mesh > 5) mesh += 4;
        static const double L[6] = {-4.3, 5.1, 14.7, 25.2, 34.1, 44};
        int whole = r.choose(2, "whole mesh"); std::vector<P> poly; Geo g;
        if (!whole)
        {
            int tri = r.choose(2, "triangle");
            if (!tri) { int a = r.choose(5, "x0"), b = 1 + r.choose(5, "x1"), d = r.choose(5, "y0"), e = 1 + r.choose(5, "y1"); if (b <= a || e <= d) throw mc::Skip{}; poly = {{L[a], L[d]}, {L[b], L[d]}, {L[b], L[e]}, {L[a], L[e]}}; }
            else { int a = r.choose(36, "p"), b = r.choose(36, "q"), d = r.choose(36, "s"); if (!(a < b && a < d && b != d)) throw mc::Skip{}; if (!r.thorough() && (a + b * 5 + d * 7) % 4) throw mc::Skip{}; auto pt = [&](int k) { return P{L[k % 6] + 0.3 * (k / 6), L[k / 6] - 0.2 * (k % 6)}; }; poly = {pt(a), pt(b), pt(d)}; if (area(poly) < 60) throw mc::Skip{}; }
            for (auto p : poly) g.add(p.x, p.y); g.add(poly[0].x, poly[0].y);
        }
        int proj = r.choose(2, "projection"), edit = r.choose(3, "earlier edit"); r.shard();
        if (proj && (sc == 1 || edit || (sc == 2 && mesh > 9))) throw mc::Skip{};
        if ((edit == 1 && mesh != 0 && mesh != 3) || (sc == 2 && mesh > 1 && mesh < 5)) throw mc::Skip{};
        if (!r.thorough() && !whole && poly.size() == 3 && (proj || edit)) throw mc::Skip{};
        SC = proj ? 1e-3 : 1; if (proj) { reset(); id = alloc(1); for (auto& x : g.x) x *= SC; for (auto& y : g.y) y *= SC; for (auto& p : poly) p = SC * p; }
        MeshIn mi = base(mesh); if (proj) for (auto& p : mi.n) p = SC * p;
        M2 a, b;
        for (int t = 0; t < 2; t++)
        { // the first of two equal states is read before, the second is refined without being read
            if (t == 0) id = alloc(proj);
            else { getM2(id, a); id = alloc(proj); }
            setMesh2(id, mi);
            if (mesh == 5) { std::vector<P> q{{7, 7}, {25, 7}, {25, 25}, {7, 25}, {7, 7}}; Geo h; for (auto p : q) h.add(SC * p.x, SC * p.y); r.check(api::mkernel_mesh2d_delete(id, h, 0, 0) == 0, "del", lastError()); }
            if (edit == 1) api::mkernel_mesh2d_delete_node(id, mesh == 0 ? 0 : 3);
            if (edit == 2) api::mkernel_mesh2d_move_node(id, mi.n[5].x, mi.n[5].y, 5);
        }
        std::string key = sc == 0 ? "refine" : sc == 1 ? "derefine" : "refine twice";
        auto once = [&]() -> int { return sc == 1 ? (whole ? api::mkernel_mesh2d_casulli_derefinement(id) : api::mkernel_mesh2d_casulli_derefinement_on_polygon(id, g)) : (whole ? api::mkernel_mesh2d_casulli_refinement(id) : api::mkernel_mesh2d_casulli_refinement_on_polygon(id, g)); };
        auto undo = [&](const M2& w, const char* what) { bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 v = w; canon(v); std::string dd = diff(v, o, 0); r.check(u && dd.empty(), "undo:" + key, std::string(what) + dd); };
        auto general = [&](const M2& m) { if (getenv("DUMP")) { for (int k = 0; k < m.nn(); k++) printf("n%d(%.6g,%.6g) ", k, m.nx[k], m.ny[k]); puts(""); for (int e = 0; e < m.ne(); e++) printf("%d-%d ", m.en[2*e], m.en[2*e+1]); puts(""); } std::string d = validateM2(m); r.check(d.empty(), "valid:" + key, d); r.check(ref::planar(m), "planar:" + key, "the mesh has crossing edges, coinciding nodes or nodes on edges"); if (!proj) { d = validateGeom(m); r.check(d.empty(), "geom:" + key, d); } };
        if (sc != 1)
        {
            for (int round = 0; round < (sc == 2 ? 2 : 1); round++)
            {
                if (round) getM2(id, a);
                int rc = once(); r.step(); r.check(rc == 0, "call:" + key, lastError()); r.check(getM2(id, b) == 0, "read:" + key, "cannot be read"); r.validated++;
                Want w; if (!predict(a, whole ? nullptr : &poly, b, w)) throw mc::Skip{};
                if (round)
                { // the centres have to be inside
                    bool ok = true; auto F = a.faces(); for (auto& f : F) { auto q = a.facePts(f); if (f.size() == 3) { for (int t = 0; t < 3; t++) { P u = q[t] - q[(t + 1) % 3], v = q[(t + 2) % 3] - q[(t + 1) % 3]; if (u.x * v.x + u.y * v.y < 0.01 * norm(u) * norm(v)) ok = false; } } }
                    if (!ok) throw mc::Skip{};
                }
                std::string d = compare(b, w); r.check(d.empty(), key, d); general(b); mc::Hash h; hash(h, b); r.state(h.h); r.outcome(b.nf());
                if (mesh != 5 && mesh < 10 && edit != 1) r.check(std::fabs(meshArea(a) - meshArea(b)) < 1e-7 * meshArea(a), "area:" + key, fmt("the area covered changed from %.12g to %.12g", meshArea(a), meshArea(b)));
            }
            undo(a, "undoing the refinement: ");
        }
        else
        {
            if (mesh == 1 || mesh == 4) throw mc::Skip{};
            Geo o = Geo::sized(a.nf()); int rc = whole ? api::mkernel_mesh2d_casulli_derefinement_elements(id, o) : api::mkernel_mesh2d_casulli_derefinement_elements_on_polygon(id, g, o); r.check(rc == 0, "elements:" + key, lastError());
            M2 c; getM2(id, c); std::string dd = diff(a, c, 0); r.check(dd.empty(), "elements change the mesh", dd);
            rc = once(); r.step(); r.check(rc == 0, "call:" + key, lastError()); r.check(getM2(id, b) == 0, "read:" + key, "cannot be read"); r.validated++;
            general(b); mc::Hash h; hash(h, b); r.state(h.h); r.outcome(b.nf());
            if (mesh != 5 && mesh < 10 && edit != 1) r.check(std::fabs(meshArea(a) - meshArea(b)) < 1e-7 * meshArea(a), "area:" + key, fmt("the area covered changed from %.12g to %.12g", meshArea(a), meshArea(b)));
            { // the cells announced do not touch each other; each becomes one node at its middle (that of its outline nodes, or its corner); all other nodes stay
                auto F = a.faces(); std::vector<int> el; std::vector<char> bnd(a.nn(), 0), used(a.nn(), 0); std::map<int, int> deg; for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) { for (int t = 0; t < 2; t++) { deg[a.en[2 * e + t]]++; if ((a.ef[2 * e] >= 0) + (a.ef[2 * e + 1] >= 0) == 1) bnd[a.en[2 * e + t]] = 1; } }
                for (int i = 0; i < o.g.num_coordinates; i++) { int hit = -1; for (size_t f = 0; f < F.size(); f++) if (dist(centroid(a.facePts(F[f])), P{o.x[i], o.y[i]}) < 1e-6) hit = (int)f; r.check(hit >= 0, "elements:" + key, fmt("(%g,%g) is not the centre of a cell", o.x[i], o.y[i])); el.push_back(hit); }
                if (mesh != 5 && edit != 1)
                {
                    for (int f : el) for (int i : F[f]) { r.check(!used[i], "elements:" + key, fmt("two of the cells to be removed share node %d", i)); used[i] = 1; }
                    if (whole) for (size_t f = 0; f < F.size(); f++) { bool touch = false; for (int i : F[f]) touch |= used[i]; r.check(touch, "elements:" + key, fmt("cell %zu does not touch a cell to be removed", f)); }
                }
                auto has = [&](const M2& m, P p) { for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && dist(m.node(i), p) < 1e-6) return true; return false; };
                auto sel = [&](int i) { return whole || pip(a.node(i), poly, 1e-9) >= 0; };
                std::vector<P> fresh;
                for (int f : el)
                {
                    P all{0, 0}, out{0, 0}; int nb = 0; bool in = true, inner = true; std::vector<P> cand; for (int i : F[f]) { in &= sel(i); all = all + a.node(i); if (bnd[i]) { inner = false; out = out + a.node(i); nb++; cand.push_back(a.node(i)); } }
                    fresh.push_back(1.0 / F[f].size() * all); if (nb) fresh.push_back(1.0 / nb * out); for (size_t i = 0; i < cand.size(); i++) { fresh.push_back(cand[i]); for (size_t j = 0; j < i; j++) fresh.push_back(0.5 * (cand[i] + cand[j])); }
                    if (in && inner) { P c = 1.0 / F[f].size() * all; r.check(has(b, c), key, fmt("no node in the middle (%g,%g) of a removed cell", c.x, c.y)); for (int i : F[f]) r.check(!has(b, a.node(i)), key, fmt("node %d of a removed cell is still there", i)); }
                }
                for (int i = 0; i < b.nn(); i++) if (b.nodeOk(i)) { bool ok = has(a, b.node(i)); for (auto p : fresh) ok |= dist(p, b.node(i)) < 1e-6; r.check(ok, key, fmt("a node at (%.9g,%.9g), which is not an old node nor the middle of a removed cell", b.nx[i], b.ny[i])); }
                for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i) && (!used[i] || !sel(i)) && !bnd[i] && mesh != 5 && edit != 1) r.check(has(b, a.node(i)), key, fmt("node %d, which belongs to no removed cell, has gone", i));
            }
            undo(a, "undoing the de-refinement: ");
        }
    }
}
MC_MAIN(body)
