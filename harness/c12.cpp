// C12: merging nodes by distance joins exactly the nodes that are close and redirects the edges.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    double metres(P a, P b, int proj)
    {
        if (!proj) return dist(a, b);
        const double R = 6378137.0, d2r = M_PI / 180; double lat = 0.5 * (a.y + b.y) * d2r; return std::hypot((a.x - b.x) * d2r * R * std::cos(lat), (a.y - b.y) * d2r * R);
    }
    // two or three meshes whose seam nodes are pulled apart: displacement codes per pair
    struct World { MeshIn m; std::vector<std::vector<int>> clusters; };
    void add(MeshIn& a, const MeshIn& b) { int n = (int)a.n.size(); a.n.insert(a.n.end(), b.n.begin(), b.n.end()); for (auto e : b.e) a.e.push_back({e[0] + n, e[1] + n}); }
    void examine(Run& r, const MeshIn& m, int proj, const Geo* poly, const std::vector<P>* ring, double d, bool automatic, int prior, const std::string& key)
    {
        reset(); int id = alloc(proj), sh = alloc(proj); M2 a; int e0 = -1; bool u; int uid;
        for (int s : {sh, id})
        {
            setMesh2(s, m);
            if (prior == 1) { api::mkernel_mesh2d_delete_edge_by_index(s, 1); }
            if (prior == 2) { api::mkernel_mesh2d_delete_node(s, (int)m.n.size() - 1); }
            if (prior == 3) { api::mkernel_mesh2d_merge_two_nodes(s, 0, 1); api::mkernel_undo_state(u, uid); }
        }
        (void)e0; getM2(sh, a); 
        std::vector<char> in(a.nn(), 0); for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i)) { if (!ring) in[i] = 1; else { int k = pip(a.node(i), *ring, 1e-9); if (k == 0) throw mc::Skip{}; in[i] = k > 0; } }
        if (automatic) { d = 1e30; for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e) && (in[a.en[2 * e]] || in[a.en[2 * e + 1]])) d = std::min(d, metres(a.node(a.en[2 * e]), a.node(a.en[2 * e + 1]), proj)); d = std::max(1e-6, 0.1 * d); }
        // groups of nodes linked by distances below d
        double tol = proj ? 0.01 : 1e-6; std::vector<int> g(a.nn()); for (int i = 0; i < a.nn(); i++) g[i] = i; auto find = [&](int i) { while (g[i] != i) i = g[i]; return i; };
        for (int i = 0; i < a.nn(); i++) for (int j = i + 1; j < a.nn(); j++) if (in[i] && in[j]) { double q = metres(a.node(i), a.node(j), proj); if (std::fabs(q - d) < tol * d) throw mc::Skip{}; if (q < d) g[find(j)] = find(i); }
        bool clear = true; for (int i = 0; i < a.nn(); i++) for (int j = i + 1; j < a.nn(); j++) if (in[i] && in[j] && find(i) == find(j) && metres(a.node(i), a.node(j), proj) > d) clear = false;
        Geo none; const Geo& pg = poly ? *poly : none;
        int rc = automatic ? api::mkernel_mesh2d_merge_nodes(id, pg) : api::mkernel_mesh2d_merge_nodes_with_merging_distance(id, pg, d); r.step();
        r.check(rc == 0, "call:" + key, "merging fails: " + lastError());
        M2 b; r.check(getM2(id, b) == 0, "read:" + key, "cannot be read"); r.validated++; mc::Hash h; hash(h, b); r.state(h.h); r.outcome(b.nvn);
        r.check(b.nn() == a.nn() && b.ne() == a.ne(), "numbering:" + key, "the numbering of nodes or edges changed");
        std::vector<int> rep(a.nn(), -1);
        for (int i = 0; i < a.nn(); i++)
        {
            r.checkf(!b.nodeOk(i) || (a.nodeOk(i) && b.nx[i] == a.nx[i] && b.ny[i] == a.ny[i]), "moved:" + key, [&] { return fmt("node %d was moved or revived", i); });
            if (b.nodeOk(i)) { rep[find(i)] = clear ? i : -1; }
            if (a.nodeOk(i) && !in[i]) r.checkf(b.nodeOk(i), "outside:" + key, [&] { return fmt("node %d outside the polygon is gone", i); });
        }
        std::vector<int> used(a.nn(), 0); for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) used[a.en[2 * e]] = used[a.en[2 * e + 1]] = 1;
        for (int i = 0; i < b.nn(); i++) for (int j = i + 1; j < b.nn(); j++) if (b.nodeOk(i) && b.nodeOk(j) && in[i] && in[j]) r.checkf(metres(b.node(i), b.node(j), proj) > d, "left:" + key, [&] { return fmt("nodes %d and %d are %g apart (%g) and were not merged", i, j, metres(b.node(i), b.node(j), proj), d); });
        std::set<std::pair<int, int>> eb; for (int e = 0; e < b.ne(); e++) if (b.edgeOk(e)) { int p = b.en[2 * e], q = b.en[2 * e + 1]; r.checkf(p != q && b.nodeOk(p) && b.nodeOk(q) && eb.insert(std::minmax(p, q)).second, "double:" + key, [&] { return fmt("edge %d (%d,%d) is a loop, doubled or at a deleted node", e, p, q); }); }
        // each group ends in a non-empty set of survivors
        std::vector<std::vector<int>> left(a.nn()); for (int i = 0; i < a.nn(); i++) if (b.nodeOk(i)) left[find(i)].push_back(i);
        std::vector<int> size(a.nn(), 0), conn(a.nn(), 0); for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i)) { size[find(i)]++; conn[find(i)] |= used[i]; }
        std::set<std::pair<int, int>> ge, gb; for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) { int p = find(a.en[2 * e]), q = find(a.en[2 * e + 1]); if (p != q) ge.insert(std::minmax(p, q)); }
        std::set<int> gconn; for (auto& x : ge) { gconn.insert(x.first); gconn.insert(x.second); }
        for (int i = 0; i < a.nn(); i++) if (find(i) == i && a.nodeOk(i) && gconn.count(i)) { r.checkf(!left[i].empty(), "lost:" + key, [&] { return fmt("all %d nodes of the group of node %d are gone", size[i], i); }); if (clear) r.checkf(left[i].size() == 1, "left:" + key, [&] { return fmt("%zu nodes of the group of node %d remain", left[i].size(), i); }); }
        for (auto& x : eb) { int p = find(x.first), q = find(x.second); if (p != q) gb.insert(std::minmax(p, q)); else if (clear) r.fail("inner:" + key, "an edge between merged nodes remains"); }
        r.checkf(gb == ge, "edges:" + key, [&] { return fmt("%zu connections between the groups of nodes became %zu", ge.size(), gb.size()); });
        // edges that have nothing to do with merged nodes are the same
        for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) { int p = a.en[2 * e], q = a.en[2 * e + 1]; if (size[find(p)] == 1 && size[find(q)] == 1) r.checkf(b.en[2 * e] == p && b.en[2 * e + 1] == q, "other:" + key, [&] { return fmt("edge %d changed without need", e); }); }
        api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 w = a; canon(w); std::string dd = diff(w, o, 0); r.check(u && dd.empty(), "undo:" + key, "undoing the merge: " + dd);
        api::mkernel_redo_state(u, uid); getM2(id, o); canon(o); canon(b); dd = diff(b, o, 0); r.check(u && dd.empty(), "redo:" + key, "redoing the merge: " + dd);
    }
    void body(Run& r)
    {
        int sc = r.choose(6, "scenario"), proj = r.choose(3, "projection"); double s = proj ? 0.001 : 1, big = proj ? 30 : 0.3; P off = proj ? P{4.2, 52.1} : P{0, 0};
        auto place = [&](MeshIn& m) { for (auto& p : m.n) p = off + s * p; };
        static const P D[6] = {{0, 0}, {0.06, 0.03}, {-0.03, 0.1}, {0.2, 0.05}, {0.9, 0}, {-0.5, -0.3}};
        if (sc == 0)
        { // two meshes along a seam of four nodes
            int c[4]; for (int& k : c) k = r.choose(5, "displacement"); int pol = r.choose(3, "polygon"), how = r.choose(3, "distance"), prior = r.choose(4, "edit before"), tri = r.choose(2, "shape"); if (!r.thorough() && prior && how != 1) throw mc::Skip{}; r.shard();
            MeshIn m = grid(2, 3, 10, 10), b = tri ? trigrid(2, 3, 10, 10, 20, 0, true) : grid(2, 3, 10, 10, 20, 0); for (auto& p : b.n) if (std::fabs(p.x - 20) < 1e-6) p = p + D[c[(int)std::lround(p.y / 10)]]; add(m, b);
            std::vector<P> ring = pol == 1 ? std::vector<P>{{15, -5}, {25, -5}, {25, 14}, {15, 14}} : std::vector<P>{{-5, 5}, {20.04, 5}, {20.04, 45}, {-5, 45}}; for (auto& p : ring) p = off + s * p; Geo g(ring); g.add(ring[0].x, ring[0].y);
            place(m); examine(r, m, proj, pol ? &g : nullptr, pol ? &ring : nullptr, how == 0 ? 0.15 * (proj ? 100 : 1) : how == 1 ? big : 0, how == 2, prior, fmt("seam%s%s", pol ? ";polygon" : "", how == 2 ? ";automatic" : ""));
        }
        else if (sc == 1)
        { // four meshes around one corner
            int c[4]; for (int& k : c) k = r.choose(6, "displacement"); int how = r.choose(2, "distance"); r.shard();
            MeshIn m; for (int k = 0; k < 4; k++) { double ox = k % 2 ? 0 : -10, oy = k / 2 ? 0 : -10; MeshIn q = grid(1, 1, 10, 10, ox, oy); for (auto& p : q.n) { if (std::fabs(p.x) < 1e-6 && std::fabs(p.y) < 1e-6) p = p + D[c[k]]; else p = {p.x * (1 + 0.2 * k), p.y * (1 + 0.1 * k)}; } add(m, q); }
            place(m); examine(r, m, proj, nullptr, nullptr, big, how == 1, 0, "corner");
        }
        else if (sc == 2)
        { // edges and triangles within one mesh that collapse: every subset of short edges
            int mask = r.choose(256, "contracted"), shape = r.choose(2, "shape"), prior = r.choose(2, "edit before"); r.shard();
            MeshIn m = shape ? trigrid(3, 2, 10, 10, 0, 0, true) : grid(3, 2, 10, 10); for (int k = 0; k < 8; k++) if (mask >> k & 1) { int i = k < 4 ? k : 4 + k, to = k < 4 ? 4 + k : 4 + (k - 4); m.n[i] = m.n[to] + 0.01 * (m.n[i] - m.n[to]); }
            place(m); examine(r, m, proj, nullptr, nullptr, big, false, prior ? 1 : 0, "contracted");
        }
        else if (sc == 3)
        { // nodes with many edges: two stars
            int p = 3 + r.choose(12, "first star"), q = 3 + r.choose(12, "second star"), common = r.choose(4, "common"); r.shard(); if (proj) throw mc::Skip{};
            MeshIn m; m.n = {{0, 0}, {0.05, 0.02}}; for (int k = 0; k < p; k++) { m.n.push_back({10 * std::cos(0.2 * k), 10 * std::sin(0.2 * k)}); m.e.push_back({0, (int)m.n.size() - 1}); } for (int k = 0; k < q; k++) { if (k < common && k < p) m.e.push_back({1, 2 + k}); else { m.n.push_back({12 * std::cos(3.3 + 0.2 * k), 12 * std::sin(3.3 + 0.2 * k)}); m.e.push_back({1, (int)m.n.size() - 1}); } }
            examine(r, m, 0, nullptr, nullptr, big, false, 0, "stars");
        }
        else if (sc == 5)
        { // the shortest edge is inside, outside or across the border of the polygon, in either direction
            int where = r.choose(4, "short edge"), len = r.choose(4, "length"), gap = r.choose(5, "gap"), flip = r.choose(2, "edge direction"), prior = r.choose(3, "edit before"); r.shard(); static const double LEN[] = {0.4, 1.5, 4, 9}, GAP[] = {0.02, 0.1, 0.3, 0.6, 0.95};
            MeshIn m = grid(4, 1, 10, 10); double L = LEN[len]; // the edge from (10,0) to (20,0) crosses the border at x = 15.3
            for (auto& p : m.n) { bool low = p.y < 1; if (where == 0 && low && p.x == 10) p = {15.3 - 0.6 * L, 0}; if (where == 0 && low && p.x == 20) p = {15.3 + 0.4 * L, 0}; if (where == 1 && low && p.x == 40) p = {30 + L, 0}; if (where == 2 && low && p.x == 0) p = {10 - L, 0}; }
            MeshIn q = grid(1, 1, 10, 10, 30, 10); for (auto& p : q.n) { if (std::fabs(p.x - 30) < 1e-6 && std::fabs(p.y - 10) < 1e-6) p = p + P{0.6 * GAP[gap], 0.8 * GAP[gap]}; else p = p + P{0.3, 9}; } add(m, q); if (flip) for (auto& e : m.e) std::swap(e[0], e[1]);
            std::vector<P> ring{{15.3, -5}, {55, -6}, {56, 44}, {15.3, 45}}; for (auto& p : ring) p = off + s * p; Geo g(ring); g.add(ring[0].x, ring[0].y); place(m); examine(r, m, proj, &g, &ring, 0, true, prior, "shortest");
        }
        else
        { // distances: merging happens below the distance only
            int k = r.choose(12, "ratio"), dir = r.choose(8, "direction"); r.shard(); double d = proj ? 50 : 0.5, f = 0.5 + 0.08 * k; MeshIn m = grid(1, 1, 10, 10), b = grid(1, 1, 10, 10, 10, 0); add(m, b); place(m);
            double ang = dir * M_PI / 4 + 0.1; double lat = 52.1 * M_PI / 180; P v = proj ? P{d * f * std::cos(ang) / (6378137.0 * M_PI / 180 * std::cos(lat)), d * f * std::sin(ang) / (6378137.0 * M_PI / 180)} : P{d * f * std::cos(ang), d * f * std::sin(ang)};
            for (size_t i = 0; i < m.n.size(); i++) if (i >= 4) m.n[i] = m.n[i] + v;
            examine(r, m, proj, nullptr, nullptr, d, false, 0, "ratio");
        }
    }
}
MC_MAIN(body)
