// C08: the elementary edits do exactly what they name, alone and in sequence.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    const double DEG = 3.14159265358979323846 / 180;
    struct World
    {
        int id, proj; ref::Mesh w; bool read = true; bool edgeNumbersKnown = true; int lastNode = -1; std::set<int> loose;
    };
    void syncLoose(World& s) { s.loose.clear(); std::vector<char> u(s.w.n.size(), 0); for (auto& x : s.w.e) if (x[0] >= 0) u[x[0]] = u[x[1]] = 1; for (size_t i = 0; i < u.size(); i++) if (!u[i]) s.loose.insert((int)i); }
    bool has(const World& s, int a, int b) { return s.w.edgeSet().count(std::minmax({a, b})) > 0; }
    struct Op { std::string name; std::function<std::string(Run&, World&)> f; };
    // every op returns "" or what is wrong
    std::string doDelNode(World& s, int i)
    {
        int rc = api::mkernel_mesh2d_delete_node(s.id, i); bool ok = s.w.ok(i);
        if (ok && rc && !s.loose.count(i)) return "deleting an existing node fails: " + lastError();
        if (ok) s.w.delNode(i);
        syncLoose(s); return "";
    }
    std::string doDelEdge(World& s, int k)
    {
        if (!s.edgeNumbersKnown) throw mc::Skip{};
        int rc = api::mkernel_mesh2d_delete_edge_by_index(s.id, k);
        if (s.w.eok(k)) { if (rc) return "deleting an existing edge fails: " + lastError(); s.w.delEdge(k); }
        syncLoose(s); return "";
    }
    std::string doDelEdgeAt(World& s, P p, double x0, double y0, double x1, double y1)
    {
        double b1 = 1e300, b2 = 1e300; int best = -1;
        for (size_t k = 0; k < s.w.e.size(); k++) if (s.w.eok((int)k))
        {
            P c = 0.5 * (s.w.n[s.w.e[k][0]] + s.w.n[s.w.e[k][1]]); if (c.x < x0 || c.x > x1 || c.y < y0 || c.y > y1) continue;
            double d = dist(c, p); if (d < b1) { b2 = b1; b1 = d; best = (int)k; } else b2 = std::min(b2, d);
        }
        if (best >= 0 && b2 - b1 < 1e-6 * (1 + b1)) throw mc::Skip{};
        int rc = api::mkernel_mesh2d_delete_edge(s.id, p.x, p.y, x0, y0, x1, y1);
        if (best < 0) return "";
        if (rc) return "deleting the closest edge fails: " + lastError();
        s.w.delEdge(best); syncLoose(s); return "";
    }
    std::string doMerge(World& s, int a, int b)
    {
        bool ok = s.w.ok(a) && s.w.ok(b); bool lo = s.loose.count(a) || s.loose.count(b);
        int rc = api::mkernel_mesh2d_merge_two_nodes(s.id, a, b);
        if (!ok) return rc ? "" : "merging with a node that does not exist succeeds";
        if (rc) return lo ? "" : "merging two nodes fails: " + lastError();
        if (lo) throw mc::Skip{};
        s.w.merge(a, b); s.edgeNumbersKnown = false; syncLoose(s); return "";
    }
    std::string doInsEdge(World& s, int a, int b)
    {
        if (!s.w.ok(a) || !s.w.ok(b) || has(s, a, b) || a == b) throw mc::Skip{};
        int e = -7, rc = api::mkernel_mesh2d_insert_edge(s.id, a, b, e); bool lo = s.loose.count(a) || s.loose.count(b);
        if (rc) return lo ? "" : "inserting an edge fails: " + lastError();
        if (lo) throw mc::Skip{};
        if (e < 0) return fmt("inserted edge got index %d", e);
        if (s.edgeNumbersKnown && s.w.eok(e)) return fmt("inserted edge got the index %d of an existing edge", e);
        if (e >= (int)s.w.e.size()) s.w.e.resize(e + 1, {-1, -1});
        if (s.w.eok(e)) s.w.e.push_back({a, b}); else s.w.e[e] = {a, b};
        syncLoose(s); return "";
    }
    void placeNode(World& s, int n, P p) { if (n >= (int)s.w.n.size()) s.w.n.resize(n + 1, {MISS, MISS}); s.w.n[n] = p; }
    // a node with an edge to an existing node
    std::string doInsNode(World& s, P p, int to)
    {
        if (!s.w.ok(to) || s.loose.count(to)) throw mc::Skip{};
        int n = -7, rc = api::mkernel_mesh2d_insert_node(s.id, p.x, p.y, n); if (rc) return "inserting a node fails: " + lastError();
        if (n < 0 || s.w.ok(n)) return fmt("inserted node got the index %d of an existing node", n);
        placeNode(s, n, p); s.lastNode = n;
        int e = -7; rc = api::mkernel_mesh2d_insert_edge(s.id, n, to, e); if (rc) return "connecting a new node fails: " + lastError();
        if (s.edgeNumbersKnown && (e < 0 || s.w.eok(e))) return fmt("new edge got the index %d of an existing edge", e);
        if (e >= (int)s.w.e.size()) s.w.e.resize(e + 1, {-1, -1});
        if (s.w.eok(e)) s.w.e.push_back({n, to}); else s.w.e[e] = {n, to};
        syncLoose(s); return "";
    }
    std::string doInsCoord(World& s, P p, P q)
    {
        double L = dist(p, q); for (auto& x : s.w.e) if (x[0] >= 0) L = std::min(L, dist(s.w.n[x[0]], s.w.n[x[1]]));
        double rad = 0.01 * L;
        auto find = [&](P c) { int b = -1; double d = 1e300; for (size_t i = 0; i < s.w.n.size(); i++) if (s.w.ok((int)i) && !s.loose.count((int)i)) { double v = dist(s.w.n[i], c); if (v < d) { d = v; b = (int)i; } } if (d > 0.9 * rad && d < 1.1 * rad) throw mc::Skip{}; return d < rad ? b : -1; };
        for (int i : s.loose) if (s.w.ok(i) && (dist(s.w.n[i], p) < 2 * rad || dist(s.w.n[i], q) < 2 * rad)) throw mc::Skip{};
        int wa = find(p), wb = find(q); int a = -7, b = -7, e = -7;
        int rc = api::mkernel_mesh2d_insert_edge_from_coordinates(s.id, p.x, p.y, q.x, q.y, a, b, e);
        if (rc) return "inserting an edge from coordinates fails: " + lastError();
        if (wa >= 0 ? a != wa : (a < 0 || s.w.ok(a))) return fmt("first node of the new edge is %d, expected %d", a, wa);
        if (wb >= 0 ? b != wb : (b < 0 || s.w.ok(b) || b == a)) return fmt("second node of the new edge is %d, expected %d", b, wb);
        if (wa < 0) placeNode(s, a, p);
        if (wb < 0) placeNode(s, b, q);
        if (has(s, a, b)) { if (s.edgeNumbersKnown && e != -1 && !(s.w.eok(e) && std::minmax({s.w.e[e][0], s.w.e[e][1]}) == std::minmax({a, b}))) return fmt("the existing edge is not reported, but %d", e); }
        else
        {
            if (e < 0 || (s.edgeNumbersKnown && s.w.eok(e))) return fmt("new edge got the index %d of an existing edge", e);
            if (e >= (int)s.w.e.size()) s.w.e.resize(e + 1, {-1, -1});
            if (s.w.eok(e)) s.w.e.push_back({a, b}); else s.w.e[e] = {a, b};
        }
        syncLoose(s); return "";
    }
    std::string doMove(World& s, int i, P t)
    {
        bool ok = s.w.ok(i); int rc = api::mkernel_mesh2d_move_node(s.id, t.x, t.y, i);
        if (!ok) return rc ? "" : "a node that does not exist can be moved";
        if (rc) return s.loose.count(i) ? "" : "moving a node fails: " + lastError();
        if (s.loose.count(i)) throw mc::Skip{};
        auto met = [&](P a, P b) { if (!s.proj) return dist(a, b); double c = std::cos(0.5 * (a.y + b.y) * DEG); return std::hypot((a.x - b.x) * c, a.y - b.y); };
        P o = s.w.n[i], d = t - o; double D = met(t, o);
        for (size_t k = 0; k < s.w.n.size(); k++) if (s.w.ok((int)k))
        {
            double v = met(s.w.n[k], o); if ((int)k == i) { s.w.n[k] = t; continue; }
            if (D == 0 || v >= D) continue;
            s.w.n[k] = s.w.n[k] + 0.5 * (1 + std::cos(v / D * 180 * DEG)) * d;
        }
        return "";
    }
    std::string doHang(World& s)
    {
        std::vector<int> deg(s.w.n.size(), 0); for (auto& x : s.w.e) if (x[0] >= 0) { deg[x[0]]++; deg[x[1]]++; }
        int rc = api::mkernel_mesh2d_delete_hanging_edges(s.id); if (rc) return "deleting hanging edges fails: " + lastError();
        for (auto& x : s.w.e) if (x[0] >= 0 && (deg[x[0]] == 1 || deg[x[1]] == 1)) x = {-1, -1};
        syncLoose(s); return "";
    }
    std::string doTranslate(World& s, P d) { if (api::mkernel_mesh2d_translate(s.id, d.x, d.y)) return "translating fails"; for (auto& p : s.w.n) if (valid(p)) p = p + d; return ""; }
    std::string doRotate(World& s, P c, double a)
    {
        if (api::mkernel_mesh2d_rotate(s.id, c.x, c.y, a)) return "rotating fails";
        for (auto& p : s.w.n) if (valid(p)) { P v = p - c; p = c + P{v.x * std::cos(a * DEG) - v.y * std::sin(a * DEG), v.x * std::sin(a * DEG) + v.y * std::cos(a * DEG)}; } return "";
    }
    MeshIn base(int k)
    {
        static const double jx[9] = {0.3, -0.7, 0.4, 0.9, -0.2, 0.6, -0.5, 0.1, -0.8}, jy[9] = {0.2, 0.8, -0.6, -0.3, 0.7, 0.5, -0.9, 0.4, -0.1};
        MeshIn m = k == 1 ? trigrid(2, 2, 10, 10, 0, 0, true) : grid(2, 2, 10, 10); for (int i = 0; i < 9; i++) m.n[i] = m.n[i] + P{jx[i], jy[i]};
        if (k == 2) { std::vector<int> p = {4, 7, 1, 8, 3, 0, 6, 2, 5}; MeshIn q = m; for (int i = 0; i < 9; i++) q.n[p[i]] = m.n[i]; std::reverse(q.e.begin(), q.e.end()); for (auto& x : q.e) x = {p[x[1]], p[x[0]]}; m = q; }
        return m;
    }
    std::vector<Op> alphabet(const MeshIn& m, bool cart, int size)
    {
        std::vector<Op> v; int N = (int)m.n.size(), E = (int)m.e.size(); std::set<std::pair<int, int>> es; for (auto& x : m.e) es.insert(std::minmax({x[0], x[1]}));
        auto add = [&](std::string n, std::function<std::string(Run&, World&)> f) { v.push_back({std::move(n), std::move(f)}); };
        bool full = size == 2, mid = size == 1;
        for (int i = 0; i < N; i++) if (full || i == 4 || (mid && i % 4 == 0)) add(fmt("delete_node %d", i), [i](Run&, World& s) { return doDelNode(s, i); });
        add("delete_node last", [](Run&, World& s) { if (s.lastNode < 0) throw mc::Skip{}; return doDelNode(s, s.lastNode); });
        for (int k = 0; k < E; k++) if (full || k == 0 || (mid && k % 5 == 0)) add(fmt("delete_edge_by_index %d", k), [k](Run&, World& s) { return doDelEdge(s, k); });
        for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (a != b && (full || (a == 4 && b == 1) || (a == 0 && b == 8) || (mid && (a * 7 + b * 5) % 13 == 0))) add(fmt("merge_two_nodes %d %d", a, b), [a, b](Run&, World& s) { return doMerge(s, a, b); });
        for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) if (a != b && (full ? (a < b) != ((a + b) % 3 == 0) : mid ? (a * 5 + b) % 11 == 0 : (a == 0 && b == 4)) && !es.count(std::minmax({a, b}))) add(fmt("insert_edge %d %d", a, b), [a, b](Run&, World& s) { return doInsEdge(s, a, b); });
        if (!full) add("insert_edge again", [m](Run&, World& s) { return doInsEdge(s, m.e[0][1], m.e[0][0]); });
        else for (int k = 0; k < E; k += 2) add(fmt("insert_edge again %d", k), [m, k](Run&, World& s) { return doInsEdge(s, m.e[k][1], m.e[k][0]); });
        if (full || mid) { add("insert_node", [](Run&, World& s) { return doInsNode(s, {33, 12}, 5); }); }
        add("insert_node 0", [](Run&, World& s) { return doInsNode(s, {-8, 27}, 0); });
        if (!cart)
        {
            for (int i = 0; i < N; i++) { add(fmt("move_node small %d", i), [i, m](Run&, World& s) { return doMove(s, i, m.n[i] + P{0.1, -0.2}); }); if (i % 3 == 0) add(fmt("move_node %d", i), [i, m](Run&, World& s) { return doMove(s, i, m.n[i] + P{1.3, 0.4}); }); }
            return v;
        }
        add("delete_edge at", [](Run&, World& s) { return doDelEdgeAt(s, {6, 11}, -1e3, -1e3, 1e3, 1e3); });
        if (full || mid) { add("delete_edge at 2", [](Run&, World& s) { return doDelEdgeAt(s, {19, 3}, -1e3, -1e3, 1e3, 1e3); }); add("delete_edge at box", [](Run&, World& s) { return doDelEdgeAt(s, {2, 3}, 12.3, -100, 100, 100); }); add("delete_edge at box 2", [](Run&, World& s) { return doDelEdgeAt(s, {19, 3}, -100, 11.1, 100, 100); }); }
        add("insert_edge_from_coordinates near", [m](Run&, World& s) { return doInsCoord(s, m.n[0] + P{0.03, -0.02}, {-12, 4}); });
        add("insert_edge_from_coordinates existing", [m](Run&, World& s) { return doInsCoord(s, m.n[m.e[1][0]], m.n[m.e[1][1]]); });
        if (full || mid) { add("insert_edge_from_coordinates new", [](Run&, World& s) { return doInsCoord(s, {33, 33}, {41, 30}); }); add("insert_edge_from_coordinates diagonal", [m](Run&, World& s) { return doInsCoord(s, m.n[0], m.n[8]); }); add("insert_edge_from_coordinates not near", [m](Run&, World& s) { return doInsCoord(s, {-7, -7}, m.n[2] + P{0.4, 0.4}); }); }
        for (int i = 0; i < N; i++)
        {
            if (full || i == 4) add(fmt("move_node %d", i), [i, m](Run&, World& s) { return doMove(s, i, m.n[i] + P{11.5, 3}); });
            if (full || (mid && i == 0)) add(fmt("move_node small %d", i), [i, m](Run&, World& s) { return doMove(s, i, m.n[i] + P{-1, 2}); });
        }
        if (full || mid) { add("move_node nowhere", [](Run&, World& s) { if (!s.w.ok(3)) throw mc::Skip{}; return doMove(s, 3, s.w.n[3]); }); add("move_node last", [](Run&, World& s) { if (s.lastNode < 0) throw mc::Skip{}; return doMove(s, s.lastNode, {40, 17}); }); }
        add("delete_hanging_edges", [](Run&, World& s) { return doHang(s); });
        if (full || mid) add("translate", [](Run&, World& s) { return doTranslate(s, {5.5, -3.25}); });
        add("rotate", [](Run&, World& s) { return doRotate(s, {1, 2}, 30); });
        return v;
    }
    void look(Run& r, World& s, const std::string& key)
    {
        M2 m; r.check(getM2(s.id, m) == 0, "read:" + key, "the mesh cannot be read: " + lastError()); r.validated++;
        ref::Mesh w = s.w; w.read(); std::string d = ref::diff(w, m, 1e-9); r.check(d.empty(), "content:" + key, d);
        d = !ref::planar(m) ? "" : ref::sane(m, s.proj == 0); r.check(d.empty(), "consistent:" + key, d);
        if (s.edgeNumbersKnown) for (size_t k = 0; k < s.w.e.size(); k++) if (s.w.eok((int)k)) r.check((int)k < m.ne() && std::minmax({m.en[2 * k], m.en[2 * k + 1]}) == std::minmax({s.w.e[k][0], s.w.e[k][1]}), "numbering:" + key, fmt("edge %zu is no longer (%d,%d)", k, s.w.e[k][0], s.w.e[k][1]));
        s.w = ref::Mesh::from(m); s.edgeNumbersKnown = true; syncLoose(s); mc::Hash h; hash(h, m); r.state(h.h); r.outcome(m.nve * 100 + m.nf());
    }
    void body(Run& r)
    {
        int sc = r.choose(4, "scenario"); int mesh = r.choose(3, "mesh"); bool readEach = r.flag("read after each call");
        World s; s.proj = sc == 3 ? 1 : 0; int depth = sc == 0 ? 2 : sc == 1 ? 3 : sc == 2 ? (r.thorough() ? 5 : 4) : 2; int size = sc == 0 ? 2 : sc == 1 ? 1 : sc == 2 ? 0 : 2;
        if (sc == 3 && mesh) throw mc::Skip{};
        MeshIn m = base(mesh); if (s.proj) for (auto& p : m.n) p = 0.1 * p;
        auto A = alphabet(m, s.proj == 0, size);
        int first = r.choose((int)A.size(), "call"); int second = depth > 1 ? r.choose((int)A.size(), "call") : 0; r.shard();
        reset(); s.id = alloc(s.proj); setMesh2(s.id, m); s.w = ref::Mesh::from(m);
        std::string key;
        for (int k = 0; k < depth; k++)
        {
            int c = k == 0 ? first : k == 1 ? second : r.choose((int)A.size(), "call"); r.note(A[c].name); key = A[c].name.substr(0, A[c].name.find(' '));
            std::string d = A[c].f(r, s); r.step(); r.check(d.empty(), "call:" + key, d);
            if (readEach || k + 1 == depth) look(r, s, key);
        }
    }
}
MC_MAIN(body)
