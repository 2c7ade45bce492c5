// Reference mesh semantics, written from definitions.
#pragma once
#include "mk.hpp"
namespace ref
{
    using namespace mk;
    inline double orient(P a, P b, P c) { return cross(b - a, c - a); }
    // true when the segments meet anywhere except in a shared end point
    inline bool segmentsConflict(P a, P b, P c, P d, bool shareA, double tol)
    {
        (void)shareA;
        double o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
        double la = dist(a, b), lb = dist(c, d);
        if (((o1 > tol * la && o2 < -tol * la) || (o1 < -tol * la && o2 > tol * la)) && ((o3 > tol * lb && o4 < -tol * lb) || (o3 < -tol * lb && o4 > tol * lb))) return true;
        return false;
    }
    // A straight-line drawing: no coinciding nodes, no node on the inside of an edge, no crossing edges.
    inline bool planar(const M2& m, double tol = 1e-7)
    {
        std::vector<int> N, E;
        std::vector<char> used(m.nn(), 0);
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { E.push_back(e); if (!m.nodeOk(m.en[2 * e]) || !m.nodeOk(m.en[2 * e + 1])) return false; used[m.en[2 * e]] = used[m.en[2 * e + 1]] = 1; }
        for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i)) { if (!std::isfinite(m.nx[i]) || !std::isfinite(m.ny[i])) return false; N.push_back(i); }
        for (size_t i = 0; i < N.size(); i++) for (size_t j = i + 1; j < N.size(); j++) if (std::fabs(m.nx[N[i]] - m.nx[N[j]]) < tol && dist(m.node(N[i]), m.node(N[j])) < tol) return false;
        for (int e : E) { P a = m.node(m.en[2 * e]), b = m.node(m.en[2 * e + 1]); for (int n : N) if (used[n] && n != m.en[2 * e] && n != m.en[2 * e + 1]) { P p = m.node(n); if (p.x < std::min(a.x, b.x) - tol || p.x > std::max(a.x, b.x) + tol || p.y < std::min(a.y, b.y) - tol || p.y > std::max(a.y, b.y) + tol) continue; if (segDist(p, a, b) < tol) return false; } }
        for (size_t i = 0; i < E.size(); i++) for (size_t j = i + 1; j < E.size(); j++)
        {
            P a = m.node(m.en[2 * E[i]]), b = m.node(m.en[2 * E[i] + 1]), c = m.node(m.en[2 * E[j]]), d = m.node(m.en[2 * E[j] + 1]);
            if (std::max(a.x, b.x) < std::min(c.x, d.x) || std::max(c.x, d.x) < std::min(a.x, b.x) || std::max(a.y, b.y) < std::min(c.y, d.y) || std::max(c.y, d.y) < std::min(a.y, b.y)) continue;
            if (segmentsConflict(a, b, c, d, false, tol)) return false;
        }
        return true;
    }
    // bounded cells of the planar edge graph, as counter-clockwise node cycles without repeated nodes
    inline std::vector<std::vector<int>> cells(const M2& m)
    {
        std::vector<std::vector<std::pair<double, int>>> adj(m.nn());
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e))
        {
            int a = m.en[2 * e], b = m.en[2 * e + 1]; P d = m.node(b) - m.node(a);
            adj[a].push_back({std::atan2(d.y, d.x), b}); adj[b].push_back({std::atan2(-d.y, -d.x), a});
        }
        for (auto& v : adj) std::sort(v.begin(), v.end());
        std::set<std::pair<int, int>> done; std::vector<std::vector<int>> r;
        for (int a = 0; a < m.nn(); a++) for (auto& ab : adj[a])
        {
            int u = a, v = ab.second; if (done.count({u, v})) continue;
            std::vector<int> cyc;
            while (done.insert({u, v}).second)
            {
                cyc.push_back(u);
                auto& L = adj[v]; size_t k = 0; while (k < L.size() && L[k].second != u) k++;
                int w = L[(k + L.size() - 1) % L.size()].second; u = v; v = w;
            }
            if (cyc.size() < 3) continue;
            std::set<int> s(cyc.begin(), cyc.end()); if (s.size() != cyc.size()) continue;
            if (area(m.facePts(cyc)) > 1e-12) r.push_back(cyc);
        }
        return r;
    }

    // The mesh as its users think of it: numbered nodes, a list of edges.
    struct Mesh
    {
        std::vector<P> n;                       // deleted: MISS
        std::vector<std::array<int, 2>> e;      // deleted: {-1,-1}
        static Mesh from(const MeshIn& m) { return {m.n, m.e}; }
        static Mesh from(const M2& m) { Mesh r; for (int i = 0; i < m.nn(); i++) r.n.push_back(m.nodeOk(i) ? m.node(i) : P{MISS, MISS}); for (int i = 0; i < m.ne(); i++) if (m.edgeOk(i)) r.e.push_back({m.en[2 * i], m.en[2 * i + 1]}); else r.e.push_back({-1, -1}); return r; }
        bool ok(int i) const { return i >= 0 && i < (int)n.size() && valid(n[i]); }
        bool eok(int i) const { return i >= 0 && i < (int)e.size() && e[i][0] >= 0; }
        void delEdge(int k) { e[k] = {-1, -1}; }
        void delNode(int k) { n[k] = {MISS, MISS}; for (auto& x : e) if (x[0] == k || x[1] == k) x = {-1, -1}; }
        // reading the mesh drops unconnected nodes
        void read() { std::vector<char> u(n.size(), 0); for (auto& x : e) if (x[0] >= 0) u[x[0]] = u[x[1]] = 1; for (size_t i = 0; i < n.size(); i++) if (!u[i]) n[i] = {MISS, MISS}; }
        void merge(int a, int b)
        {
            if (a == b) return;
            for (auto& x : e) { if (x[0] < 0) continue; if (x[0] == a) x[0] = b; if (x[1] == a) x[1] = b; if (x[0] == x[1]) x = {-1, -1}; }
            std::set<std::pair<int, int>> s; for (auto& x : e) if (x[0] >= 0 && !s.insert({std::min(x[0], x[1]), std::max(x[0], x[1])}).second) x = {-1, -1};
            n[a] = {MISS, MISS};
        }
        std::set<std::pair<int, int>> edgeSet() const { std::set<std::pair<int, int>> s; for (auto& x : e) if (x[0] >= 0) s.insert({std::min(x[0], x[1]), std::max(x[0], x[1])}); return s; }
    };
    inline std::string diff(const Mesh& w, const M2& g, double tol = 1e-9)
    {
        size_t N = std::max(w.n.size(), (size_t)g.nn());
        for (size_t i = 0; i < N; i++)
        {
            bool a = w.ok((int)i), b = g.nodeOk((int)i);
            if (a != b) return fmt("node %zu is %s, expected %s", i, b ? "present" : "absent", a ? "present" : "absent");
            if (a && !(std::fabs(w.n[i].x - g.nx[i]) <= tol * std::max(1.0, std::fabs(w.n[i].x)) && std::fabs(w.n[i].y - g.ny[i]) <= tol * std::max(1.0, std::fabs(w.n[i].y)))) return fmt("node %zu at (%.12g,%.12g), expected (%.12g,%.12g)", i, g.nx[i], g.ny[i], w.n[i].x, w.n[i].y);
        }
        auto ws = w.edgeSet(), gs = Mesh::from(g).edgeSet();
        for (auto& x : ws) if (!gs.count(x)) return fmt("edge (%d,%d) is missing", x.first, x.second);
        for (auto& x : gs) if (!ws.count(x)) return fmt("unexpected edge (%d,%d)", x.first, x.second);
        return "";
    }
    // everything that must hold for any observed mesh; geometry only where the drawing is a proper one
    inline std::string sane(const M2& m, bool cartesian, bool* wasPlanar = nullptr)
    {
        std::string d = validateM2(m); if (!d.empty()) return d;
        bool p = cartesian && planar(m); if (wasPlanar) *wasPlanar = p;
        if (!cartesian)
        { // the centre of a face is among its nodes, that of an edge half way
            auto F = m.faces();
            for (int f = 0; f < m.nf(); f++) { auto q0 = m.facePts(F[f]); bool convex = true; for (size_t i = 0; i < q0.size(); i++) if (orient(q0[i], q0[(i + 1) % q0.size()], q0[(i + 2) % q0.size()]) < 0) convex = false; if (!convex) continue; double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto q : m.facePts(F[f])) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); } double sx = 0.02 * (x1 - x0), sy = 0.02 * (y1 - y0); if (x1 - x0 < 90 && y0 > -85 && y1 < 85 && !(m.fx[f] >= x0 - sx && m.fx[f] <= x1 + sx && m.fy[f] >= y0 - sy && m.fy[f] <= y1 + sy)) return fmt("face %d has its centre (%g,%g) outside %g..%g x %g..%g", f, m.fx[f], m.fy[f], x0, x1, y0, y1); }
        }
        if (!p) return "";
        return validateGeom(m);
    }
}
