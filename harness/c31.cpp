// C31: small triangles on the outline are merged away, and nothing else changes.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    struct Corner { int kind = 0; int k0 = -1, k1 = -1, k2 = -1; double ratio = 0; };
    void body(Run& r)
    {
        // what is at each corner of a mesh of 4 x 4 cells: 0 a cell, 1-4 a right triangle with its longest side on the outline,
        // 5 a cell of which a triangle is cut off (longest side inside), 6 a triangle between triangles, 7 between a triangle and a cell
        Corner c[4]; static const double LA[8] = {0, 2, 2.5, 7, 3, 2, 2, 2}, LB[8] = {0, 2, 8, 7, 5, 2, 2.5, 3.5};
        for (int k = 0; k < 4; k++) c[k].kind = r.choose(8, "corner");
        static const double T[7] = {0, 0.015, 0.03, 0.09, 0.2, 0.45, 2}; double th = T[r.choose(7, "fraction")]; int numb = r.choose(3, "numbering"), proj = r.choose(2, "projection"), edit = r.choose(3, "history"); r.shard();
        if (!r.thorough() && (c[0].kind + 3 * c[1].kind + 5 * c[2].kind + 2 * c[3].kind + numb) % 6) throw mc::Skip{};
        if ((edit || proj) && (c[2].kind || c[3].kind > 2)) throw mc::Skip{};
        MeshIn m = grid(4, 4, 10, 10); auto has = [&](int a, int b) { for (size_t e = 0; e < m.e.size(); e++) if ((m.e[e][0] == a && m.e[e][1] == b) || (m.e[e][0] == b && m.e[e][1] == a)) return (int)e; return -1; };
        auto drop = [&](int a, int b) { m.e.erase(m.e.begin() + has(a, b)); };
        for (int k = 0; k < 4; k++)
        {
            int dx = k & 1 ? 1 : -1, dy = k & 2 ? 1 : -1, ci = k & 1 ? 4 : 0, cj = k & 2 ? 4 : 0; auto at = [&](int i, int j) { return (cj - dy * j) * 5 + ci - dx * i; }; // counted from the corner inwards
            int kind = c[k].kind; double a = LA[kind], b = LB[kind]; if (!kind) continue; int corner = at(0, 0), A = at(0, 1), B = at(1, 0), O = at(1, 1); // A below, B beside, O the inner node
            if (kind == 5)
            { // the corner triangle of a full cell
                int n = (int)m.n.size(); P q = m.n[corner]; m.n.push_back({q.x - dx * a, q.y}); m.n.push_back({q.x, q.y - dy * b}); drop(corner, A); drop(corner, B); m.e.push_back({corner, n}); m.e.push_back({n, B}); m.e.push_back({corner, n + 1}); m.e.push_back({n + 1, A}); m.e.push_back({n, n + 1}); continue;
            }
            // A and B move towards O, the corner goes
            P o = m.n[O]; m.n[A] = {o.x + dx * a, o.y}; m.n[B] = {o.x, o.y + dy * b}; drop(corner, A); drop(corner, B); m.e.push_back({A, B}); c[k].k0 = A; c[k].k1 = O; c[k].k2 = B;
            if (kind >= 6) m.e.push_back({O, at(0, 2)}); if (kind == 6) m.e.push_back({O, at(2, 0)});
            std::vector<double> area4; if (kind < 6) area4.push_back(std::fabs(area({o, m.n[A], m.n[at(0, 2)], m.n[at(1, 2)]}))); if (kind != 6) area4.push_back(std::fabs(area({o, m.n[B], m.n[at(2, 0)], m.n[at(2, 1)]})));
            double s = 0; for (double q : area4) s += q; c[k].ratio = area4.empty() ? 1e9 : 0.5 * a * b / (s / area4.size());
            if (std::fabs(c[k].ratio - th) < 0.02 * th) throw mc::Skip{};
        }
        // nodes that are not connected go
        { std::vector<char> used(m.n.size(), 0); for (auto& e : m.e) used[e[0]] = used[e[1]] = 1; std::vector<int> id(m.n.size(), -1); MeshIn q; for (size_t i = 0; i < m.n.size(); i++) if (used[i]) { id[i] = (int)q.n.size(); q.n.push_back(m.n[i]); } for (auto& e : m.e) q.e.push_back({id[e[0]], id[e[1]]}); for (auto& x : c) if (x.k0 >= 0) { x.k0 = id[x.k0]; x.k1 = id[x.k1]; x.k2 = id[x.k2]; } m = q; }
        if (numb)
        { int N = (int)m.n.size(); auto p = [&](int i) { return numb == 1 ? N - 1 - i : (i * 7 + 3) % N; }; if (numb == 2 && N % 7 == 0) throw mc::Skip{}; MeshIn q = m; for (int i = 0; i < N; i++) q.n[p(i)] = m.n[i]; for (size_t e = 0; e < m.e.size(); e++) q.e[e] = e % 2 ? std::array<int, 2>{p(m.e[e][1]), p(m.e[e][0])} : std::array<int, 2>{p(m.e[e][0]), p(m.e[e][1])}; std::reverse(q.e.begin(), q.e.end()); for (auto& x : c) if (x.k0 >= 0) { x.k0 = p(x.k0); x.k1 = p(x.k1); x.k2 = p(x.k2); } m = q; }
        double SC = proj ? 1e-4 : 1; for (auto& p : m.n) p = SC * p;
        reset(); int id = alloc(proj); setMesh2(id, m); M2 a, b; getM2(id, a); std::string key = "small triangles";
        if (edit == 1) { int n0 = -1; for (int i = 0; i < a.nn(); i++) if (dist(a.node(i), P{20 * SC, 20 * SC}) < 1e-9) n0 = i; api::mkernel_mesh2d_move_node(id, 20.1 * SC, 19.9 * SC, n0); m.n[n0] = {20.1 * SC, 19.9 * SC}; } // not read in between
        if (edit == 2) { bool u; int uid; api::mkernel_mesh2d_delete_node(id, 0); api::mkernel_undo_state(u, uid); }
        if (edit == 1) { a.nx.clear(); int jd = alloc(proj); setMesh2(jd, m); getM2(jd, a); }
        int rc = api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, 1e-9, th); r.step(); r.check(rc == 0, "call", lastError()); r.check(getM2(id, b) == 0, "read", "cannot be read"); r.validated++;
        std::string d = validateM2(b); r.check(d.empty(), "valid", d); if (!proj) { d = validateGeom(b); r.check(d.empty(), "geom", d); }
        std::vector<int> to(a.nn()); for (int i = 0; i < a.nn(); i++) to[i] = i; int gone = 0; for (auto& x : c) if (x.k0 >= 0 && x.ratio <= th) { to[x.k0] = to[x.k2] = x.k1; gone++; }
        auto name = [&](const P& p) { return std::make_pair(std::lround(p.x / SC * 1e5), std::lround(p.y / SC * 1e5)); }; using Q = std::pair<long, long>;
        std::multiset<Q> N, H; std::set<std::pair<Q, Q>> E, G; for (int i = 0; i < a.nn(); i++) if (to[i] == i) N.insert(name(a.node(i))); for (int i = 0; i < b.nn(); i++) if (b.nodeOk(i)) H.insert(name(b.node(i)));
        for (auto& e : m.e) if (to[e[0]] != to[e[1]]) E.insert(std::minmax(name(a.node(to[e[0]])), name(a.node(to[e[1]])))); for (int e = 0; e < b.ne(); e++) if (b.edgeOk(e)) G.insert(std::minmax(name(b.node(b.en[2 * e])), name(b.node(b.en[2 * e + 1]))));
        for (auto& q : N) r.check(H.count(q), key, fmt("no node at (%g,%g)", q.first / 1e5, q.second / 1e5)); for (auto& q : H) r.check(N.count(q), key, fmt("node (%g,%g) of a triangle with at most %g of the area of its neighbours is still there, or moved", q.first / 1e5, q.second / 1e5, th)); r.check(H.size() == N.size(), key, "double nodes");
        for (auto& e : E) r.check(G.count(e), key, fmt("no edge (%g,%g)-(%g,%g)", e.first.first / 1e5, e.first.second / 1e5, e.second.first / 1e5, e.second.second / 1e5)); for (auto& e : G) r.check(E.count(e), key, fmt("there should be no edge (%g,%g)-(%g,%g)", e.first.first / 1e5, e.first.second / 1e5, e.second.first / 1e5, e.second.second / 1e5));
        int cells = (int)E.size() - (int)N.size() + 1; r.check(b.nf() == cells, key, fmt("%d cells, expected %d", b.nf(), cells)); // Euler
        mc::Hash h; hash(h, b); r.state(h.h); r.outcome(gone);
        bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 w = a; canon(w); std::string dd = diff(w, o, 0); r.check(u && dd.empty(), "undo", dd);
        api::mkernel_redo_state(u, uid); getM2(id, o); canon(o); w = b; canon(w); dd = diff(w, o, 0); r.check(u && dd.empty(), "redo", dd);
    }
}
MC_MAIN(body)
