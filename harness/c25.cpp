// C25: splitting rows, removing disconnected regions and connecting meshes.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    using Key = std::array<long long, 2>;
    double SC = 1;
    Key key(P p) { return {llround(p.x / SC * 1e5), llround(p.y / SC * 1e5)}; }
    struct Pic { std::set<Key> nodes; std::set<std::pair<Key, Key>> edges; };
    Pic pic(const M2& m) { Pic p; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { Key a = key(m.node(m.en[2 * e])), b = key(m.node(m.en[2 * e + 1])); p.edges.insert(std::minmax(a, b)); p.nodes.insert(a); p.nodes.insert(b); } return p; }
    bool near(Key a, Key b) { return std::llabs(a[0] - b[0]) <= 1 && std::llabs(a[1] - b[1]) <= 1; }
    std::string compare(const Pic& w, const Pic& h)
    {
        auto show = [](const std::pair<Key, Key>& e) { return fmt("(%g,%g)-(%g,%g)", e.first[0] / 1e5, e.first[1] / 1e5, e.second[0] / 1e5, e.second[1] / 1e5); };
        auto in = [&](const std::set<std::pair<Key, Key>>& s, const std::pair<Key, Key>& e) { if (s.count(e)) return true; for (auto& f : s) if ((near(e.first, f.first) && near(e.second, f.second)) || (near(e.first, f.second) && near(e.second, f.first))) return true; return false; };
        for (auto& e : w.edges) if (!in(h.edges, e)) return "no edge " + show(e);
        for (auto& e : h.edges) if (!in(w.edges, e)) return "there should be no edge " + show(e);
        return "";
    }
    // ---- splitting a row
    // 0: the row passes a cell twice (not judged); 1: predicted; 2: nothing to split
    int split(const M2& m, int n1, int n2, Pic& out)
    {
        auto F = m.faces(); std::map<std::pair<int, int>, std::vector<int>> EF; for (size_t f = 0; f < F.size(); f++) for (size_t k = 0; k < F[f].size(); k++) EF[std::minmax(F[f][k], F[f][(k + 1) % F[f].size()])].push_back((int)f);
        out = pic(m); std::pair<int, int> seed = std::minmax(n1, n2); using E = std::pair<int, int>;
        auto quad = [&](int f) { return F[f].size() == 4; };
        auto opp = [&](int f, E e) { for (int k = 0; k < 4; k++) if (E(std::minmax(F[f][k], F[f][(k + 1) % 4])) == e) return E(std::minmax(F[f][(k + 2) % 4], F[f][(k + 3) % 4])); return e; };
        std::vector<int> cells; std::vector<E> edges{seed}; bool loop = false; auto sides = EF[seed]; bool any = false; for (int f : sides) any |= quad(f); if (!any) return 2;
        for (size_t s = 0; s < sides.size() && !loop; s++)
        {
            int f = sides[s]; E e = seed;
            while (f >= 0 && quad(f))
            {
                if (std::find(cells.begin(), cells.end(), f) != cells.end()) return 0;
                E o = opp(f, e); if (s == 0) { cells.push_back(f); edges.push_back(o); } else { cells.insert(cells.begin(), f); edges.insert(edges.begin(), o); }
                auto& g = EF[o]; int nx = -1; for (int c : g) if (c != f) nx = c; e = o; f = nx; if (e == seed) { loop = true; break; }
            }
        }
        auto rm = [&](E e) { out.edges.erase(std::minmax(key(m.node(e.first)), key(m.node(e.second)))); };
        auto add = [&](P a, P b) { out.edges.insert(std::minmax(key(a), key(b))); };
        auto mid = [&](E e) { return 0.5 * (m.node(e.first) + m.node(e.second)); };
        size_t K = cells.size(); std::vector<char> halved(K + 1, 1);
        if (!loop) for (int end = 0; end < 2; end++) { size_t k = end ? K : 0; int cell = end ? cells.back() : cells.front(); for (int c : EF[edges[k]]) if (c != cell) halved[k] = 0; } // a cell that is not a quadrilateral follows
        if (K == 1 && !halved[0] && !halved[1]) return 1;
        for (size_t k = 0; k <= K; k++) if (halved[k] && !(loop && k == K)) { rm(edges[k]); add(m.node(edges[k].first), mid(edges[k])); add(mid(edges[k]), m.node(edges[k].second)); }
        for (size_t k = 0; k < K; k++)
        {
            E a = edges[k], b = edges[k + 1]; if (halved[k] && halved[k + 1]) add(mid(a), mid(b));
            else { E h = halved[k] ? a : b, w = halved[k] ? b : a; add(m.node(w.first), mid(h)); add(mid(h), m.node(w.second)); }
        }
        return 1;
    }
    MeshIn splitMesh(int k, int mask)
    {
        MeshIn m;
        if (k == 0) { m = grid(3, 3, 10, 10); static const double J[8] = {0.9, -0.8, 0.5, 1.1, -0.6, -1.0, 0.7, -0.4}; for (int i = 0; i < 16; i++) m.n[i] = m.n[i] + P{J[i % 7], J[(3 * i + 1) % 8]}; for (int c = 0; c < 9; c++) if (mask >> c & 1) { int a = c % 3 + 4 * (c / 3); m.e.push_back({a, a + 5}); } }
        else
        { // rings of cells around an opening: 2 rings of n cells, cells divided by the mask
            int n = 8; for (int j = 0; j < 3; j++) for (int i = 0; i < n; i++) { double t = 2 * M_PI * i / n, q = 10 + 8 * j; m.n.push_back({30 + q * cos(t), 30 + q * sin(t)}); }
            for (int j = 0; j < 3; j++) for (int i = 0; i < n; i++) { m.e.push_back({j * n + i, j * n + (i + 1) % n}); if (j < 2) m.e.push_back({j * n + i, (j + 1) * n + i}); }
            for (int c = 0; c < 6; c++) if (mask >> c & 1) { int j = c % 2, i = 3 * (c / 2) % n; m.e.push_back({j * n + i, (j + 1) * n + (i + 1) % n}); }
        }
        return m;
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario"); reset(); SC = 1; std::string k;
        auto general = [&](const M2& m, const std::string& key) { std::string d = validateM2(m); r.check(d.empty(), "valid:" + key, d); r.check(ref::planar(m), "planar:" + key, "the mesh has crossing edges, coinciding nodes or nodes on edges"); };
        if (sc == 0)
        {
            int ring = r.choose(2, "ring"), mask = r.choose(ring ? 64 : 512, "divided cells"), proj = r.choose(2, "projection"), rev = r.choose(2, "numbering"); r.shard();
            if (proj && !r.thorough() && mask % 3) throw mc::Skip{};
            SC = proj ? 1e-3 : 1; MeshIn mi = splitMesh(ring, mask); if (proj) for (auto& p : mi.n) p = SC * p;
            if (rev) { int N = (int)mi.n.size(); std::reverse(mi.n.begin(), mi.n.end()); std::reverse(mi.e.begin(), mi.e.end()); for (auto& e : mi.e) e = {N - 1 - e[0], N - 1 - e[1]}; }
            int depth2 = r.choose(2, "second split"); if (depth2 && !r.thorough() && (mask % 4 || proj)) throw mc::Skip{};
            int ed = r.choose((int)mi.e.size(), "edge"), sw = r.choose(2, "order"); int e2 = depth2 ? r.choose(14, "second edge") : 0;
            int id = alloc(proj); setMesh2(id, mi); M2 a, b; getM2(id, a);
            for (int round = 0; round <= depth2; round++)
            {
                int e = round ? (5 * e2 + 3) % a.ne() : ed; while (!a.edgeOk(e)) e = (e + 1) % a.ne(); int p = a.en[2 * e], q = a.en[2 * e + 1]; if (sw) std::swap(p, q);
                Pic w; int kind = split(a, p, q, w); if (kind == 0) throw mc::Skip{};
                int rc = api::mkernel_mesh2d_split_row(id, p, q); r.step(); if (kind == 2 && rc != 0) { M2 c; getM2(id, c); std::string d = compare(pic(a), pic(c)); r.check(d.empty(), "split nothing", d); break; }
                r.check(rc == 0, "call:split", lastError()); r.check(getM2(id, b) == 0, "read:split", "cannot be read"); r.validated++;
                std::string d = compare(w, pic(b)); r.check(d.empty(), "split", fmt("splitting at (%d,%d): ", p, q) + d); general(b, "split"); mc::Hash h; hash(h, b); r.state(h.h); r.outcome(b.nf());
                for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i)) r.check(b.nodeOk(i) && dist(a.node(i), b.node(i)) == 0, "split", "an old node has moved");
                if (kind == 2) break;
                bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 v = a; canon(v); std::string dd = diff(v, o, 0); r.check(u && dd.empty(), "undo:split", dd);
                api::mkernel_redo_state(u, uid); getM2(id, o); dd = compare(w, pic(o)); r.check(u && dd.empty(), "redo:split", dd);
                a = o;
            }
        }
        else if (sc == 1)
        {
            int shape = r.choose(2, "shape"), n = shape ? 10 : 12, cols = shape ? 5 : 3; int mask = r.choose(1 << n, "cells"), numb = r.choose(3, "numbering"), proj = r.choose(2, "projection"), edit = r.choose(2, "edit"); r.shard();
            if (!r.thorough() && (proj || edit || numb) && mask % 5) throw mc::Skip{}; if (!mask) throw mc::Skip{};
            double s = proj ? 1e-2 : 10; MeshIn full = grid(cols, n / cols, s, s * 1.1), mi; std::map<int, int> id2; std::set<std::pair<int, int>> E; int w = cols + 1;
            for (int c = 0; c < n; c++) if (mask >> c & 1) { int a = c % cols + w * (c / cols); int v[4] = {a, a + 1, a + w + 1, a + w}; for (int t = 0; t < 4; t++) E.insert(std::minmax(v[t], v[(t + 1) % 4])); if (c % 4 == 1) E.insert({a, a + w + 1}); }
            std::set<int> used; for (auto& e : E) { used.insert(e.first); used.insert(e.second); } std::vector<int> order(used.begin(), used.end()); if (numb == 1) std::reverse(order.begin(), order.end()); if (numb == 2) std::rotate(order.begin(), order.begin() + order.size() / 2, order.end());
            for (int i : order) { id2[i] = (int)mi.n.size(); mi.n.push_back(full.n[i]); } for (auto& e : E) mi.e.push_back({id2[e.first], id2[e.second]}); if (numb == 1) std::reverse(mi.e.begin(), mi.e.end());
            int id = alloc(proj); setMesh2(id, mi); if (edit) { int nn = (int)mi.n.size() / 2; int twin = alloc(proj); setMesh2(twin, mi); api::mkernel_mesh2d_delete_node(twin, nn); api::mkernel_mesh2d_delete_node(id, nn); M2 a; getM2(twin, a); if (a.nf() == 0) throw mc::Skip{}; }
            M2 a; { int twin = alloc(proj); setMesh2(twin, mi); if (edit) api::mkernel_mesh2d_delete_node(twin, (int)mi.n.size() / 2); getM2(twin, a); }
            auto F = a.faces(); std::vector<int> reg(F.size()); for (size_t i = 0; i < F.size(); i++) reg[i] = (int)i; std::map<std::pair<int, int>, std::vector<int>> EF; for (size_t f = 0; f < F.size(); f++) for (size_t t = 0; t < F[f].size(); t++) EF[std::minmax(F[f][t], F[f][(t + 1) % F[f].size()])].push_back((int)f);
            for (bool ch = true; ch;) { ch = false; for (auto& [e, v] : EF) if (v.size() == 2) { int q = std::min(reg[v[0]], reg[v[1]]); if (reg[v[0]] != q || reg[v[1]] != q) { reg[v[0]] = reg[v[1]] = q; ch = true; } } }
            std::map<int, int> size; for (int q : reg) size[q]++; int best = 0; for (auto& [q, c] : size) best = std::max(best, c);
            int rc = api::mkernel_mesh2d_remove_disconnected_regions(id); r.step(); r.check(rc == 0, "call:regions", lastError()); M2 b; r.check(getM2(id, b) == 0, "read:regions", "cannot be read"); r.validated++; general(b, "regions");
            auto FB = b.faces(); std::set<int> left; std::set<std::vector<int>> SB; for (auto f : FB) { std::sort(f.begin(), f.end()); SB.insert(f); } size_t found = 0;
            for (size_t f = 0; f < F.size(); f++) { auto g = F[f]; std::sort(g.begin(), g.end()); if (SB.count(g)) { left.insert(reg[f]); found++; } }
            r.check(found == FB.size(), "regions", "there are new faces"); r.check(left.size() == 1, "regions", fmt("%zu regions are left", left.size())); int q = *left.begin();
            r.check(size[q] == best && (int)FB.size() == best, "regions", fmt("a region of %d faces is left with %zu faces, the largest has %d", size[q], FB.size(), best));
            // edges: those of the region stay, those of the others go, the rest is not touched
            std::set<std::pair<int, int>> EB; for (int e = 0; e < b.ne(); e++) if (b.edgeOk(e)) EB.insert(std::minmax(b.en[2 * e], b.en[2 * e + 1]));
            for (auto& [e, v] : EF) { bool keep = false; for (int f : v) keep |= reg[f] == q; r.check(EB.count(e) == keep, "regions", fmt("edge (%d,%d) is %s", e.first, e.second, keep ? "missing" : "left")); }
            for (int i = 0; i < b.nn(); i++) if (b.nodeOk(i)) r.check(a.nodeOk(i) && dist(a.node(i), b.node(i)) == 0, "regions", "a node has moved");
            mc::Hash h; hash(h, b); r.state(h.h); r.outcome((int)size.size());
            bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 v = a; canon(v); std::string dd = diff(v, o, 0); r.check(u && dd.empty(), "undo:regions", dd);
        }
        else
        { // two grids side by side: the seam becomes conforming
            int side = r.choose(4, "side"), nc = 1 + r.choose(4, "coarse cells"), ratio = 1 + r.choose(5, "ratio"), part = r.choose(3, "part"), fineFirst = r.choose(2, "which is connected"), gap = r.choose(3, "gap"), frac = r.choose(2, "fraction"), numb = r.choose(4, "numbering"), loose = r.choose(2, "loose edges"); if (loose && (part || frac || gap || nc > 2)) throw mc::Skip{}; r.shard();
            // the coarse grid has nc cells of 10 along the seam, the fine one covers all, the first or the last of them
            int cover = part == 0 ? nc : std::max(1, nc - 1); if (part && nc == 1) throw mc::Skip{}; double off = part == 2 ? 10.0 * (nc - cover) : 0; int nfine = cover * ratio; double h = 10.0 / ratio; static const double G[3] = {0, 0.05, -0.04}; double g = G[gap] * h;
            MeshIn A = grid(nc, 2, 10, 9, 0, -18), B = grid(nfine, 2, h, 8, off, g);
            auto turn = [&](MeshIn& m) { for (auto& p : m.n) for (int t = 0; t < side; t++) p = {-p.y, p.x}; if (numb > 1) for (size_t k = 0; k < m.e.size(); k++) if ((k * k + k * 3) % 7 % 3 == (size_t)numb - 2) std::swap(m.e[k][0], m.e[k][1]); if (numb % 2) { int N = (int)m.n.size(); std::reverse(m.n.begin(), m.n.end()); for (auto& e : m.e) e = {N - 1 - e[0], N - 1 - e[1]}; std::reverse(m.e.begin(), m.e.end()); } };
            turn(A); turn(B); int id = alloc(0); MeshIn &first = fineFirst ? B : A, &second = fineFirst ? A : B; setMesh2(id, first); M2 a, b; if (loose) for (int k = 0; k < 60; k++) { int p, q, e; api::mkernel_mesh2d_insert_edge_from_coordinates(id, 300 + 10 * k, 500, 305 + 10 * k, 505, p, q, e); } getM2(id, a);
            std::vector<double> x, y; std::vector<int> en; for (auto& p : second.n) { x.push_back(p.x); y.push_back(p.y); } for (auto& e : second.e) { en.push_back(e[0]); en.push_back(e[1]); }
            api::Mesh2D s{}; s.num_nodes = (int)x.size(); s.num_edges = (int)en.size() / 2; s.node_x = x.data(); s.node_y = y.data(); s.edge_nodes = en.data();
            int rc = api::mkernel_mesh2d_connect_meshes(id, s, frac ? 0.4 : 0.15); r.step();
            r.check(rc == 0, "call:connect", lastError()); r.check(getM2(id, b) == 0, "read:connect", "cannot be read"); r.validated++; general(b, "connect"); r.outcome(b.nf());
            double areaW = nc * 10 * 18 + nfine * h * 16, per = 2 * (nc * 10 + 18) + 2 * (nfine * h + 16) - 2 * nfine * h, L = 0, slack = std::fabs(g) * (nfine * h + 10) + 1e-7;
            for (int e = 0; e < b.ne(); e++) if (b.edgeOk(e) && (b.ef[2 * e] < 0) + (b.ef[2 * e + 1] < 0) == 1) L += dist(b.node(b.en[2 * e]), b.node(b.en[2 * e + 1]));
            r.check(std::fabs(meshArea(b) - areaW) <= slack, "connect", fmt("the area is %.10g, expected %.10g", meshArea(b), areaW)); r.check(std::fabs(L - per) < 8 * std::fabs(g) + 1e-6, "connect", fmt("the outline has length %.10g, expected %.10g", L, per));
            // every node is there, at its place or at most the gap away
            for (auto* m : {&A, &B}) for (auto& p : m->n) { bool hit = false; for (int i = 0; i < b.nn() && !hit; i++) hit = b.nodeOk(i) && dist(b.node(i), p) <= std::fabs(g) + 1e-9; r.check(hit, "connect", fmt("no node at (%g,%g)", p.x, p.y)); }
            bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 v = a; canon(v); std::string dd = diff(v, o, 0); r.check(u && dd.empty(), "undo:connect", dd);
        }
    }
}
MC_MAIN(body)
