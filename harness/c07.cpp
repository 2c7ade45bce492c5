// C07: for every small planar graph, the mesh delivered is the graph that was given, with its enclosed cells, boundary and hanging edges.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    // 3x3 nodes, jittered so that nothing is collinear
    std::vector<P> nodes9()
    {
        static const double jx[9] = {0.3, -0.7, 0.4, 0.9, -0.2, 0.6, -0.5, 0.1, -0.8}, jy[9] = {0.2, 0.8, -0.6, -0.3, 0.7, 0.5, -0.9, 0.4, -0.1};
        std::vector<P> r; for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) r.push_back({10.0 * i + jx[3 * j + i], 10.0 * j + jy[3 * j + i]}); return r;
    }
    // 2 x 5 nodes: a strip
    std::vector<P> nodes10() { std::vector<P> r; for (int j = 0; j < 2; j++) for (int i = 0; i < 5; i++) r.push_back({10.0 * i + 0.4 * ((i * 7 + j * 3) % 5), 10.0 * j + 0.3 * ((i * 3 + j * 5) % 4)}); return r; }
    struct Graph { std::vector<P> n; std::vector<std::array<int, 2>> e; };
    // renumber: nodes through a permutation, edges reversed or rotated, orientation flipped
    Graph renumber(const Graph& g, int v)
    {
        if (v == 0) return g;
        int N = (int)g.n.size(), E = (int)g.e.size(); Graph r; r.n.resize(N); std::vector<int> p(N);
        for (int i = 0; i < N; i++) p[i] = v == 1 ? N - 1 - i : (i * 4 + 3) % N;
        if (v == 2 && N % 2 == 0) for (int i = 0; i < N; i++) p[i] = (i * 3 + 2) % N;
        for (int i = 0; i < N; i++) r.n[p[i]] = g.n[i];
        for (int k = 0; k < E; k++) { auto& x = g.e[v == 1 ? E - 1 - k : (k + E / 2) % E]; if (v == 1 || k % 2) r.e.push_back({p[x[1]], p[x[0]]}); else r.e.push_back({p[x[0]], p[x[1]]}); }
        return r;
    }
    std::string checkMesh(int id, const Graph& g, bool cart)
    {
        M2 m; if (getM2(id, m)) return "cannot be read: " + lastError();
        ref::Mesh w{g.n, g.e}; w.read();
        if (m.ne() != (int)g.e.size()) return fmt("%d edges delivered, %zu given", m.ne(), g.e.size());
        for (int e = 0; e < m.ne(); e++) if (m.en[2 * e] != g.e[e][0] || m.en[2 * e + 1] != g.e[e][1]) return fmt("edge %d is (%d,%d), given as (%d,%d)", e, m.en[2 * e], m.en[2 * e + 1], g.e[e][0], g.e[e][1]);
        std::string d = ref::diff(w, m, 0); if (!d.empty()) return d;
        d = validateM2(m); if (!d.empty()) return d;
        if (!cart) { d = ref::sane(m, false); if (!d.empty()) return d; }
        if (cart) { d = validateGeom(m); if (!d.empty()) return d; }
        // hanging edges: one end has no other edge
        std::vector<int> deg(m.nn(), 0), hang; for (int e = 0; e < m.ne(); e++) { deg[m.en[2 * e]]++; deg[m.en[2 * e + 1]]++; }
        for (int e = 0; e < m.ne(); e++) if (deg[m.en[2 * e]] == 1 || deg[m.en[2 * e + 1]] == 1) hang.push_back(e);
        int nh = -1; if (api::mkernel_mesh2d_count_hanging_edges(id, nh)) return "count_hanging_edges failed";
        if (nh != (int)hang.size()) return fmt("%d hanging edges counted, %zu exist", nh, hang.size());
        std::vector<int> got(nh + 1, -7); if (api::mkernel_mesh2d_get_hanging_edges(id, got.data())) return "get_hanging_edges failed";
        got.pop_back(); std::sort(got.begin(), got.end()); if (got != hang) return "wrong hanging edges";
        // boundaries: the edges with exactly one face, each once, in closed polygons
        int nb = -1; if (api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, nb)) return "count boundaries failed";
        Geo b = Geo::sized(nb); if (nb && api::mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, b)) return "get boundaries failed";
        std::multiset<std::pair<int, int>> want; for (int e = 0; e < m.ne(); e++) if (m.ef[2 * e] >= 0 && m.ef[2 * e + 1] < 0) want.insert(std::minmax({m.en[2 * e], m.en[2 * e + 1]}));
        auto find = [&](P p) { for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && m.nx[i] == p.x && m.ny[i] == p.y) return i; return -1; };
        for (auto& ring : splitRings(b.pts()))
        {
            if (ring.size() < 4 || dist(ring.front(), ring.back()) != 0) return "boundary polygon is not closed";
            for (size_t i = 0; i + 1 < ring.size(); i++) { int p = find(ring[i]), q = find(ring[i + 1]); auto it = want.find(std::minmax({p, q})); if (it == want.end()) return fmt("boundary polygon runs along (%d,%d), which is not an unused boundary edge", p, q); want.erase(it); }
        }
        if (!want.empty()) return fmt("boundary edge (%d,%d) is in no boundary polygon", want.begin()->first, want.begin()->second);
        // the polygons of the faces with k edges
        auto F = m.faces();
        for (int k = 3; k <= 6; k++)
        {
            std::vector<std::vector<int>> fk; size_t tot = 0; for (auto& f : F) if ((int)f.size() == k) { fk.push_back(f); tot += k + 1; }
            if (fk.empty()) continue;
            tot += fk.size() - 1;
            int n = -1; if (api::mkernel_mesh2d_get_face_polygons_dimension(id, k, n)) return "face polygon dimension failed";
            if (n != (int)tot) return fmt("polygons of faces with %d edges: dimension %d, expected %zu", k, n, tot);
            Geo o = Geo::sized(n); if (api::mkernel_mesh2d_get_face_polygons(id, k, o)) return "face polygons failed";
            auto R = splitRings(o.pts()); if (R.size() != fk.size()) return fmt("%zu polygons for %zu faces with %d edges", R.size(), fk.size(), k);
            for (size_t i = 0; i < R.size(); i++)
            {
                if ((int)R[i].size() != k + 1 || dist(R[i].front(), R[i].back()) != 0) return "face polygon is not closed";
                for (int q = 0; q < k; q++) if (dist(R[i][q], m.node(fk[i][q])) != 0) return "face polygon differs from the face";
            }
        }
        return "";
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        Graph g; int proj = 0; std::string key;
        if (sc == 0)
        { // 3x3 nodes: every subset of the 12 lattice edges, with no, a rising or a falling diagonal in each cell
            g.n = nodes9();
            static const int L[12][2] = {{0, 1}, {1, 2}, {3, 4}, {4, 5}, {6, 7}, {7, 8}, {0, 3}, {1, 4}, {2, 5}, {3, 6}, {4, 7}, {5, 8}};
            static const int D[4][3][2] = {{{-1, -1}, {0, 4}, {1, 3}}, {{-1, -1}, {1, 5}, {2, 4}}, {{-1, -1}, {3, 7}, {4, 6}}, {{-1, -1}, {4, 8}, {5, 7}}};
            int v = r.choose(r.thorough() ? 3 : 2, "numbering");
            for (int c = 0; c < 4; c++) { int k = r.choose(3, "diagonal"); if (k) g.e.push_back({D[c][k][0], D[c][k][1]}); }
            int mask = r.choose(4096, "edges"); r.shard();
            if (v && !r.thorough() && mask % 4 != 3) throw mc::Skip{};
            for (int i = 0; i < 12; i++) if (mask >> i & 1) g.e.push_back({L[i][0], L[i][1]});
            if (g.e.empty()) throw mc::Skip{};
            g = renumber(g, v); key = "lattice";
        }
        else if (sc == 1)
        { // a strip of 2x5 nodes: every subset of its 13 edges with one of 3 diagonal patterns, in 3 numberings
            g.n = nodes10(); std::vector<std::array<int, 2>> L; for (int j = 0; j < 2; j++) for (int i = 0; i < 4; i++) L.push_back({5 * j + i, 5 * j + i + 1}); for (int i = 0; i < 5; i++) L.push_back({i, i + 5});
            int v = r.choose(3, "numbering"), d = r.choose(3, "diagonals"), mask = r.choose(8192, "edges"); r.shard();
            for (int i = 0; i < 13; i++) if (mask >> i & 1) g.e.push_back(L[i]);
            if (d == 1) { g.e.push_back({0, 6}); g.e.push_back({8, 2}); } else if (d == 2) { g.e.push_back({1, 5}); g.e.push_back({7, 1}); g.e.push_back({3, 9}); }
            if (g.e.empty()) throw mc::Skip{};
            g = renumber(g, v); key = "strip";
        }
        else
        { // spherical: the graph and its combinatorial structure
            g.n = nodes9(); proj = 1 + r.choose(2, "projection"); int mask = r.choose(4096, "edges"); r.shard();
            static const int L[12][2] = {{0, 1}, {1, 2}, {3, 4}, {4, 5}, {6, 7}, {7, 8}, {0, 3}, {1, 4}, {2, 5}, {3, 6}, {4, 7}, {5, 8}};
            for (int i = 0; i < 12; i++) if (mask >> i & 1) g.e.push_back({L[i][0], L[i][1]});
            if (g.e.empty()) throw mc::Skip{};
            for (auto& p : g.n) p = 0.1 * p; key = "spherical";
        }
        // nodes that no edge uses are not part of a mesh: leave them out, so that the numbering is that of the caller
        { std::vector<int> nw(g.n.size(), -1); std::vector<P> kept; std::vector<char> used(g.n.size(), 0); for (auto& e : g.e) used[e[0]] = used[e[1]] = 1; for (size_t i = 0; i < g.n.size(); i++) if (used[i]) { nw[i] = (int)kept.size(); kept.push_back(g.n[i]); } g.n = kept; for (auto& e : g.e) e = {nw[e[0]], nw[e[1]]}; }
        reset(); int id = alloc(proj);
        int rc = setMesh2(id, g.n, g.e); r.step(); r.check(rc == 0, "set:" + key, "the graph is refused: " + lastError());
        std::string d = checkMesh(id, g, proj == 0);
        r.checkf(d.empty(), "graph:" + key, [&] { std::string s = d + " | edges"; for (auto& e : g.e) s += fmt(" %d-%d", e[0], e[1]); return s; });
        M2 m; getM2(id, m); r.validated++; mc::Hash h; h.i(proj); hash(h, m); r.state(h.h); r.outcome(m.nf());
        if (sc == 1)
        { // what was read can be given to another state, which then reads the same
            int o = alloc(proj); std::vector<P> n; std::vector<std::array<int, 2>> e; for (int i = 0; i < m.nn(); i++) n.push_back(m.node(i)); for (int i = 0; i < m.ne(); i++) e.push_back({m.en[2 * i], m.en[2 * i + 1]});
            setMesh2(o, n, e); M2 q; r.check(getM2(o, q) == 0, "copy:read", "the copy cannot be read");
            std::string dd = diff(m, q, 0); r.check(dd.empty(), "copy:" + key, "a copy of what was read differs: " + dd);
        }
    }
}
MC_MAIN(body)
