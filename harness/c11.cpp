// C11: deleting by polygon removes exactly the selected part of the mesh.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    MeshIn base(int k)
    {
        switch (k)
        {
        case 0: return grid(4, 3, 10, 10); // rectangles
        case 1: { auto m = trigrid(3, 3, 12, 10, 0, 0, true); for (auto& p : m.n) p = {p.x + 0.1 * p.y, p.y}; return m; }
        case 2: { auto m = grid(4, 3, 10, 10); shear(m, 0.06, 0.03); m.e.erase(m.e.begin() + 4); m.e.push_back({2, 8}); return m; } // mixed cells
        case 3: { auto m = grid(3, 3, 10, 10); int n = (int)m.n.size(); m.n.push_back({37, 11.5}); m.n.push_back({46, 14}); m.n.push_back({13, 38}); m.e.push_back({n - 5, n}); m.e.push_back({n, n + 1}); m.e.push_back({n + 2, n - 3}); for (P p : {P{42, 28}, P{47, 33.5}, P{1.5, 44}, P{9, 47}}) m.n.push_back(p); m.e.push_back({n + 3, n + 4}); m.e.push_back({n + 6, n + 5}); return m; } // with dangling and loose edges
        default: { // equilateral-like (acute) triangles
            MeshIn m; int w = 5; for (int j = 0; j < 4; j++) for (int i = 0; i < w; i++) m.n.push_back({10.0 * i + 5.0 * (j % 2), 8.7 * j});
            auto id = [&](int i, int j) { return j * w + i; };
            for (int j = 0; j < 4; j++) for (int i = 0; i < w; i++) { if (i + 1 < w) m.e.push_back({id(i, j), id(i + 1, j)}); if (j < 3) { m.e.push_back({id(i, j), id(i, j + 1)}); int d = j % 2 ? i + 1 : i - 1; if (d >= 0 && d < w) m.e.push_back({id(i, j), id(d, j + 1)}); } }
            return m; }
        }
    }
    typedef std::vector<P> Ring;
    struct Enc { Ring outer; std::vector<Ring> holes; };
    bool in(P p, const std::vector<Enc>& v)
    {
        for (auto& e : v) { int o = pip(p, e.outer, 1e-4); if (o == 0) throw mc::Skip{}; bool h = false; for (auto& q : e.holes) { int k = pip(p, q, 1e-4); if (k == 0) throw mc::Skip{}; h |= k > 0; } if (o > 0 && !h) return true; }
        return false;
    }
    bool crossed(P a, P b, const std::vector<Enc>& v)
    {
        auto one = [&](const Ring& q) { for (size_t i = 0; i < q.size(); i++) { P c = q[i], d = q[(i + 1) % q.size()]; double o1 = ref::orient(a, b, c), o2 = ref::orient(a, b, d), o3 = ref::orient(c, d, a), o4 = ref::orient(c, d, b); if ((std::fabs(o1) < 1e-3 && (o3 > 0) != (o4 > 0)) || (std::fabs(o2) < 1e-3 && (o3 > 0) != (o4 > 0))) throw mc::Skip{}; if ((o1 > 0) != (o2 > 0) && (o3 > 0) != (o4 > 0)) return true; } return false; };
        bool c = false; for (auto& e : v) { c |= one(e.outer); for (auto& h : e.holes) c |= one(h); } return c;
    }
    P circum(const Ring& t)
    {
        if (t.size() == 4) return 0.25 * (t[0] + t[1] + t[2] + t[3]);
        P b = t[1] - t[0], c = t[2] - t[0]; double d = 2 * cross(b, c), bb = b.x * b.x + b.y * b.y, cc = c.x * c.x + c.y * c.y; return {t[0].x + (c.y * bb - b.y * cc) / d, t[0].y + (b.x * cc - c.x * bb) / d};
    }
    void examine(Run& r, int id, int mesh, const std::vector<Enc>& v, int prior, int option, int invert, const std::string& key)
    {
        MeshIn mi = base(mesh); setMesh2(id, mi);
        int sh = alloc(0); setMesh2(sh, mi); M2 a;
        for (int s : {sh, id})
        {
            if (prior == 1) api::mkernel_mesh2d_delete_edge_by_index(s, 7);
            if (prior == 2) api::mkernel_mesh2d_delete_node(s, 6);
            if (prior == 3) { int n = -1; api::mkernel_mesh2d_delete_edge_by_index(s, 3); api::mkernel_mesh2d_delete_node(s, 0); bool u; api::mkernel_undo_state(u, n); }
            if (prior == 4) { int e = -1; api::mkernel_mesh2d_insert_edge(s, 0, mesh == 1 || mesh == 4 ? 7 : 6, e); }
        }
        getM2(sh, a);
        if (!ref::planar(a)) throw mc::Skip{};
        auto F = a.faces(), FE = a.faceEdges(); std::vector<char> sel(F.size(), 0), nin(a.nn(), 0), ec(a.ne(), 0), del(a.ne(), 0);
        for (int i = 0; i < a.nn(); i++) if (a.nodeOk(i)) nin[i] = in(a.node(i), v);
        bool any = false; for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) any |= ec[e] = crossed(a.node(a.en[2 * e]), a.node(a.en[2 * e + 1]), v);
        for (auto& x : v) { std::vector<Ring> R{x.outer}; R.insert(R.end(), x.holes.begin(), x.holes.end()); for (auto& q : R) { bool c = false; for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e)) c |= crossed(a.node(a.en[2 * e]), a.node(a.en[2 * e + 1]), {{q, {}}}); bool inner = false; for (auto& f : F) if (pip(q[0], a.facePts(f)) >= 0) inner = true; if (!c && inner) throw mc::Skip{}; } } // a ring within one face: whether it intersects the face is a matter of taste
        for (size_t f = 0; f < F.size(); f++)
        {
            bool all = true, cr = false; for (int i : F[f]) all &= (bool)nin[i]; for (int e : FE[f]) cr |= (bool)ec[e];
            sel[f] = option == 0 ? all && !cr : option == 1 ? all || cr : in(circum(a.facePts(F[f])), v);
        }
        for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e))
        {
            int f0 = a.ef[2 * e], f1 = a.ef[2 * e + 1]; if (f0 < 0) std::swap(f0, f1);
            if (f0 < 0)
            {
                int p = a.en[2 * e], q = a.en[2 * e + 1]; if (option < 2 && ec[e] && nin[p] == nin[q]) throw mc::Skip{}; bool all = nin[p] && nin[q], s = option == 0 ? all && !ec[e] : option == 1 ? all || ec[e] : in(0.5 * (a.node(p) + a.node(q)), v);
                del[e] = s != (bool)invert;
            }
            else { bool s0 = sel[f0], s1 = f1 < 0 ? s0 : (bool)sel[f1]; del[e] = (s0 != (bool)invert) && (s1 != (bool)invert); }
        }
        Geo g; for (size_t i = 0; i < v.size(); i++) { if (i) g.sep(); auto put = [&](const Ring& q) { for (auto p : q) g.add(p.x, p.y); g.add(q[0].x, q[0].y); }; put(v[i].outer); for (auto& h : v[i].holes) { g.add(HOLE, HOLE, HOLE); put(h); } }
        int rc = api::mkernel_mesh2d_delete(id, g, option, invert); r.step();
        r.check(rc == 0, "call:" + key, "mesh2d_delete fails: " + lastError());
        M2 b; r.check(getM2(id, b) == 0, "read:" + key, "cannot be read");
        r.checkf(b.ne() == a.ne() && b.nn() == a.nn(), "sizes:" + key, [&] { return fmt("%d nodes and %d edges became %d and %d", a.nn(), a.ne(), b.nn(), b.ne()); });
        std::vector<char> keep(a.nn(), 0); int ne = 0, nn = 0;
        for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e))
        {
            if (!del[e]) { keep[a.en[2 * e]] = keep[a.en[2 * e + 1]] = 1; ne++; }
            r.checkf(b.edgeOk(e) == !del[e], "edges:" + key, [&] { return fmt("edge %d (%g,%g)-(%g,%g) of faces %d and %d %s", e, a.nx[a.en[2 * e]], a.ny[a.en[2 * e]], a.nx[a.en[2 * e + 1]], a.ny[a.en[2 * e + 1]], a.ef[2 * e], a.ef[2 * e + 1], del[e] ? "should have been deleted" : "was deleted"); });
            if (!del[e]) r.check(b.en[2 * e] == a.en[2 * e] && b.en[2 * e + 1] == a.en[2 * e + 1], "edge ends:" + key, "a remaining edge changed");
        }
        for (int i = 0; i < a.nn(); i++) { nn += keep[i]; r.checkf(b.nodeOk(i) == (bool)keep[i], "nodes:" + key, [&] { return fmt("node %d (%g,%g) %s", i, a.nx[i], a.ny[i], keep[i] ? "was deleted" : "should have been deleted"); }); if (keep[i]) r.check(b.nx[i] == a.nx[i] && b.ny[i] == a.ny[i], "moved:" + key, "a remaining node moved"); }
        r.check(b.nvn == nn && b.nve == ne, "counts:" + key, "the numbers of valid nodes and edges are wrong");
        std::set<std::set<int>> fa, fb; for (size_t f = 0; f < F.size(); f++) { bool k = true; for (int e : FE[f]) k &= !del[e]; if (k) fa.insert(std::set<int>(F[f].begin(), F[f].end())); }
        for (auto& f : b.faces()) fb.insert(std::set<int>(f.begin(), f.end()));
        for (auto& f : fa) r.check(fb.count(f) == 1, "faces:" + key, "a face of which all edges remain is gone");
        for (auto& f : fb) r.check(fa.count(f) == 1 || f.size() > 3, "faces:" + key, "there is a new face"); // a hole of two or three deleted faces can itself count as a face of up to six edges
        for (size_t f = 0; f < F.size(); f++) if (sel[f] == (bool)invert) r.check(fb.count(std::set<int>(F[f].begin(), F[f].end())) == 1, "lost:" + key, "a face that is not selected is gone");
        r.validated++; mc::Hash h; hash(h, b); r.state(h.h); r.outcome(ne);
        bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); canon(a); std::string dd = diff(a, o, 0); r.check(u && dd.empty(), "undo:" + key, "undoing the deletion: " + dd);
    }
    void body(Run& r)
    {
        int sc = r.choose(4, "scenario"); static const double L[6] = {-4.3, 5.1, 14.7, 25.2, 34.1, 44};
        auto pt = [&](int k) { return P{L[k % 6] + 0.3 * (k / 6), L[k / 6] - 0.2 * (k % 6)}; };
        int mesh, option, prior = 0; std::vector<Enc> v;
        auto pick = [&] { mesh = r.choose(5, "mesh"); option = r.choose(3, "option"); };
        if (sc == 0) { pick(); prior = r.choose(5, "edit before"); int a = r.choose(5, "x0"), b = 1 + r.choose(5, "x1"), d = r.choose(5, "y0"), e = 1 + r.choose(5, "y1"); if (b <= a || e <= d) throw mc::Skip{}; v = {{{{L[a], L[d]}, {L[b], L[d]}, {L[b], L[e]}, {L[a], L[e]}}, {}}}; }
        else if (sc == 1) { pick(); int a = r.choose(36, "p"), b = r.choose(36, "q"), d = r.choose(36, "s"); if (!(a < b && a < d && b != d)) throw mc::Skip{}; if (!r.thorough() && (a + b * 5 + d * 7) % 3) throw mc::Skip{}; Ring t{pt(a), pt(b), pt(d)}; if (std::fabs(area(t)) < 60) throw mc::Skip{}; v = {{t, {}}}; }
        else if (sc == 2)
        { // a big ring with a hole
            pick(); prior = r.choose(5, "edit before"); int a = r.choose(36, "p"), b = r.choose(36, "q"); if (b % 6 <= a % 6 || b / 6 <= a / 6) throw mc::Skip{}; P lo = pt(a), hi = pt(b); bool rev = r.flag("orientation of the hole"); Ring h{{lo.x, lo.y}, {hi.x, lo.y + 0.4}, {hi.x - 0.3, hi.y}, {lo.x + 0.2, hi.y}}; if (rev) std::reverse(h.begin(), h.end());
            v = {{{{-9, -9}, {60, -8.5}, {59, 58}, {-8, 57}}, {h}}};
        }
        else
        { // two polygons
            pick(); int a = r.choose(25, "p"), b = r.choose(25, "q"), s = r.choose(2, "size"); auto box = [&](int k, double w) { P p{L[k % 5] + 0.35, L[k / 5] - 0.45}; return Ring{{p.x, p.y}, {p.x + w, p.y + 0.3}, {p.x + w - 0.2, p.y + w}, {p.x + 0.3, p.y + w - 0.1}}; };
            if (std::abs(a % 5 - b % 5) <= 1 + s && std::abs(a / 5 - b / 5) <= 1 + s) throw mc::Skip{};
            v = {{box(a, s ? 22.7 : 13.4), {}}, {box(b, 13.4), {}}};
        }
        int invert = r.choose(2, "invert"); r.shard();
        if (option == 2 && !(mesh == 0 || mesh == 4 || mesh == 3)) throw mc::Skip{}; // the circumcentre of other faces is a matter of convention
        if (option == 2 && prior) { if (mesh != 4 || prior == 4) throw mc::Skip{}; if (prior == 1 || prior == 2) throw mc::Skip{}; }
        if (option == 2 && mesh == 4 && prior == 3) throw mc::Skip{};
        reset(); int id = alloc(0);
        static const char* n[] = {"rectangle", "triangle", "hole", "two"};
        examine(r, id, mesh, v, prior, option, invert, fmt("%s;option%d%s", n[sc], option, invert ? ";inverted" : ""));
    }
}
MC_MAIN(body)
