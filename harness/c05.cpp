// C05: queries do not change anything, can be repeated in any order, and announced sizes equal what is delivered.
#include "calls.hpp"
using namespace mk;
using namespace calls;
namespace
{
    const std::vector<Call>& queries() { static std::vector<Call> v = [] { std::vector<Call> r; for (auto& c : calls::all()) if (c.query) r.push_back(c); return r; }(); return v; }
    const std::vector<ops::Op>& opl() { static std::vector<ops::Op> v = [] { std::vector<ops::Op> r; for (auto& o : ops::all()) if (o.name != "mesh2d_insert_node") r.push_back(o); return r; }(); return v; }
    const std::vector<ops::Op>& core() { static std::vector<ops::Op> v = [] { std::vector<ops::Op> r; for (auto& o : opl()) if (o.core) r.push_back(o); return r; }(); return v; }
    const std::vector<std::string> stateOps{"", "mesh2d_delete_node/5", "mesh2d_set", "curvilinear_delete_interior", "mesh2d_casulli_refinement", "contacts_compute_single", "curvilinear_convert_to_mesh2d"};
    void build(int id, int s) { ops::buildBase(id); if (!stateOps[s].empty()) for (auto& o : opl()) if (o.name == stateOps[s]) o.run(id); }
    struct Ans { int rc; uint64_t h; };
    Ans ask(const Call& q, int id) { mc::Hash h; int rc = q.run(id, h); if (rc) h = mc::Hash(); return {rc, h.h}; }
    bool same(Ans a, Ans b) { return a.rc == b.rc && a.h == b.h; }
    const double S = -7777.25;
    // output geometry with room for two more entries than announced
    Geo guard(int n) { Geo g = Geo::sized(n + 2); g.g.num_coordinates = n; return g; }
    api::GeometryList& ref(Geo& g, int n) { g.fix(); g.g.num_coordinates = n; return g.g; }
    std::string full(const Geo& g, int n, bool x = true, bool v = false)
    {
        for (int i = 0; i < n; i++) if ((x && (g.x[i] == S || g.y[i] == S)) || (v && g.v[i] == S)) return fmt("entry %d of the announced %d is not delivered", i, n);
        for (int i = n; i < n + 2; i++) if (g.x[i] != S || g.y[i] != S || g.v[i] != S) return fmt("an entry beyond the announced %d is written", n);
        return "";
    }
    void sizes(Run& r, int id, const std::string& key)
    {
        auto ck = [&](const std::string& what, const std::string& d) { r.checkf(d.empty(), "size-" + what + ":" + key, [&] { return what + ": " + d; }); };
        api::Mesh2D dm; r.check(api::mkernel_mesh2d_get_dimensions(id, dm) == 0, "dims:" + key, "get_dimensions failed");
        M2 m; getM2(id, m);
        for (int i = 0; i < m.ne(); i++) if (m.en[2 * i] == -5 || m.ef[2 * i] == -5) ck("mesh2d_get_data", "edge not delivered");
        for (int v : m.fn) if (v == -5) ck("mesh2d_get_data", "face node not delivered");
        for (int v : m.fe) if (v == -5) ck("mesh2d_get_data", "face edge not delivered");
        {
            api::Mesh2D d = dm; std::vector<double> x(dm.num_nodes + 1, S), y(x), ex(dm.num_edges + 1, S), ey(ex); std::vector<int> e(2 * dm.num_edges + 2, -5);
            d.node_x = x.data(); d.node_y = y.data(); d.edge_nodes = e.data(); d.edge_x = ex.data(); d.edge_y = ey.data(); std::vector<int> ef(e); d.edge_faces = ef.data();
            int rc = api::mkernel_mesh2d_get_node_edge_data(id, d);
            if (rc == 0)
            {
                std::string s; if (x.back() != S || e[2 * dm.num_edges] != -5) s = "written beyond the announced size";
                x.pop_back(); y.pop_back(); e.resize(2 * dm.num_edges);
                if (s.empty() && (x != m.nx || y != m.ny || e != m.en)) s = "differs from get_data";
                ck("mesh2d_get_node_edge_data", s);
            }
        }
        for (int in = 0; in < 2; in++)
        {
            int n = -1; if (api::mkernel_mesh2d_count_nodes_in_polygons(id, rect(-1, -1, 15, 25), in, n)) continue;
            std::vector<int> s(n + 2, -5); int rc = api::mkernel_mesh2d_get_nodes_in_polygons(id, rect(-1, -1, 15, 25), in, s.data());
            std::string t; if (rc) t = "get fails"; for (int i = 0; i < n; i++) if (s[i] < 0 || s[i] >= m.nn()) t = "invalid entry"; if (s[n] != -5) t = "too many";
            std::set<int> u(s.begin(), s.begin() + n); if ((int)u.size() != n) t = "repeated entry";
            ck("nodes_in_polygons", t);
        }
        {
            int n = -1; if (!api::mkernel_mesh2d_count_hanging_edges(id, n)) { std::vector<int> s(n + 2, -5); int rc = api::mkernel_mesh2d_get_hanging_edges(id, s.data()); std::string t; if (rc) t = "get fails"; for (int i = 0; i < n; i++) if (s[i] < 0 || s[i] >= m.ne()) t = "invalid entry"; if (s[n] != -5) t = "too many"; ck("hanging_edges", t); }
        }
        auto geo = [&](const char* what, std::function<int(int&)> count, std::function<int(api::GeometryList&)> get, bool x = true, bool v = false)
        {
            int n = -1; int rc = count(n); if (rc) return;
            if (n < 0) { if (m.nf() > 0) ck(what, "no size announced"); return; }
            Geo g = guard(n); rc = get(ref(g, n)); if (n == 0 && rc) return;
            ck(what, rc ? "get fails" : full(g, n, x, v));
        };
        geo("mesh_boundaries", [&](int& n) { return api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, g); });
        geo("obtuse_triangles", [&](int& n) { return api::mkernel_mesh2d_count_obtuse_triangles(id, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, g); });
        for (double t : {0.5, 1.5}) geo("small_flow_edges", [&](int& n) { return api::mkernel_mesh2d_count_small_flow_edge_centers(id, t, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_small_flow_edge_centers(id, t, g); });
        for (int k = 3; k < 6; k++) geo("face_polygons", [&](int& n) { n = 0; return api::mkernel_mesh2d_get_face_polygons_dimension(id, k, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_face_polygons(id, k, g); });
        geo("filtered_face_polygons", [&](int& n) { return api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, 0.0, 0.5, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_filtered_face_polygons(id, 0, 0.0, 0.5, g); });
        for (int p = 0; p < 2; p++) geo("property", [&](int& n) { return api::mkernel_mesh2d_get_property_dimension(id, p, n); }, [&](auto& g) { return api::mkernel_mesh2d_get_property(id, p, g); }, false, true);
        geo("polygon_offset", [&](int& n) { return api::mkernel_polygon_count_offset(id, rect(0, 0, 10, 10), 1, 2.0, n); }, [&](auto& g) { return api::mkernel_polygon_get_offset(id, rect(0, 0, 10, 10), 1, 2.0, g); });
        geo("polygon_refine", [&](int& n) { return api::mkernel_polygon_count_refine(id, rect(0, 0, 10, 10), 0, 3, 3.0, n); }, [&](auto& g) { return api::mkernel_polygon_refine(id, rect(0, 0, 10, 10), 0, 3, 3.0, g); });
        for (int b = 1; b < 5; b++) geo("curvilinear_boundaries", [&](int& n) { return api::mkernel_curvilinear_count_boundaries_as_polygons(id, 0, 0, b, 5 - b, n); }, [&](auto& g) { return api::mkernel_curvilinear_get_boundaries_as_polygons(id, 0, 0, b, 5 - b, g); });
        std::vector<int> a, b; if (!getContacts(id, a, b)) for (size_t i = 0; i < a.size(); i++) ck("contacts", a[i] < 0 || b[i] < 0 ? "contact not delivered" : "");
        M1 m1; if (!getM1(id, m1)) for (int e : m1.en) ck("mesh1d", e < 0 ? "edge not delivered" : "");
    }
    void body(Run& r)
    {
        int sc = r.choose(4, "scenario");
        auto& Q = queries();
        if (sc == 0)
        { // any query after any other query
            int s = r.choose((int)stateOps.size(), "state"), a = r.choose((int)Q.size(), "first query"); r.shard();
            static std::map<std::pair<int, int>, Ans> alone;
            auto fresh = [&](int q) { auto k = std::make_pair(s, q); auto it = alone.find(k); if (it == alone.end()) { reset(); int id = alloc(0); build(id, s); it = alone.emplace(k, ask(Q[q], id)).first; } return it->second; };
            std::vector<Ans> want; for (size_t q = 0; q < Q.size(); q++) want.push_back(fresh((int)q));
            reset(); int id = alloc(0); build(id, s);
            int c0[2], c1[2]; api::mkernel_undo_state_count(c0[0], c0[1]);
            Ans a1 = ask(Q[a], id); r.check(same(a1, want[a]), "self:" + Q[a].name, "the same query on the same state gives another answer");
            Snap ref; { reset(); int z = alloc(0); build(z, s); ref = snap(z); }
            for (size_t b = 0; b < Q.size(); b++)
            {
                reset(); id = alloc(0); build(id, s); ask(Q[a], id);
                Ans x = ask(Q[b], id); r.step();
                r.checkf(same(x, want[b]), "order:" + Q[a].name + ";" + Q[b].name, [&] { return fmt("%s answers differently after %s (rc %d, alone %d), state %d", Q[b].name.c_str(), Q[a].name.c_str(), x.rc, want[b].rc, s); });
                x = ask(Q[b], id); r.step(); r.check(same(x, want[b]), "repeat:" + Q[a].name + ";" + Q[b].name, "repeating the query changes its answer");
                r.outcome(x.h);
                auto d = diff(ref, snap(id)); r.check(d.empty(), "changed:" + Q[a].name + ";" + Q[b].name, "queries changed the state: " + d);
                api::mkernel_undo_state_count(c1[0], c1[1]); r.check(c0[0] == c1[0] && c0[1] == c1[1], "history:" + Q[a].name + ";" + Q[b].name, "a query changed the undo history");
            }
            r.state(hash(ref));
        }
        else if (sc == 1)
        { // the answer after edits does not depend on whether somebody looked in between
            bool two = r.flag("two edits");
            int n = two ? (int)core().size() : 1;
            int a = r.choose(n, "first edit"), b = r.choose((int)opl().size(), "edit"); r.shard();
            if (two && !r.thorough() && !opl()[b].core) throw mc::Skip{};
            if (two && core()[a].name == opl()[b].name && core()[a].name.find("insert_edge") != std::string::npos) throw mc::Skip{}; // the same edge twice is not a mesh
            std::string key = (two ? core()[a].name + ";" : "") + opl()[b].name;
            r.note(key);
            reset(); int id = alloc(0); ops::buildBase(id); snap(id);
            if (two && core()[a].run(id)) return; snap(id);
            if (opl()[b].run(id)) return; Snap ref = snap(id); r.state(hash(ref));
            std::vector<Ans> want; for (auto& q : Q) want.push_back(ask(q, id));
            { auto d = diff(ref, snap(id)); r.check(d.empty(), "changed:" + key, "queries changed the state: " + d); }
            sizes(r, id, key);
            // every query as the first look at an edited state
            size_t stride = two && !r.thorough() ? 2 : 1;
            for (size_t q = (size_t)((a + b) % (int)stride); q < Q.size(); q += stride)
            {
                // an unconnected node is dropped when the mesh is read, so these two may still see it
                if (two && core()[a].fam.find("delete_edge") != std::string::npos && opl()[b].fam.find("delete_edge") != std::string::npos && Q[q].name.find("nodes_in_polygons") != std::string::npos) continue;
                reset(); id = alloc(0); ops::buildBase(id); if (two) core()[a].run(id); opl()[b].run(id);
                Ans x = ask(Q[q], id); r.step();
                r.checkf(same(x, want[q]), "unseen:" + key + ";" + Q[q].name, [&] { return fmt("%s right after the edits answers differently (rc %d) than after reading the mesh (rc %d)", Q[q].name.c_str(), x.rc, want[q].rc); });
                auto d = diff(ref, snap(id)); r.check(d.empty(), "unseen-state:" + key + ";" + Q[q].name, "the state depends on which query looked first: " + d);
            }
        }
        else if (sc == 2)
        { // after undoing, queries answer as before the edit
            int b = r.choose((int)opl().size(), "edit"); bool redo = r.flag("redo"); r.shard();
            std::string key = opl()[b].name; r.note(key);
            reset(); int id = alloc(0); ops::buildBase(id); Snap s0 = snap(id);
            std::vector<Ans> want0, want; for (auto& q : Q) want0.push_back(ask(q, id));
            int c0, c1, x; api::mkernel_undo_state_count(c0, x);
            if (opl()[b].run(id)) return;
            Snap s1 = snap(id); for (auto& q : Q) want.push_back(ask(q, id));
            api::mkernel_undo_state_count(c1, x); bool u; int w;
            if (c1 == c0) return;
            for (int i = c0; i < c1; i++) api::mkernel_undo_state(u, w);
            if (redo) for (int i = c0; i < c1; i++) api::mkernel_redo_state(u, w);
            r.step();
            auto& e = redo ? want : want0;
            bool comparable = diff(redo ? s1 : s0, snap(id)).empty(); // otherwise trailing deleted slots change the sizes
            if (!comparable) return;
            for (size_t q = 0; q < Q.size(); q++) { Ans y = ask(Q[q], id); r.step(); r.checkf(same(y, e[q]), "undone:" + key + ";" + Q[q].name, [&] { return fmt("%s answers differently after %s of %s", Q[q].name.c_str(), redo ? "undo and redo" : "undo", key.c_str()); }); }
        }
        else
        {
            int s = r.choose((int)stateOps.size(), "state"), p = r.choose(2, "projection"); r.shard();
            reset(); int id = alloc(p); build(id, s); sizes(r, id, fmt("s%dp%d", s, p)); r.step();
        }
    }
}
MC_MAIN(body)
