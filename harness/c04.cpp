// C04: a call that cannot be carried out reports an error and leaves every state and the history as they were.
#include "calls.hpp"
using namespace mk;
using namespace calls;
namespace
{
    struct Mut { std::string name; std::function<int(int)> run; bool mustFail; };
    const std::vector<Call>& table() { static std::vector<Call> v = calls::all(); return v; }
    const std::vector<ops::Op>& opl() { static std::vector<ops::Op> v = ops::all(); return v; }
    struct Any { std::string name; std::function<int(int)> run; bool query; };
    const std::vector<Any>& everything()
    {
        static std::vector<Any> v = [] {
            std::vector<Any> r;
            for (auto& c : table()) r.push_back({c.name, [&c](int id) { mc::Hash h; return c.run(id, h); }, c.query});
            for (auto& o : opl()) r.push_back({o.name, o.run, false});
            r.push_back({"expunge_state", [](int id) { return api::mkernel_expunge_state(id); }, false});
            return r; }();
        return v;
    }
    Geo open3() { return Geo(std::vector<P>{{0, 0}, {10, 0}, {10, 10}, {0, 10}}); }      // not closed
    Geo two() { return Geo(std::vector<P>{{0, 0}, {10, 0}}); }
    // every entry: a call whose arguments are outside the documented domain (mustFail) or borderline
    const std::vector<Mut>& bad()
    {
        static std::vector<Mut> v = [] {
            std::vector<Mut> r;
            auto add = [&](const std::string& n, bool must, std::function<int(int)> f) { r.push_back({n, std::move(f), must}); };
            for (int k : {-1, -999, 1000, 2147483647})
            {
                add(fmt("mesh2d_delete_node(%d)", k), true, [k](int id) { return api::mkernel_mesh2d_delete_node(id, k); });
                add(fmt("mesh2d_move_node(%d)", k), true, [k](int id) { return api::mkernel_mesh2d_move_node(id, 1, 2, k); });
                add(fmt("mesh2d_delete_edge_by_index(%d)", k), true, [k](int id) { return api::mkernel_mesh2d_delete_edge_by_index(id, k); });
                add(fmt("mesh2d_insert_edge(0,%d)", k), true, [k](int id) { int e; return api::mkernel_mesh2d_insert_edge(id, 0, k, e); });
                add(fmt("mesh2d_insert_edge(%d,0)", k), true, [k](int id) { int e; return api::mkernel_mesh2d_insert_edge(id, k, 0, e); });
                add(fmt("mesh2d_merge_two_nodes(%d,0)", k), true, [k](int id) { return api::mkernel_mesh2d_merge_two_nodes(id, k, 0); });
                add(fmt("mesh2d_merge_two_nodes(0,%d)", k), true, [k](int id) { return api::mkernel_mesh2d_merge_two_nodes(id, 0, k); });
                add(fmt("mesh2d_split_row(%d,1)", k), true, [k](int id) { return api::mkernel_mesh2d_split_row(id, k, 1); });
                add(fmt("mesh2d_split_row(1,%d)", k), true, [k](int id) { return api::mkernel_mesh2d_split_row(id, 1, k); });
                add(fmt("transfinite_from_polygon(%d)", k), true, [k](int id) { Geo g(std::vector<P>{{0, 0}, {5, 0}, {10, 0}, {10, 5}, {10, 10}, {5, 10}, {0, 10}, {0, 5}, {0, 0}}); return api::mkernel_curvilinear_compute_transfinite_from_polygon(id, g, 0, 2, k, 1); });
                add(fmt("transfinite_from_triangle(%d)", k), true, [k](int id) { Geo g(std::vector<P>{{0, 0}, {5, 0}, {10, 0}, {7.5, 5}, {5, 10}, {2.5, 5}, {0, 0}}); return api::mkernel_curvilinear_compute_transfinite_from_triangle(id, g, 0, k, 4); });
                add(fmt("polygon_refine(1..%d)", k), k != -1 && k != -999, [k](int id) { Geo o = Geo::sized(5000); return api::mkernel_polygon_refine(id, rect(0, 0, 10, 10), 1, k, 5.0, o); });
                add(fmt("polygon_count_refine(%d..2)", k), k > 0, [k](int id) { int n; return api::mkernel_polygon_count_refine(id, rect(0, 0, 10, 10), k, 2, 5.0, n); });
                add(fmt("mesh2d_delete option %d", k), true, [k](int id) { return api::mkernel_mesh2d_delete(id, rect(0, 0, 10, 10), k, 0); });
                add(fmt("mesh2d_convert_projection %d", k), true, [k](int id) { return api::mkernel_mesh2d_convert_projection(id, k, "+proj=utm +zone=31"); });
                add(fmt("mesh2d_get_location_index type %d", k), true, [k](int id) { int i; return api::mkernel_mesh2d_get_location_index(id, 1, 1, k, bigBox(), i); });
                add(fmt("curvilinear_get_location_index type %d", k), true, [k](int id) { int i; return api::mkernel_curvilinear_get_location_index(id, 101, 101, k, bigBox(), i); });
                add(fmt("averaging method %d", k), true, [k](int id) { M2 m; getM2(id, m); Geo o = Geo::sized(m.nn()); return api::mkernel_mesh2d_averaging_interpolation(id, samples(), 1, k, 1.5, 1, o); });
                add(fmt("get_property %d", k), true, [k](int id) { Geo o = Geo::sized(500); return api::mkernel_mesh2d_get_property(id, k, o); });
                add(fmt("curvature direction %d", k), true, [k](int id) { std::vector<double> c(5000); return api::mkernel_curvilinear_compute_curvature(id, k, c.data()); });
                add(fmt("smoothness direction %d", k), true, [k](int id) { std::vector<double> c(5000); return api::mkernel_curvilinear_compute_smoothness(id, k, c.data()); });
            }
            add("curvilinear_refine factor 0", true, [](int id) { return api::mkernel_curvilinear_refine(id, 111, 110.5, 131, 111.5, 0); });
            add("curvilinear_refine factor -1", true, [](int id) { return api::mkernel_curvilinear_refine(id, 111, 110.5, 131, 111.5, -1); });
            add("curvilinear_full_refine 0 2", true, [](int id) { return api::mkernel_curvilinear_full_refine(id, 0, 2); });
            add("curvilinear_full_refine 2 -1", true, [](int id) { return api::mkernel_curvilinear_full_refine(id, 2, -1); });
            add("curvilinear_refine diagonal", true, [](int id) { return api::mkernel_curvilinear_refine(id, 100, 100, 144, 142, 2); });
            add("curvilinear_derefine diagonal", false, [](int id) { return api::mkernel_curvilinear_derefine(id, 100, 100, 144, 142); });
            add("curvilinear_line_mirror same node", true, [](int id) { return api::mkernel_curvilinear_line_mirror(id, 1.2, 100, 100, 100, 100); });
            add("curvilinear_line_mirror diagonal", true, [](int id) { return api::mkernel_curvilinear_line_mirror(id, 1.2, 100, 100, 144, 142); });
            add("curvilinear_line_mirror factor 0", true, [](int id) { return api::mkernel_curvilinear_line_mirror(id, 0, 100, 100, 104, 140); });
            add("curvilinear_line_attraction same node", true, [](int id) { return api::mkernel_curvilinear_line_attraction_repulsion(id, 0.5, 122, 121, 122, 121, 100, 100, 144, 142); });
            add("curvilinear_set_frozen_lines same", false, [](int id) { return api::mkernel_curvilinear_set_frozen_lines_orthogonalize(id, 100, 100, 100, 100); });
            add("curvilinear_line_shift uninitialised", true, [](int id) { return api::mkernel_curvilinear_line_shift(id); });
            add("curvilinear_move_node_line_shift uninitialised", true, [](int id) { return api::mkernel_curvilinear_move_node_line_shift(id, 102, 120, 98, 121); });
            add("curvilinear_orthogonalize uninitialised", true, [](int id) { return api::mkernel_curvilinear_orthogonalize(id); });
            add("iterate splines uninitialised", true, [](int id) { return api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, 1); });
            add("refresh splines uninitialised", true, [](int id) { return api::mkernel_curvilinear_refresh_orthogonal_grid_from_splines(id); });
            add("prepare orthogonalization uninitialised", true, [](int id) { return api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); });
            add("inner orthogonalization uninitialised", true, [](int id) { return api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); });
            auto mg = [&](const char* n, std::function<void(M::MakeGridParameters&)> f) {
                auto mk_ = [f] { M::MakeGridParameters p; p.num_columns = 2; p.num_rows = 2; f(p); return p; };
                add(std::string("mesh2d_make_rectangular_mesh ") + n, true, [mk_](int id) { return api::mkernel_mesh2d_make_rectangular_mesh(id, mk_()); });
                add(std::string("curvilinear_compute_rectangular_grid ") + n, true, [mk_](int id) { return api::mkernel_curvilinear_compute_rectangular_grid(id, mk_()); });
                add(std::string("curvilinear_compute_circular_grid ") + n, true, [mk_](int id) { return api::mkernel_curvilinear_compute_circular_grid(id, mk_()); });
            };
            mg("0 columns", [](auto& p) { p.num_columns = 0; });
            mg("-1 rows", [](auto& p) { p.num_rows = -1; });
            mg("angle 91", [](auto& p) { p.angle = 91; });
            mg("block 0", [](auto& p) { p.block_size_x = 0; });
            mg("block -1", [](auto& p) { p.block_size_y = -1; });
            auto rp = [&](const char* n, std::function<void(M::MeshRefinementParameters&)> f) {
                auto mk_ = [f] { auto p = ops::refPar(); f(p); return p; };
                add(std::string("refine_based_on_polygon ") + n, true, [mk_](int id) { return api::mkernel_mesh2d_refine_based_on_polygon(id, rect(-1, -1, 15, 15), mk_()); });
                add(std::string("refine_based_on_samples ") + n, true, [mk_](int id) { return api::mkernel_mesh2d_refine_based_on_samples(id, samples(), 1.0, 1, mk_()); });
            };
            rp("0 iterations", [](auto& p) { p.max_num_refinement_iterations = 0; });
            rp("min edge 0", [](auto& p) { p.min_edge_size = 0; });
            rp("type 7", [](auto& p) { p.refinement_type = 7; });
            rp("intersected 2", [](auto& p) { p.refine_intersected = 2; });
            auto op = [&](const char* n, std::function<void(M::OrthogonalizationParameters&)> f) {
                auto mk_ = [f] { auto p = ops::orthoPar(); f(p); return p; };
                add(std::string("compute_orthogonalization ") + n, true, [mk_](int id) { return api::mkernel_mesh2d_compute_orthogonalization(id, 0, mk_(), Geo(), Geo()); });
                add(std::string("curvilinear_initialize_orthogonalize ") + n, true, [mk_](int id) { return api::mkernel_curvilinear_initialize_orthogonalize(id, mk_()); });
            };
            op("outer 0", [](auto& p) { p.outer_iterations = 0; });
            op("inner -1", [](auto& p) { p.inner_iterations = -1; });
            op("factor 1.5", [](auto& p) { p.orthogonalization_to_smoothing_factor = 1.5; });
            add("make_rectangular_mesh_from_polygon open", true, [](int id) { M::MakeGridParameters p; p.block_size_x = 5; p.block_size_y = 5; return api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, p, open3()); });
            add("curvilinear rectangular_grid_from_polygon open", true, [](int id) { M::MakeGridParameters p; p.block_size_x = 5; p.block_size_y = 5; return api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, p, open3()); });
            add("make_triangular_mesh_from_polygon two points", true, [](int id) { return api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, two()); });
            add("make_triangular_mesh_from_polygon open", true, [](int id) { return api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, open3()); });
            add("make_triangular_mesh_from_samples two points", true, [](int id) { return api::mkernel_mesh2d_make_triangular_mesh_from_samples(id, two()); });
            add("mesh2d_delete two-point polygon", true, [](int id) { return api::mkernel_mesh2d_delete(id, two(), 0, 0); });
            add("mesh2d_delete open polygon", true, [](int id) { return api::mkernel_mesh2d_delete(id, open3(), 0, 0); });
            add("merge_nodes open polygon", true, [](int id) { return api::mkernel_mesh2d_merge_nodes(id, open3()); });
            add("refine_based_on_polygon open polygon", true, [](int id) { return api::mkernel_mesh2d_refine_based_on_polygon(id, open3(), ops::refPar()); });
            add("casulli_refinement open polygon", true, [](int id) { return api::mkernel_mesh2d_casulli_refinement_on_polygon(id, open3()); });
            add("flip_edges open polygon", true, [](int id) { return api::mkernel_mesh2d_flip_edges(id, 1, 0, open3(), Geo()); });
            add("orthogonalization open polygon", true, [](int id) { return api::mkernel_mesh2d_compute_orthogonalization(id, 0, ops::orthoPar(), open3(), Geo()); });
            add("count_nodes_in_polygons open polygon", true, [](int id) { int n; return api::mkernel_mesh2d_count_nodes_in_polygons(id, open3(), 1, n); });
            add("contacts with open polygon", true, [](int id) { return api::mkernel_contacts_compute_with_polygons(id, ones().data(), open3()); });
            add("network1d_to_mesh1d negative", false, [](int id) { return api::mkernel_network1d_to_mesh1d(id, -1); });
            add("network1d offset 0", true, [](int id) { return api::mkernel_network1d_compute_offsetted_chainages(id, 0); });
            add("network1d offset -1", true, [](int id) { return api::mkernel_network1d_compute_offsetted_chainages(id, -1); });
            add("network1d fixed chainages wrong number of lines", true, [](int id) { double c[9] = {1, -999, 2, -999, 3, -999, 4, -999, 5}; return api::mkernel_network1d_compute_fixed_chainages(id, c, 9, 0.1, 1); });
            add("mesh2d_make_global on cartesian", true, [](int id) { return api::mkernel_mesh2d_make_global(id, 8, 6); });
            add("mesh2d_get_node_index nothing near", false, [](int id) { int n; return api::mkernel_mesh2d_get_node_index(id, 1e6, 1e6, 0.1, -1e9, -1e9, 1e9, 1e9, n); });
            add("mesh2d_get_closest_node nothing near", false, [](int id) { double x, y; return api::mkernel_mesh2d_get_closest_node(id, 1e6, 1e6, 0.1, -1e9, -1e9, 1e9, 1e9, x, y); });
            add("mesh2d_get_node_edge_data null", true, [](int id) { api::Mesh2D m; return api::mkernel_mesh2d_get_node_edge_data(id, m); });
            add("mesh2d_get_orthogonality wrong size", true, [](int id) { Geo o = Geo::sized(3); return api::mkernel_mesh2d_get_orthogonality(id, o); });
            add("averaging 0 samples", true, [](int id) { M2 m; getM2(id, m); Geo o = Geo::sized(m.nn()); return api::mkernel_mesh2d_averaging_interpolation(id, Geo(), 1, 1, 1.5, 1, o); });
            add("triangulation 0 samples", true, [](int id) { M2 m; getM2(id, m); Geo o = Geo::sized(m.nn()); return api::mkernel_mesh2d_triangulation_interpolation(id, Geo(), 1, o); });
            add("refine samples 0 samples", true, [](int id) { return api::mkernel_mesh2d_refine_based_on_samples(id, Geo(), 1.0, 1, ops::refPar()); });
            add("grid from one spline", true, [](int id) { Geo g; g.add(0, 0); g.add(10, 0); return api::mkernel_curvilinear_compute_grid_from_splines(id, g, cpar()); });
            add("transfinite from two parallel splines", true, [](int id) { Geo g; g.add(0, 0); g.add(10, 0); g.sep(); g.add(0, 5); g.add(10, 5); return api::mkernel_curvilinear_compute_transfinite_from_splines(id, g, cpar()); });
            add("orthogonal grid from no splines", true, [](int id) { return api::mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, Geo(), cpar(), spar()); });
            add("orthogonal splines bad parameter", true, [](int id) { auto s = spar(); s.aspect_ratio = -1; return api::mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, splineCross(), cpar(), s); });
            add("curvilinear parameters bad", true, [](int id) { auto c = cpar(); c.m_refinement = 0; return api::mkernel_curvilinear_compute_transfinite_from_splines(id, splines4(), c); });
            add("boundary polygons bad block", true, [](int id) { int n; return api::mkernel_curvilinear_count_boundaries_as_polygons(id, 0, 0, 50, 50, n); });
            add("polygon snap index 99", true, [](int id) { Geo l; l.add(-1, -1); l.add(12, -1.5); Geo p = rect(0, 0, 10, 10); return api::mkernel_polygon_snap_to_landboundary(id, l, p, 0, 99); });
            add("splines snap index 99", true, [](int id) { Geo l; l.add(-1, -1); l.add(12, -1.5); Geo p; p.add(0, 0); p.add(5, 0.5); p.add(10, 0); return api::mkernel_splines_snap_to_landboundary(id, l, p, 0, 99); });
            add("insert_edge_from_coordinates coinciding", false, [](int id) { int a, b, c; return api::mkernel_mesh2d_insert_edge_from_coordinates(id, 5, 5, 5, 5, a, b, c); });
            add("convert_to_curvilinear outside", true, [](int id) { return api::mkernel_mesh2d_convert_to_curvilinear(id, -500, -500); });
            add("merge distance negative", false, [](int id) { return api::mkernel_mesh2d_merge_nodes_with_merging_distance(id, Geo(), -1); });
            add("convert_projection bad string", true, [](int id) { return api::mkernel_mesh2d_convert_projection(id, 1, "+proj=nonsense"); });
            add("linear refine bad indices", true, [](int id) { Geo o = Geo::sized(50); return api::mkernel_polygon_linear_refine(id, rect(0, 0, 10, 10), 2, 50, o); });
            return r; }();
        return v;
    }
    void counts(int* c) { api::mkernel_undo_state_count(c[0], c[1]); }
    struct World { int A, B; Snap sa, sb; int c[2]; };
    void freeze(World& w) { w.sa = csnap(w.A); w.sb = csnap(w.B); counts(w.c); }
    void unchanged(Run& r, World& w, const std::string& key)
    {
        int c[2]; counts(c);
        r.check(c[0] == w.c[0] && c[1] == w.c[1], "history:" + key, fmt("a failed call changed the undo history: (%d,%d) -> (%d,%d)", w.c[0], w.c[1], c[0], c[1]));
        auto d = diff(w.sa, csnap(w.A)); r.check(d.empty(), "changed:" + key, "a failed call changed the state: " + d);
        d = diff(w.sb, csnap(w.B)); r.check(d.empty(), "changed-other:" + key, "a failed call changed another state: " + d);
    }
    void build(int which, int id)
    {
        switch (which)
        {
        case 0: ops::buildBase(id); break;
        case 1: break; // empty
        case 2: setMesh2(id, ops::baseMesh()); break;
        case 3: setMesh1(id, ops::line1d(), {{0, 1}, {1, 2}, {2, 3}, {3, 4}}); break;
        case 4: setCG(id, 5, 5, ops::gridNodes(5, 5, 10, 1.0)); break;
        case 5: ops::buildBase(id); csnap(id); api::mkernel_mesh2d_delete_node(id, 5); api::mkernel_curvilinear_delete_node(id, 100, 100); break;
        case 6: { ops::buildBase(id); csnap(id); api::mkernel_mesh2d_delete_node(id, 5); bool u; int x; api::mkernel_undo_state(u, x); break; }
        case 7: setMesh2(id, {{0, 0}, {10, 0}}, {{0, 1}}); setCG(id, 2, 2, ops::gridNodes(2, 2, 10, 0)); setMesh1(id, {{0, 0}, {1, 1}}, {{0, 1}}); break;
        case 8: ops::buildBase(id); api::mkernel_deallocate_state(id); break;
        case 9: setMesh2(id, trigrid(2, 2, 10, 10)); break;
        }
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        World w{};
        if (sc == 0)
        { // unknown ids
            int k = r.choose((int)everything().size(), "call"), idk = r.choose(5, "id");
            r.shard();
            reset(); w.A = alloc(0); w.B = alloc(0); int C = alloc(0); ops::buildBase(w.A); ops::buildBase(w.B); ops::buildBase(C);
            api::mkernel_expunge_state(C);
            int bad_[] = {-1, C, C + 1, 2147483647, -999};
            int id = bad_[idk];
            freeze(w);
            auto& c = everything()[k]; std::string key = c.name + fmt("@id%d", idk);
            int rc = c.run(id); r.step(); r.note(key + fmt(" -> %d %s", rc, rc ? lastError().c_str() : ""));
            r.check(rc != 0, "accepted:" + key, "a call on a state that does not exist succeeds");
            r.check(!lastError().empty(), "message:" + key, "no error message");
            bool ok = true; api::mkernel_is_valid_state(id, ok); r.check(!ok, "created:" + key, "the failed call created a state");
            unchanged(r, w, key);
        }
        else if (sc == 1)
        { // well-formed calls on states that may lack what they need
            int k = r.choose((int)everything().size(), "call"), s = r.choose(10, "state");
            r.shard();
            reset(); w.A = alloc(0); w.B = alloc(0); build(s, w.A); ops::buildBase(w.B);
            freeze(w);
            auto& c = everything()[k]; std::string key = c.name + fmt("@s%d", s);
            int rc = c.run(w.A); r.step(); r.note(key + fmt(" -> %d %s", rc, rc ? lastError().c_str() : ""));
            if (rc != 0) { r.check(!lastError().empty(), "message:" + key, "no error message"); unchanged(r, w, key); }
            else if (c.name != "expunge_state") { auto v = validateM2(csnap(w.A).m2); r.check(v.empty(), "invalid:" + key, v); }
            r.outcome(rc * 1000 + k);
            if (c.name != "expunge_state") r.state(hash(csnap(w.A)));
        }
        else
        { // arguments outside their domain
            int k = r.choose((int)bad().size(), "call"), s = r.choose(10, "state"), p = r.choose(r.thorough() ? 2 : 1, "projection");
            r.shard();
            reset(); w.A = alloc(p); w.B = alloc(0); build(s, w.A); ops::buildBase(w.B);
            freeze(w);
            auto& c = bad()[k]; std::string key = c.name + fmt("@s%d", s);
            int rc = c.run(w.A); r.step(); r.note(key + fmt(" -> %d %s", rc, rc ? lastError().c_str() : ""));
            if (c.mustFail && (s == 0 || s == 5 || s == 6)) r.check(rc != 0, "accepted:" + c.name, "arguments outside the documented domain are accepted (state " + std::to_string(s) + ")");
            if (rc != 0) { r.check(!lastError().empty(), "message:" + key, "no error message"); unchanged(r, w, key); }
            r.outcome(rc * 1000 + k);
        }
    }
}
MC_MAIN(body)
