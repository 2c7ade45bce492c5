// One representative, well-formed invocation of every API function that takes a state id.
// run(id, h): performs the call; a query feeds everything it returns into *h.
#pragma once
#include "ops.hpp"
namespace calls
{
    using namespace mk;
    using ops::rect;
    namespace M = meshkernel;
    struct Call { std::string name; bool query; std::function<int(int, mc::Hash&)> run; };

    inline std::vector<int>& ones() { static std::vector<int> v(4096, 1); return v; }
    inline Geo samples() { Geo s; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) s.add(-3 + 9 * i + 0.3 * j, -2 + 9 * j + 0.2 * i, 1 + i + 2 * j); return s; }
    inline Geo splines4()
    {
        Geo g; auto sp = [&](P a, P b, P c) { if (!g.x.empty()) g.sep(); g.add(a.x, a.y); g.add(b.x, b.y); g.add(c.x, c.y); };
        sp({0, -5}, {0.5, 50}, {0, 105}); sp({100, -5}, {100.5, 50}, {100, 105}); sp({-5, 0}, {50, 0.5}, {105, 0}); sp({-5, 100}, {50, 100.5}, {105, 100});
        return g;
    }
    inline Geo splineCross()
    {
        Geo g; g.add(0, 0); g.add(50, 3); g.add(100, 0); g.sep(); g.add(20, -10); g.add(20, 10); g.sep(); g.add(80, -10); g.add(80, 10); return g;
    }
    inline M::CurvilinearParameters cpar() { M::CurvilinearParameters p; p.m_refinement = 4; p.n_refinement = 3; p.smoothing_iterations = 2; return p; }
    inline M::SplinesToCurvilinearParameters spar() { M::SplinesToCurvilinearParameters p; p.average_width = 20; p.aspect_ratio = 0.5; return p; }
    struct Gridded
    {
        std::vector<double> v; std::vector<float> f; api::GriddedSamples g;
        Gridded(int nx, int ny, double ox, double oy, double cs, std::function<double(int, int)> fn, bool isFloat = false)
        {
            g.num_x = nx; g.num_y = ny; g.x_origin = ox; g.y_origin = oy; g.cell_size = cs;
            for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { v.push_back(fn(i, j)); f.push_back((float)fn(i, j)); }
            int t; if (isFloat) { api::mkernel_get_interpolation_type_float(t); g.values = f.data(); } else { api::mkernel_get_interpolation_type_double(t); g.values = v.data(); }
            g.value_type = t;
        }
        Gridded(const Gridded&) = delete;
    };
    inline void hg(mc::Hash& h, const Geo& g) { h.vd(g.x); h.vd(g.y); h.vd(g.v); }
    inline api::BoundingBox bigBox() { api::BoundingBox b; b.xLowerLeft = -1e9; b.yLowerLeft = -1e9; b.xUpperRight = 1e9; b.yUpperRight = 1e9; return b; }

    inline std::vector<Call> all()
    {
        std::vector<Call> v;
        auto q = [&](const char* n, std::function<int(int, mc::Hash&)> f) { v.push_back({n, true, std::move(f)}); };
        auto w = [&](const char* n, std::function<int(int)> f) { v.push_back({n, false, [f](int id, mc::Hash&) { return f(id); }}); };
#define Q(n) q(#n, [](int id, mc::Hash& h) -> int { int rc = 0; (void)rc; (void)h;
#define W(n) w(#n, [](int id) -> int {
#define E_ });
        // ---- queries ----
        Q(mesh2d_get_dimensions) api::Mesh2D m; rc = api::mkernel_mesh2d_get_dimensions(id, m); h.i(m.num_nodes); h.i(m.num_edges); h.i(m.num_faces); h.i(m.num_face_nodes); h.i(m.num_valid_nodes); h.i(m.num_valid_edges); return rc; E_
        Q(mesh2d_get_data) M2 m; rc = getM2(id, m); if (rc) return rc; hash(h, m); h.vi(m.ef); h.vi(m.fe); h.vd(m.fx); h.vd(m.fy); h.vd(m.ex); h.vd(m.ey); return rc; E_
        Q(mesh2d_get_node_edge_data) api::Mesh2D m; rc = api::mkernel_mesh2d_get_dimensions(id, m); std::vector<double> x(m.num_nodes + 4), y(x), ex(m.num_edges + 4), ey(ex); std::vector<int> e(2 * m.num_edges + 4), ef(e); m.node_x = x.data(); m.node_y = y.data(); m.edge_nodes = e.data(); m.edge_x = ex.data(); m.edge_y = ey.data(); m.edge_faces = ef.data(); rc = api::mkernel_mesh2d_get_node_edge_data(id, m); h.vd(x); h.vd(y); h.vi(e); return rc; E_
        Q(mesh1d_get_dimensions) api::Mesh1D m{}; rc = api::mkernel_mesh1d_get_dimensions(id, m); h.i(m.num_nodes); h.i(m.num_edges); return rc; E_
        Q(mesh1d_get_data) M1 m; api::Mesh1D d{}; api::mkernel_mesh1d_get_dimensions(id, d); m.nx.assign(d.num_nodes + 4, 0); m.ny = m.nx; m.en.assign(2 * d.num_edges + 4, 0); d.node_x = m.nx.data(); d.node_y = m.ny.data(); d.edge_nodes = m.en.data(); rc = api::mkernel_mesh1d_get_data(id, d); h.vd(m.nx); h.vd(m.ny); h.vi(m.en); return rc; E_
        Q(curvilinear_get_dimensions) api::CurvilinearGrid g; rc = api::mkernel_curvilinear_get_dimensions(id, g); h.i(g.num_m); h.i(g.num_n); return rc; E_
        Q(curvilinear_get_data) api::CurvilinearGrid g; api::mkernel_curvilinear_get_dimensions(id, g); std::vector<double> x(g.num_m * g.num_n + 4), y(x); g.node_x = x.data(); g.node_y = y.data(); rc = api::mkernel_curvilinear_get_data(id, g); h.vd(x); h.vd(y); return rc; E_
        Q(contacts_get_dimensions) api::Contacts c{}; rc = api::mkernel_contacts_get_dimensions(id, c); h.i(c.num_contacts); return rc; E_
        Q(contacts_get_data) api::Contacts c{}; api::mkernel_contacts_get_dimensions(id, c); std::vector<int> a(c.num_contacts + 2), b(a); c.mesh1d_indices = a.data(); c.mesh2d_indices = b.data(); rc = api::mkernel_contacts_get_data(id, c); h.vi(a); h.vi(b); return rc; E_
        Q(get_projection) int p = -1; rc = api::mkernel_get_projection(id, p); h.i(p); return rc; E_
        Q(curvilinear_compute_curvature) CG g; getCG(id, g); std::vector<double> c(g.n * g.m + 8); for (int d = 0; d < 2; d++) rc |= api::mkernel_curvilinear_compute_curvature(id, d, c.data()), h.vd(c); return rc; E_
        Q(curvilinear_compute_smoothness) CG g; getCG(id, g); std::vector<double> c(g.n * g.m + 8); for (int d = 0; d < 2; d++) rc |= api::mkernel_curvilinear_compute_smoothness(id, d, c.data()), h.vd(c); return rc; E_
        Q(curvilinear_count_boundaries_as_polygons) int n = 0; rc = api::mkernel_curvilinear_count_boundaries_as_polygons(id, 0, 0, 3, 3, n); h.i(n); return rc; E_
        Q(curvilinear_get_boundaries_as_polygons) int n = 0; rc = api::mkernel_curvilinear_count_boundaries_as_polygons(id, 0, 0, 3, 3, n); Geo g = Geo::sized(n); rc = api::mkernel_curvilinear_get_boundaries_as_polygons(id, 0, 0, 3, 3, g); hg(h, g); return rc; E_
        Q(curvilinear_get_location_index) for (int t = 0; t < 3; t++) { int k = -1; rc |= api::mkernel_curvilinear_get_location_index(id, 113, 112, t, bigBox(), k); h.i(k); } return rc; E_
        Q(mesh2d_averaging_interpolation) for (int t = 0; t < 3; t++) { M2 m; getM2(id, m); int n = t == 0 ? m.nf() : t == 1 ? m.nn() : m.ne(); Geo o = Geo::sized(n); rc |= api::mkernel_mesh2d_averaging_interpolation(id, samples(), t, 1, 1.5, 1, o); hg(h, o); } return rc; E_
        Q(mesh2d_triangulation_interpolation) for (int t = 0; t < 3; t++) { M2 m; getM2(id, m); int n = t == 0 ? m.nf() : t == 1 ? m.nn() : m.ne(); Geo o = Geo::sized(n); rc |= api::mkernel_mesh2d_triangulation_interpolation(id, samples(), t, o); hg(h, o); } return rc; E_
        Q(mesh2d_casulli_derefinement_elements) M2 m; getM2(id, m); Geo o = Geo::sized(std::max(1, m.nf())); rc = api::mkernel_mesh2d_casulli_derefinement_elements(id, o); for (int i = 0; i < o.g.num_coordinates && i < (int)o.x.size(); i++) { h.d(o.x[i]); h.d(o.y[i]); } return rc; E_
        Q(mesh2d_casulli_derefinement_elements_on_polygon) M2 m; getM2(id, m); Geo o = Geo::sized(std::max(1, m.nf())); rc = api::mkernel_mesh2d_casulli_derefinement_elements_on_polygon(id, rect(-1, -1, 25, 25), o); for (int i = 0; i < o.g.num_coordinates && i < (int)o.x.size(); i++) { h.d(o.x[i]); h.d(o.y[i]); } return rc; E_
        Q(mesh2d_count_hanging_edges) int n = 0; rc = api::mkernel_mesh2d_count_hanging_edges(id, n); h.i(n); return rc; E_
        Q(mesh2d_get_hanging_edges) int n = 0; api::mkernel_mesh2d_count_hanging_edges(id, n); std::vector<int> e(n + 1); rc = api::mkernel_mesh2d_get_hanging_edges(id, e.data()); h.vi(e); return rc; E_
        Q(mesh2d_count_mesh_boundaries_as_polygons) int n = 0; rc = api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n); h.i(n); return rc; E_
        Q(mesh2d_get_mesh_boundaries_as_polygons) int n = 0; api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, n); Geo o = Geo::sized(n); rc = api::mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, o); hg(h, o); return rc; E_
        Q(mesh2d_count_nodes_in_polygons) for (int in = 0; in < 2; in++) { int n = 0; rc |= api::mkernel_mesh2d_count_nodes_in_polygons(id, rect(-1, -1, 15, 25), in, n); h.i(n); } return rc; E_
        Q(mesh2d_get_nodes_in_polygons) for (int in = 0; in < 2; in++) { int n = 0; api::mkernel_mesh2d_count_nodes_in_polygons(id, rect(-1, -1, 15, 25), in, n); std::vector<int> s(n + 1); rc |= api::mkernel_mesh2d_get_nodes_in_polygons(id, rect(-1, -1, 15, 25), in, s.data()); h.vi(s); } return rc; E_
        Q(mesh2d_count_obtuse_triangles) int n = 0; rc = api::mkernel_mesh2d_count_obtuse_triangles(id, n); h.i(n); return rc; E_
        Q(mesh2d_get_obtuse_triangles_mass_centers) int n = 0; api::mkernel_mesh2d_count_obtuse_triangles(id, n); Geo o = Geo::sized(n); rc = api::mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, o); hg(h, o); return rc; E_
        Q(mesh2d_count_small_flow_edge_centers) int n = 0; rc = api::mkernel_mesh2d_count_small_flow_edge_centers(id, 5.0, n); h.i(n); return rc; E_
        Q(mesh2d_get_small_flow_edge_centers) int n = 0; api::mkernel_mesh2d_count_small_flow_edge_centers(id, 5.0, n); Geo o = Geo::sized(n); rc = api::mkernel_mesh2d_get_small_flow_edge_centers(id, 5.0, o); hg(h, o); return rc; E_
        Q(mesh2d_get_closest_node) double x = 0, y = 0; rc = api::mkernel_mesh2d_get_closest_node(id, 12, 13, 8, -1e9, -1e9, 1e9, 1e9, x, y); h.d(x); h.d(y); return rc; E_
        Q(mesh2d_get_edge) int e = -1; rc = api::mkernel_mesh2d_get_edge(id, 15.5, 11, -1e9, -1e9, 1e9, 1e9, e); h.i(e); return rc; E_
        Q(mesh2d_get_node_index) int e = -1; rc = api::mkernel_mesh2d_get_node_index(id, 12, 13, 8, -1e9, -1e9, 1e9, 1e9, e); h.i(e); return rc; E_
        Q(mesh2d_get_location_index) for (int t = 0; t < 3; t++) { int k = -1; rc |= api::mkernel_mesh2d_get_location_index(id, 14, 17, t, bigBox(), k); h.i(k); } return rc; E_
        Q(mesh2d_get_face_polygons_dimension) for (int k = 3; k < 6; k++) { int n = 0; rc |= api::mkernel_mesh2d_get_face_polygons_dimension(id, k, n); h.i(n); } return rc; E_
        Q(mesh2d_get_face_polygons) for (int k = 3; k < 6; k++) { int n = 0; api::mkernel_mesh2d_get_face_polygons_dimension(id, k, n); Geo o = Geo::sized(n); rc |= api::mkernel_mesh2d_get_face_polygons(id, k, o); hg(h, o); } return rc; E_
        Q(mesh2d_get_filtered_face_polygons_dimension) int n = 0; rc = api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, 0.0, 1.0, n); h.i(n); return rc; E_
        Q(mesh2d_get_filtered_face_polygons) int n = 0; api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, 0, 0.0, 1.0, n); Geo o = Geo::sized(n); rc = api::mkernel_mesh2d_get_filtered_face_polygons(id, 0, 0.0, 1.0, o); hg(h, o); return rc; E_
        Q(mesh2d_get_orthogonality) M2 m; getM2(id, m); Geo o = Geo::sized(m.ne()); rc = api::mkernel_mesh2d_get_orthogonality(id, o); h.vd(o.v); return rc; E_
        Q(mesh2d_get_smoothness) M2 m; getM2(id, m); Geo o = Geo::sized(m.ne()); rc = api::mkernel_mesh2d_get_smoothness(id, o); h.vd(o.v); return rc; E_
        Q(mesh2d_get_property_dimension) for (int p = 0; p < 2; p++) { int n = 0; rc |= api::mkernel_mesh2d_get_property_dimension(id, p, n); h.i(n); } return rc; E_
        Q(mesh2d_get_property) for (int p = 0; p < 2; p++) { int n = 0; api::mkernel_mesh2d_get_property_dimension(id, p, n); Geo o = Geo::sized(std::max(0, n)); rc |= api::mkernel_mesh2d_get_property(id, p, o); h.vd(o.v); } return rc; E_
        Q(mesh2d_intersections_from_polygon) M2 m; getM2(id, m); size_t n = 4 * (m.ne() + 8) * 6; std::vector<int> a(n, -3), b(a), e(a), f(a), g(a), k(a); std::vector<double> c(n, -3), d(c); rc = api::mkernel_mesh2d_intersections_from_polygon(id, rect(-3, 4, 17, 26), a.data(), b.data(), c.data(), d.data(), e.data(), f.data(), g.data(), k.data()); h.vi(a); h.vi(b); h.vd(c); h.vd(d); h.vi(e); h.vi(f); h.vi(g); h.vi(k); return rc; E_
        Q(polygon_count_offset) int n = 0; rc = api::mkernel_polygon_count_offset(id, rect(0, 0, 10, 10), 0, 2.0, n); h.i(n); return rc; E_
        Q(polygon_get_offset) int n = 0; api::mkernel_polygon_count_offset(id, rect(0, 0, 10, 10), 0, 2.0, n); Geo o = Geo::sized(n); rc = api::mkernel_polygon_get_offset(id, rect(0, 0, 10, 10), 0, 2.0, o); hg(h, o); return rc; E_
        Q(polygon_count_refine) int n = 0; rc = api::mkernel_polygon_count_refine(id, rect(0, 0, 10, 10), 0, 2, 3.0, n); h.i(n); return rc; E_
        Q(polygon_refine) int n = 0; api::mkernel_polygon_count_refine(id, rect(0, 0, 10, 10), 0, 2, 3.0, n); Geo o = Geo::sized(n); rc = api::mkernel_polygon_refine(id, rect(0, 0, 10, 10), 0, 2, 3.0, o); hg(h, o); return rc; E_
        Q(polygon_count_linear_refine) Geo p(std::vector<P>{{0, 0}, {1, 0}, {10, 0}, {10, 10}, {0, 0}}); int n = 0; rc = api::mkernel_polygon_count_linear_refine(id, p, 0, 2, n); h.i(n); return rc; E_
        Q(polygon_linear_refine) Geo p(std::vector<P>{{0, 0}, {1, 0}, {10, 0}, {10, 10}, {0, 0}}); int n = 0; api::mkernel_polygon_count_linear_refine(id, p, 0, 2, n); Geo o = Geo::sized(n); rc = api::mkernel_polygon_linear_refine(id, p, 0, 2, o); hg(h, o); return rc; E_
        Q(polygon_get_included_points) Geo p(std::vector<P>{{1, 1}, {20, 1}, {5, 5}}); Geo o = Geo::sized(3); rc = api::mkernel_polygon_get_included_points(id, rect(0, 0, 10, 10), p, o); hg(h, o); return rc; E_
        Q(polygon_snap_to_landboundary) Geo l; l.add(-1, -1); l.add(12, -1.5); Geo p = rect(0, 0, 10, 10); rc = api::mkernel_polygon_snap_to_landboundary(id, l, p, 0, 1); hg(h, p); return rc; E_
        Q(splines_snap_to_landboundary) Geo l; l.add(-1, -1); l.add(12, -1.5); Geo p; p.add(0, 0); p.add(5, 0.5); p.add(10, 0); rc = api::mkernel_splines_snap_to_landboundary(id, l, p, 0, 2); hg(h, p); return rc; E_
        // ---- interactive algorithms and the remaining modifying calls not in ops::all ----
        W(mesh2d_insert_edge) int e; return api::mkernel_mesh2d_insert_edge(id, 0, 5, e); E_
        W(mesh2d_initialize_orthogonalization) auto p = ops::orthoPar(); return api::mkernel_mesh2d_initialize_orthogonalization(id, 0, p, Geo(), Geo()); E_
        W(mesh2d_prepare_outer_iteration_orthogonalization) return api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); E_
        W(mesh2d_compute_inner_ortogonalization_iteration) return api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); E_
        W(mesh2d_finalize_inner_ortogonalization_iteration) return api::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id); E_
        W(mesh2d_delete_orthogonalization) return api::mkernel_mesh2d_delete_orthogonalization(id); E_
        W(curvilinear_initialize_orthogonalize) return api::mkernel_curvilinear_initialize_orthogonalize(id, ops::orthoPar()); E_
        W(curvilinear_set_block_orthogonalize) return api::mkernel_curvilinear_set_block_orthogonalize(id, 100, 100, 144, 142); E_
        W(curvilinear_set_frozen_lines_orthogonalize) return api::mkernel_curvilinear_set_frozen_lines_orthogonalize(id, 102, 120, 142, 122); E_
        W(curvilinear_orthogonalize) return api::mkernel_curvilinear_orthogonalize(id); E_
        W(curvilinear_finalize_orthogonalize) return api::mkernel_curvilinear_finalize_orthogonalize(id); E_
        W(curvilinear_initialize_line_shift) return api::mkernel_curvilinear_initialize_line_shift(id); E_
        W(curvilinear_set_line_line_shift) return api::mkernel_curvilinear_set_line_line_shift(id, 100, 100, 104, 140); E_
        W(curvilinear_set_block_line_shift) return api::mkernel_curvilinear_set_block_line_shift(id, 100, 100, 144, 142); E_
        W(curvilinear_move_node_line_shift) return api::mkernel_curvilinear_move_node_line_shift(id, 102, 120, 98, 121); E_
        W(curvilinear_line_shift) return api::mkernel_curvilinear_line_shift(id); E_
        W(curvilinear_finalize_line_shift) return api::mkernel_curvilinear_finalize_line_shift(id); E_
        W(curvilinear_initialize_orthogonal_grid_from_splines) return api::mkernel_curvilinear_initialize_orthogonal_grid_from_splines(id, splineCross(), cpar(), spar()); E_
        W(curvilinear_iterate_orthogonal_grid_from_splines) return api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, 1); E_
        W(curvilinear_refresh_orthogonal_grid_from_splines) return api::mkernel_curvilinear_refresh_orthogonal_grid_from_splines(id); E_
        W(curvilinear_delete_orthogonal_grid_from_splines) return api::mkernel_curvilinear_delete_orthogonal_grid_from_splines(id); E_
        W(curvilinear_compute_orthogonal_grid_from_splines) return api::mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, splineCross(), cpar(), spar()); E_
        W(curvilinear_compute_grid_from_splines) return api::mkernel_curvilinear_compute_grid_from_splines(id, splines4(), cpar()); E_
        W(curvilinear_compute_transfinite_from_splines) return api::mkernel_curvilinear_compute_transfinite_from_splines(id, splines4(), cpar()); E_
        W(mesh2d_make_global) return api::mkernel_mesh2d_make_global(id, 8, 6); E_
        W(mesh2d_refine_based_on_gridded_samples) Gridded g(5, 5, -1, -1, 9, [](int i, int j) { return -0.05 * (1 + i + j); }); return api::mkernel_mesh2d_refine_based_on_gridded_samples(id, g.g, ops::refPar(1), true); E_
        W(mesh2d_refine_ridges_based_on_gridded_samples) Gridded g(5, 5, -1, -1, 9, [](int i, int j) { return (i - 2) * (i - 2) + 0.1 * j; }); return api::mkernel_mesh2d_refine_ridges_based_on_gridded_samples(id, g.g, 1.1, 1, 0, ops::refPar(3)); E_
        W(network1d_compute_fixed_chainages) double c[5] = {5, 10, -999, 7, 12}; return api::mkernel_network1d_compute_fixed_chainages(id, c, 5, 0.1, 1.0); E_
        W(contacts_set) int a[2] = {0, 1}, b[2] = {0, 0}; api::Contacts c{a, b, 2}; return api::mkernel_contacts_set(id, c); E_
        W(mesh2d_insert_edge_from_coordinates) int a, b, c; return api::mkernel_mesh2d_insert_edge_from_coordinates(id, 50, 50, 60, 50, a, b, c); E_
#undef Q
#undef W
#undef E_
        return v;
    }
}
