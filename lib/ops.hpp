// The alphabet: every state-changing call of the C API with small argument domains on a tiny base world.
#pragma once
#include "mk.hpp"

namespace ops
{
    using namespace mk;
    namespace M = meshkernel;
    enum Group { MESH2D, CURVI, ONED, CONTACT, LIFE };
    struct Op
    {
        std::string name;
        Group group;
        std::function<int(int)> run;
        bool core;      // part of the quick alphabets
        std::string fam; // API function (identifies the call in findings)
    };

    inline MeshIn baseMesh() { return grid(3, 3, 10, 10); }
    inline std::vector<P> gridNodes(int n, int m, double d = 10, double sk = 0.0)
    {
        std::vector<P> r;
        for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r.push_back({100 + j * d + sk * i, 100 + i * d + 0.5 * sk * j});
        return r;
    }
    inline std::vector<P> line1d() { return {{2, 3}, {9, 8}, {16, 14}, {23, 22}, {28, 27}}; }
    inline Geo rect(double x0, double y0, double x1, double y1) { return Geo(std::vector<P>{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}, {x0, y0}}); }

    // base world inside one state
    inline int buildBase(int id)
    {
        int rc = setMesh2(id, baseMesh());
        rc |= setMesh1(id, line1d(), {{0, 1}, {1, 2}, {2, 3}, {3, 4}});
        rc |= setCG(id, 5, 5, gridNodes(5, 5, 10, 1.0));
        Geo net; net.add(0, 0); net.add(50, 0); net.add(50, 40); net.sep(); net.add(50, 40); net.add(90, 70);
        rc |= api::mkernel_network1d_set(id, net);
        return rc;
    }

    inline M::OrthogonalizationParameters orthoPar()
    {
        M::OrthogonalizationParameters p; p.outer_iterations = 1; p.boundary_iterations = 2; p.inner_iterations = 2; return p;
    }
    inline M::MeshRefinementParameters refPar(int type = 2)
    {
        M::MeshRefinementParameters p; p.max_num_refinement_iterations = 1; p.refine_intersected = 0; p.min_edge_size = 0.01; p.refinement_type = type; p.connect_hanging_nodes = 1;
        p.smoothing_iterations = 0; return p;
    }

    inline std::vector<Op> all()
    {
        std::vector<Op> v;
        auto add = [&](const char* n, Group g, bool core, std::function<int(int)> f)
        {
            std::string s = n; auto k = s.find('/');
            v.push_back({s, g, std::move(f), core, s.substr(0, k)});
        };
        // ---- mesh2d ----
        add("mesh2d_insert_edge/diag", MESH2D, true, [](int id) { int e; return api::mkernel_mesh2d_insert_edge(id, 0, 5, e); });
        add("mesh2d_delete_node/5", MESH2D, true, [](int id) { return api::mkernel_mesh2d_delete_node(id, 5); });
        add("mesh2d_merge_two_nodes/9-10", MESH2D, true, [](int id) { return api::mkernel_mesh2d_merge_two_nodes(id, 9, 10); });
        add("mesh2d_move_node/6", MESH2D, true, [](int id) { return api::mkernel_mesh2d_move_node(id, 21, 12, 6); });
        add("mesh2d_delete/sub", MESH2D, true, [](int id) { return api::mkernel_mesh2d_delete(id, rect(-1, -1, 11, 11), 1, 0); });
        add("mesh2d_translate", MESH2D, true, [](int id) { return api::mkernel_mesh2d_translate(id, 5.5, -3.25); });
        add("mesh2d_insert_edge_from_coordinates", MESH2D, true, [](int id) { int a, b, c; return api::mkernel_mesh2d_insert_edge_from_coordinates(id, 30, 30, 42, 33, a, b, c); });
        add("mesh2d_casulli_refinement", MESH2D, true, [](int id) { return api::mkernel_mesh2d_casulli_refinement(id); });
        add("mesh2d_set", MESH2D, true, [](int id) { return setMesh2(id, trigrid(2, 2, 10, 10)); });
        add("mesh2d_add", MESH2D, true, [](int id) { return addMesh2(id, grid(1, 1, 10, 10, 60, 0)); });
        add("mesh2d_rotate", MESH2D, false, [](int id) { return api::mkernel_mesh2d_rotate(id, 1, 2, 30); });
        add("mesh2d_delete_edge", MESH2D, true, [](int id) { return api::mkernel_mesh2d_delete_edge(id, 15, 10, -1e5, -1e5, 1e5, 1e5); });
        add("mesh2d_delete_edge_by_index/4", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete_edge_by_index(id, 4); });
        add("mesh2d_delete_edge_by_index/0", MESH2D, true, [](int id) { return api::mkernel_mesh2d_delete_edge_by_index(id, 0); });
        add("mesh2d_delete_edge_by_index/12", MESH2D, true, [](int id) { return api::mkernel_mesh2d_delete_edge_by_index(id, 12); });
        add("mesh2d_delete_node/0", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete_node(id, 0); });
        add("mesh2d_delete_hanging_edges", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete_hanging_edges(id); });
        add("mesh2d_merge_nodes", MESH2D, false, [](int id) { return api::mkernel_mesh2d_merge_nodes(id, rect(-1, -1, 41, 41)); });
        add("mesh2d_merge_nodes_with_merging_distance", MESH2D, false, [](int id) { return api::mkernel_mesh2d_merge_nodes_with_merging_distance(id, rect(-1, -1, 15, 15), 10.5); });
        add("mesh2d_delete/all-in", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete(id, rect(-1, -1, 15, 15), 0, 0); });
        add("mesh2d_delete/inverted", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete(id, rect(-1, -1, 21, 21), 2, 1); });
        add("mesh2d_refine_based_on_polygon", MESH2D, true, [](int id) { return api::mkernel_mesh2d_refine_based_on_polygon(id, rect(-1, -1, 15, 15), refPar()); });
        add("mesh2d_refine_based_on_samples", MESH2D, false, [](int id) { Geo s; s.add(5, 5, 1); s.add(6, 6, 1); return api::mkernel_mesh2d_refine_based_on_samples(id, s, 1.0, 1, refPar(2)); });
        add("mesh2d_casulli_refinement_on_polygon", MESH2D, false, [](int id) { return api::mkernel_mesh2d_casulli_refinement_on_polygon(id, rect(-1, -1, 21, 21)); });
        add("mesh2d_casulli_derefinement", MESH2D, true, [](int id) { return api::mkernel_mesh2d_casulli_derefinement(id); });
        add("mesh2d_casulli_derefinement_on_polygon", MESH2D, false, [](int id) { return api::mkernel_mesh2d_casulli_derefinement_on_polygon(id, rect(-1, -1, 31, 31)); });
        add("mesh2d_compute_orthogonalization", MESH2D, false, [](int id) { return api::mkernel_mesh2d_compute_orthogonalization(id, 0, orthoPar(), Geo(), Geo()); });
        add("mesh2d_flip_edges", MESH2D, true, [](int id) { return api::mkernel_mesh2d_flip_edges(id, 1, 0, Geo(), Geo()); });
        add("mesh2d_make_rectangular_mesh", MESH2D, false, [](int id) { M::MakeGridParameters p; p.num_columns = 2; p.num_rows = 1; return api::mkernel_mesh2d_make_rectangular_mesh(id, p); });
        add("mesh2d_make_rectangular_mesh_from_polygon", MESH2D, false, [](int id) { M::MakeGridParameters p; p.block_size_x = 5; p.block_size_y = 5; return api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, p, rect(0, 0, 12, 12)); });
        add("mesh2d_make_rectangular_mesh_on_extension", MESH2D, false, [](int id) { M::MakeGridParameters p; p.origin_x = 0; p.origin_y = 0; p.block_size_x = 10; p.block_size_y = 10; p.upper_right_x = 20; p.upper_right_y = 20; return api::mkernel_mesh2d_make_rectangular_mesh_on_extension(id, p); });
        add("mesh2d_make_triangular_mesh_from_polygon", MESH2D, false, [](int id) { return api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, rect(0, 0, 10, 10)); });
        add("mesh2d_make_triangular_mesh_from_samples", MESH2D, false, [](int id) { Geo s; s.add(0, 0); s.add(10, 1); s.add(11, 9); s.add(2, 10); s.add(5, 5); return api::mkernel_mesh2d_make_triangular_mesh_from_samples(id, s); });
        add("mesh2d_connect_meshes", MESH2D, true, [](int id) { return connectMesh2(id, grid(2, 3, 10, 10, 30, 0), 0.1); });
        add("mesh2d_split_row", MESH2D, false, [](int id) { return api::mkernel_mesh2d_split_row(id, 5, 9); });
        add("mesh2d_remove_disconnected_regions", MESH2D, false, [](int id) { return api::mkernel_mesh2d_remove_disconnected_regions(id); });
        add("mesh2d_delete_small_flow_edges_and_small_triangles", MESH2D, false, [](int id) { return api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, 1.0, 0.2); });
        add("mesh2d_snap_to_landboundary", MESH2D, true, [](int id) { Geo l; l.add(-1, -2); l.add(40, -2); return api::mkernel_mesh2d_snap_to_landboundary(id, rect(-1, -1, 31, 5), l); });
        add("mesh2d_convert_projection", MESH2D, false, [](int id) { return api::mkernel_mesh2d_convert_projection(id, 1, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"); });
        add("mesh2d_convert_to_curvilinear", MESH2D, false, [](int id) { return api::mkernel_mesh2d_convert_to_curvilinear(id, 5, 5); });
        add("mesh2d_insert_node", MESH2D, false, [](int id) { int n; return api::mkernel_mesh2d_insert_node(id, 77, 78, n); });
        // ---- curvilinear ----
        add("curvilinear_move_node", CURVI, true, [](int id) { return api::mkernel_curvilinear_move_node(id, 111, 110.5, 113, 112); });
        add("curvilinear_refine", CURVI, true, [](int id) { return api::mkernel_curvilinear_refine(id, 111, 110.5, 131, 111.5, 2); });
        add("curvilinear_derefine", CURVI, true, [](int id) { return api::mkernel_curvilinear_derefine(id, 110, 100.5, 130, 101.5); });
        add("curvilinear_full_refine", CURVI, true, [](int id) { return api::mkernel_curvilinear_full_refine(id, 2, 3); });
        add("curvilinear_delete_node", CURVI, true, [](int id) { return api::mkernel_curvilinear_delete_node(id, 100, 100); });
        add("curvilinear_delete_interior", CURVI, true, [](int id) { return api::mkernel_curvilinear_delete_interior(id, 111, 110.5, 133, 131.5); });
        add("curvilinear_delete_exterior", CURVI, false, [](int id) { return api::mkernel_curvilinear_delete_exterior(id, 111, 110.5, 133, 131.5); });
        add("curvilinear_insert_face", CURVI, true, [](int id) { return api::mkernel_curvilinear_insert_face(id, 115, 95); });
        add("curvilinear_smoothing", CURVI, false, [](int id) { return api::mkernel_curvilinear_smoothing(id, 2, 100, 100, 144, 142); });
        add("curvilinear_smoothing_directional", CURVI, false, [](int id) { return api::mkernel_curvilinear_smoothing_directional(id, 2, 100, 100, 104, 140, 100, 100, 144, 142); });
        add("curvilinear_line_attraction_repulsion", CURVI, true, [](int id) { return api::mkernel_curvilinear_line_attraction_repulsion(id, 0.5, 122, 121, 122 - 2, 101, 100, 100, 144, 142); });
        add("curvilinear_line_mirror", CURVI, true, [](int id) { return api::mkernel_curvilinear_line_mirror(id, 1.2, 100, 100, 104, 140); });
        add("curvilinear_compute_rectangular_grid", CURVI, false, [](int id) { M::MakeGridParameters p; p.num_columns = 2; p.num_rows = 1; return api::mkernel_curvilinear_compute_rectangular_grid(id, p); });
        add("curvilinear_compute_rectangular_grid_from_polygon", CURVI, false, [](int id) { M::MakeGridParameters p; p.block_size_x = 5; p.block_size_y = 5; return api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, p, rect(0, 0, 12, 12)); });
        add("curvilinear_compute_rectangular_grid_on_extension", CURVI, false, [](int id) { M::MakeGridParameters p; p.block_size_x = 10; p.block_size_y = 10; p.upper_right_x = 20; p.upper_right_y = 20; return api::mkernel_curvilinear_compute_rectangular_grid_on_extension(id, p); });
        add("curvilinear_compute_circular_grid", CURVI, true, [](int id) { M::MakeGridParameters p; p.num_columns = 4; p.num_rows = 3; p.radius_curvature = 0; return api::mkernel_curvilinear_compute_circular_grid(id, p); });
        add("curvilinear_set", CURVI, true, [](int id) { return setCG(id, 2, 3, gridNodes(2, 3)); });
        add("curvilinear_convert_to_mesh2d", CURVI, false, [](int id) { return api::mkernel_curvilinear_convert_to_mesh2d(id); });
        add("curvilinear_orthogonalize", CURVI, false, [](int id)
            { int rc = api::mkernel_curvilinear_initialize_orthogonalize(id, orthoPar()); rc |= api::mkernel_curvilinear_set_block_orthogonalize(id, 100, 100, 144, 142); rc |= api::mkernel_curvilinear_orthogonalize(id); rc |= api::mkernel_curvilinear_finalize_orthogonalize(id); return rc; });
        add("curvilinear_line_shift", CURVI, false, [](int id)
            { int rc = api::mkernel_curvilinear_initialize_line_shift(id); rc |= api::mkernel_curvilinear_set_line_line_shift(id, 100, 100, 104, 140); rc |= api::mkernel_curvilinear_set_block_line_shift(id, 100, 100, 144, 142); rc |= api::mkernel_curvilinear_move_node_line_shift(id, 102, 120, 98, 121); rc |= api::mkernel_curvilinear_line_shift(id); rc |= api::mkernel_curvilinear_finalize_line_shift(id); return rc; });
        add("curvilinear_compute_transfinite_from_polygon", CURVI, false, [](int id) { Geo g(std::vector<P>{{0, 0}, {5, 0}, {10, 0}, {10, 5}, {10, 10}, {5, 10}, {0, 10}, {0, 5}, {0, 0}}); return api::mkernel_curvilinear_compute_transfinite_from_polygon(id, g, 0, 2, 4, 1); });
        add("curvilinear_compute_transfinite_from_triangle", CURVI, false, [](int id) { Geo g(std::vector<P>{{0, 0}, {5, 0}, {10, 0}, {7.5, 5}, {5, 10}, {2.5, 5}, {0, 0}}); return api::mkernel_curvilinear_compute_transfinite_from_triangle(id, g, 0, 2, 4); });
        add("curvilinear_snap_to_landboundary", CURVI, false, [](int id) { Geo l; l.add(90, 95); l.add(160, 97); return api::mkernel_curvilinear_snap_to_landboundary(id, l, 100, 100, 140, 102); });
        add("curvilinear_snap_to_spline", CURVI, false, [](int id) { Geo l; l.add(90, 95); l.add(125, 97); l.add(160, 97); return api::mkernel_curvilinear_snap_to_spline(id, l, 100, 100, 140, 102); });
        // ---- 1d ----
        add("mesh1d_set", ONED, true, [](int id) { return setMesh1(id, {{0, 0}, {4, 4}, {8, 4}}, {{0, 1}, {1, 2}}); });
        add("mesh1d_add", ONED, true, [](int id) { return setMesh1(id, {{40, 40}, {44, 44}}, {{0, 1}}, true); });
        add("network1d_set", ONED, true, [](int id) { Geo n; n.add(0, 0); n.add(30, 0); return api::mkernel_network1d_set(id, n); });
        add("network1d_compute_offsetted_chainages", ONED, true, [](int id) { return api::mkernel_network1d_compute_offsetted_chainages(id, 10); });
        add("network1d_to_mesh1d", ONED, true, [](int id) { return api::mkernel_network1d_to_mesh1d(id, 0.5); });
        // ---- contacts ----
        add("contacts_compute_single", CONTACT, true, [](int id) { M1 m; getM1(id, m); std::vector<int> k(m.nx.size() + 1, 1); return api::mkernel_contacts_compute_single(id, k.data(), Geo(), 0.0); });
        add("contacts_compute_multiple", CONTACT, false, [](int id) { M1 m; getM1(id, m); std::vector<int> k(m.nx.size() + 1, 1); return api::mkernel_contacts_compute_multiple(id, k.data()); });
        add("contacts_compute_with_points", CONTACT, false, [](int id) { M1 m; getM1(id, m); std::vector<int> k(m.nx.size() + 1, 1); Geo g; g.add(5, 5); g.add(25, 15); return api::mkernel_contacts_compute_with_points(id, k.data(), g); });
        add("contacts_compute_with_polygons", CONTACT, false, [](int id) { M1 m; getM1(id, m); std::vector<int> k(m.nx.size() + 1, 1); return api::mkernel_contacts_compute_with_polygons(id, k.data(), rect(0, 0, 20, 20)); });
        add("contacts_compute_boundary", CONTACT, false, [](int id) { M1 m; getM1(id, m); std::vector<int> k(m.nx.size() + 1, 1); return api::mkernel_contacts_compute_boundary(id, k.data(), rect(-5, -5, 35, 35), 200.0); });
        // ---- life cycle ----
        add("deallocate_state", LIFE, true, [](int id) { return api::mkernel_deallocate_state(id); });
        return v;
    }
}
