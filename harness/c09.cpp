// C09: refinement divides what was selected, keeps everything else, and leaves a conforming mesh covering the same area.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    namespace M = meshkernel;
    MeshIn base(int k)
    {
        MeshIn m;
        if (k == 0) m = grid(3, 3, 10, 10);
        else if (k == 1) { m = trigrid(3, 3, 10, 10, 0, 0, true); shear(m, 0.05, 0.02); }
        else if (k == 2) { m = grid(3, 3, 10, 10); m.e.erase(m.e.begin() + 4); m.e.push_back({5, 10}); static const double J[8] = {0.9, -0.8, 0.5, 1.1, -0.6, -1.0, 0.7, -0.4}; for (int i = 0; i < 16; i++) m.n[i] = m.n[i] + P{J[i % 7], J[(3 * i + 1) % 8]}; }         // a hexagon and two triangles
        else if (k == 3) { m = grid(4, 3, 8, 11); for (auto& p : m.n) p = {p.x + 0.11 * p.y, p.y - 0.07 * p.x}; m.e.push_back({1, 7}); } // quads and two triangles
        else { m = grid(3, 3, 10, 10); std::vector<int> p(16); for (int i = 0; i < 16; i++) p[i] = (i * 7 + 3) % 16; MeshIn q = m; for (int i = 0; i < 16; i++) q.n[p[i]] = m.n[i]; std::reverse(q.e.begin(), q.e.end()); for (auto& e : q.e) e = {p[e[1]], p[e[0]]}; m = q; }
        return m;
    }
    struct Case { M2 before, after; int levels = 1; bool connect = false; double minEdge = 0; std::vector<char> mustSplit, mayTouch; bool exact = false; int parts = 0, least = 0; bool spherical = false, massCentre = false; };
    // the faces that may be divided in one level: the selected ones, and repeatedly those with most sides halved
    std::vector<char> closure(const M2& m, std::vector<char> s)
    {
        auto F = m.faces();
        for (bool more = true; more;) { more = false; for (size_t f = 0; f < F.size(); f++) if (!s[f]) { int nb = 0; for (size_t g = 0; g < F.size(); g++) if (s[g]) { int n = 0; for (int i : F[f]) for (int j : F[g]) n += i == j; nb += n >= 2; } if (nb >= (F[f].size() > 4 ? 1 : 2)) s[f] = 1, more = true; } }
        return s;
    }
    // the faces that must be divided in one level: the selected ones, and repeatedly those left with at most one undivided side or too many nodes
    std::vector<char> needed(const M2& m, std::vector<char> s)
    {
        auto F = m.faces();
        for (bool more = true; more;) { more = false; for (size_t f = 0; f < F.size(); f++) if (!s[f]) { int nb = 0, n = (int)F[f].size(); for (size_t g = 0; g < F.size(); g++) if (s[g]) { int k = 0; for (int i : F[f]) for (int j : F[g]) k += i == j; nb += k == 2; } if (n - nb <= 1 || n + nb > 6) s[f] = 1, more = true; } }
        return s;
    }
    std::string judge(const Case& c)
    {
        const M2 &a = c.before, &b = c.after;
        std::string d = validateM2(b); if (!d.empty()) return d;
        for (int i = 0; i < a.nn(); i++) { if (!b.nodeOk(i)) return fmt("node %d has disappeared", i); if (dist(a.node(i), b.node(i)) > 1e-9) return fmt("node %d has moved", i); }
        if (getenv("DUMP")) { for (int k = 0; k < b.nn(); k++) printf("n%d(%.14g,%.14g) ", k, b.nx[k], b.ny[k]); puts(""); for (int e = 0; e < b.ne(); e++) printf("%d-%d ", b.en[2*e], b.en[2*e+1]); puts(""); }
        if (!ref::planar(b)) return "the mesh has crossing edges, coinciding nodes or nodes on edges";
        if (!c.spherical) { d = validateGeom(b); if (!d.empty()) return d; }
        if (std::fabs(meshArea(a) - meshArea(b)) > 1e-7 * meshArea(a)) return fmt("the area covered changed from %.12g to %.12g", meshArea(a), meshArea(b));
        auto FA = a.faces(), FB = b.faces(); std::vector<std::vector<P>> PA; for (auto& f : FA) PA.push_back(a.facePts(f));
        std::vector<std::vector<int>> sub(FA.size());
        for (size_t k = 0; k < FB.size(); k++)
        {
            auto pb = b.facePts(FB[k]); P ctr = centroid(pb); int home = -1;
            for (size_t f = 0; f < FA.size(); f++) { bool all = true; for (auto q : pb) if (pip(q, PA[f], 1e-7) < 0) { all = false; break; } if (all && pip(ctr, PA[f]) > 0) { home = (int)f; break; } }
            if (home < 0) return fmt("new face %zu around (%g,%g) is not part of one original face", k, ctr.x, ctr.y);
            sub[home].push_back((int)k);
            if (c.connect) for (size_t i = 0; i < pb.size(); i++)
            { // no hanging nodes: no straight angle that the original face did not have
                P u = pb[i], v = pb[(i + 1) % pb.size()], w = pb[(i + 2) % pb.size()];
                if (std::fabs(cross(v - u, w - v)) < 1e-7 * norm(v - u) * norm(w - v)) { bool had = false; for (auto q : PA[home]) if (dist(q, v) < 1e-9) had = true; if (!had) return fmt("a hanging node remains at (%g,%g)", v.x, v.y); }
            }
        }
        auto closed = closure(a, c.mustSplit), need = needed(a, c.mustSplit);
        auto has = [&](P p) { for (int i = 0; i < b.nn(); i++) if (b.nodeOk(i) && dist(b.node(i), p) < 1e-7) return true; return false; };
        auto E = ref::Mesh::from(b).edgeSet();
        for (size_t f = 0; f < FA.size(); f++)
        {
            if (c.mustSplit[f] == 1)
            {
                if (sub[f].size() < FA[f].size()) return fmt("face %zu is selected but was divided into %zu parts only", f, sub[f].size());
                for (size_t i = 0; i < FA[f].size(); i++)
                {
                    int p = FA[f][i], q = FA[f][(i + 1) % FA[f].size()];
                    if (!has(0.5 * (a.node(p) + a.node(q)))) return fmt("edge (%d,%d) of selected face %zu was not halved", p, q, f);
                    if (E.count(std::minmax({p, q}))) return fmt("edge (%d,%d) of selected face %zu still exists", p, q, f);
                }
                // one level: all parts have about the expected size
                if (c.levels == 1 && sub[f].size() > 2 * FA[f].size()) return fmt("face %zu was divided into %zu parts in one level", f, sub[f].size());
            }
            // a face that is not selected is divided only when most of its sides are
            if (c.exact && !closed[f] && !c.connect && sub[f].size() != 1) return fmt("face %zu is not selected but was divided into %zu parts", f, sub[f].size());
            if (c.exact && need[f] && sub[f].size() < FA[f].size()) return fmt("face %zu has at most one undivided side or too many nodes, but was divided into %zu parts only", f, sub[f].size());
            if (c.mustSplit[f] && (int)sub[f].size() < c.least) return fmt("face %zu was divided into %zu parts, at least %d are needed", f, sub[f].size(), c.least);
            if (c.parts && c.mustSplit[f] && !c.connect && (int)sub[f].size() != c.parts) return fmt("face %zu was divided into %zu parts, expected %d", f, sub[f].size(), c.parts);
            if (c.mustSplit[f] && c.levels == 1 && c.massCentre && !c.connect)
            { // one new node inside, at the mass centre; none in triangles
                int in = 0; P ctr = centroid(PA[f]); double tol = c.spherical ? 0.02 * std::sqrt(area(PA[f])) : 1e-6;
                for (int i = a.nn(); i < b.nn(); i++) if (b.nodeOk(i) && pip(b.node(i), PA[f], 1e-9) > 0) { in++; if (dist(b.node(i), ctr) > tol) return fmt("face %zu has a new node at (%.9g,%.9g), expected at its centre (%.9g,%.9g)", f, b.nx[i], b.ny[i], ctr.x, ctr.y); }
                if (in != (FA[f].size() > 3)) return fmt("face %zu has %d new nodes inside", f, in);
            }
            if (!c.mayTouch[f])
            {
                std::set<int> s(FA[f].begin(), FA[f].end());
                if (sub[f].size() != 1 || std::set<int>(FB[sub[f][0]].begin(), FB[sub[f][0]].end()) != s) return fmt("face %zu is far from the selection but was changed", f);
            }
        }
        // every new node is a dyadic point of an original edge or inside an original face
        for (int i = a.nn(); i < b.nn(); i++) if (b.nodeOk(i))
            for (int e = 0; e < a.ne(); e++) if (a.edgeOk(e))
            {
                P p = a.node(a.en[2 * e]), q = a.node(a.en[2 * e + 1]); if (segDist(b.node(i), p, q) > 1e-7) continue;
                double t = dist(p, b.node(i)) / dist(p, q) * (1 << c.levels); if (std::fabs(t - std::round(t)) > 1e-6) return fmt("node %d lies at fraction %g of edge %d", i, t / (1 << c.levels), e);
            }
        // no edge below the minimum that is not original
        return "";
    }
    // layers of faces around the marked ones (sharing a node)
    std::vector<char> grow(const M2& m, std::vector<char> s, int layers)
    {
        auto F = m.faces();
        for (int l = 0; l < layers; l++) { std::set<int> n; for (size_t f = 0; f < F.size(); f++) if (s[f]) n.insert(F[f].begin(), F[f].end()); for (size_t f = 0; f < F.size(); f++) for (int i : F[f]) if (n.count(i)) s[f] = 1; }
        return s;
    }
    int inside(P p, const std::vector<P>& r) { return pip(p, r, 1e-9); }
    void body(Run& r)
    {
        int sc = r.choose(9, "scenario"); reset(); int id = alloc(0); Case c; std::string key; bool wrap = false; // wrap: longitudes are judged in [180, 540)
        M::MeshRefinementParameters par; par.smoothing_iterations = 0; par.min_edge_size = 0.01; par.refinement_type = 2; par.max_courant_time = 120; par.account_for_samples_outside = 0; par.directional_refinement = 0; par.use_mass_center_when_refining = 1;
        auto finish = [&](int rc)
        {
            r.step(); r.check(rc == 0, "call:" + key, "refinement fails: " + lastError()); r.check(getM2(id, c.after) == 0, "read:" + key, "cannot be read"); r.validated++;
            Case w0 = c; if (wrap) for (M2* q : {&w0.before, &w0.after}) for (auto* v : {&q->nx, &q->ex, &q->fx}) for (auto& x : *v) if (x > -900) x = x < 180 ? x + 360 : x > 540 ? x - 360 : x;
            std::string d = judge(w0); r.check(d.empty(), key, d); mc::Hash h; hash(h, c.after); r.state(h.h); r.outcome(c.after.nf());
            // undo brings the original back
            bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); M2 w = c.before; canon(w); std::string dd = diff(w, o, 0); r.check(u && dd.empty(), "undo:" + key, "undoing the refinement: " + dd);
            api::mkernel_redo_state(u, uid); getM2(id, o); canon(o); w = c.after; canon(w); dd = diff(w, o, 0); r.check(u && dd.empty(), "redo:" + key, "redoing the refinement: " + dd);
        };
        auto unsupported = [&](int mesh) { if (mesh == 2 && par.connect_hanging_nodes) throw mc::Skip{}; }; // hanging nodes are connected in triangles and quadrilaterals only
        if (sc == 0 || sc == 3)
        { // polygons: all rectangles on a lattice, and triangles
            int mesh = r.choose(5, "mesh"); static const double L[6] = {-4.3, 5.1, 14.7, 25.2, 34.1, 44};
            std::vector<P> poly;
            if (sc == 0) { int a = r.choose(5, "x0"), b = 1 + r.choose(5, "x1"), d = r.choose(5, "y0"), e = 1 + r.choose(5, "y1"); if (b <= a || e <= d) throw mc::Skip{}; poly = {{L[a], L[d]}, {L[b], L[d]}, {L[b], L[e]}, {L[a], L[e]}}; }
            else { int a = r.choose(36, "p"), b = r.choose(36, "q"), d = r.choose(36, "s"); if (!(a < b && a < d && b != d)) throw mc::Skip{}; if (!r.thorough() && (a + b * 5 + d * 7) % 4) throw mc::Skip{}; auto pt = [&](int k) { return P{L[k % 6] + 0.3 * (k / 6), L[k / 6] - 0.2 * (k % 6)}; }; poly = {pt(a), pt(b), pt(d)}; if (area(poly) < 60) throw mc::Skip{}; }
            par.connect_hanging_nodes = r.choose(2, "connect hanging nodes"); par.refine_intersected = sc == 0 ? r.choose(2, "refine intersected") : 0; par.max_num_refinement_iterations = sc == 0 ? 1 + r.choose(r.thorough() ? 3 : 2, "levels") : 1; int me = sc == 0 ? r.choose(2, "minimum edge size") : 0; r.shard(); unsupported(mesh);
            par.min_edge_size = me ? 1000.0 : 0.01;
            MeshIn m = base(mesh); setMesh2(id, m); getM2(id, c.before); key = "polygon";
            c.levels = par.max_num_refinement_iterations; c.connect = par.connect_hanging_nodes; c.minEdge = par.min_edge_size;
            auto F = c.before.faces(); std::vector<char> touch(F.size(), 0); c.mustSplit.assign(F.size(), 0);
            // nodes in the polygon (or joined by an edge to one, if intersected faces count); a face is selected when one of
            // its nodes has only faces whose nodes are all in
            std::vector<char> in(c.before.nn(), 0), act; for (int i = 0; i < c.before.nn(); i++) { int s = inside(c.before.node(i), poly); if (s == 0) throw mc::Skip{}; in[i] = s > 0; }
            if (par.refine_intersected) { auto o = in; for (int e = 0; e < c.before.ne(); e++) { int a = c.before.en[2 * e], b = c.before.en[2 * e + 1]; if (o[a] || o[b]) in[a] = in[b] = 1; } }
            act = in; for (auto& f : F) { bool all = true; for (int i : f) if (!in[i]) all = false; if (!all) for (int i : f) act[i] = 0; }
            for (size_t f = 0; f < F.size(); f++) for (int i : F[f]) { if (act[i]) c.mustSplit[f] = 1; if (in[i]) touch[f] = 1; }
            if (me) { std::fill(c.mustSplit.begin(), c.mustSplit.end(), 0); std::fill(touch.begin(), touch.end(), 0); }
            c.mayTouch = me ? touch : grow(c.before, touch, c.levels); c.exact = !me && c.levels == 1; c.massCentre = !me;
            Geo g(poly); g.add(poly[0].x, poly[0].y);
            finish(api::mkernel_mesh2d_refine_based_on_polygon(id, g, par));
        }
        else if (sc == 1)
        { // one sample in every subset of the cells of a 3x3 grid: exactly those cells are refined
            int mask = r.choose(512, "cells with a sample"), mesh = r.choose(2, "mesh") ? 4 : 0; par.connect_hanging_nodes = r.choose(2, "connect hanging nodes"); par.max_num_refinement_iterations = 1 + r.choose(2, "levels"); int val = 1 + r.choose(2, "levels wanted"); r.shard();
            if (!mask) throw mc::Skip{};
            setMesh2(id, base(mesh)); getM2(id, c.before); auto F = c.before.faces(); key = "samples"; c.levels = par.max_num_refinement_iterations; c.connect = par.connect_hanging_nodes;
            Geo s; std::vector<char> touch(F.size(), 0); c.mustSplit.assign(F.size(), 0);
            // a value for every cell: the number of levels wanted there
            for (int k = 0; k < 9; k++) { P p{10.0 * (k % 3) + 5.2, 10.0 * (k / 3) + 4.7}; bool on = mask >> k & 1; s.add(p.x, p.y, on ? val : 0); for (size_t f = 0; f < F.size(); f++) if (on && pip(p, c.before.facePts(F[f])) > 0) c.mustSplit[f] = touch[f] = 1; }
            c.mayTouch = grow(c.before, touch, c.levels);
            int eff = std::min(val, c.levels); c.parts = eff == 1 ? 4 : 0; c.least = eff == 1 ? 4 : 7; c.exact = eff == 1;
            finish(api::mkernel_mesh2d_refine_based_on_samples(id, s, 1.0, 1, par));
        }
        else if (sc == 2)
        { // wave Courant refinement by gridded samples of every type: exactly the faces with too small a Courant number
            int mesh = r.choose(5, "mesh"); par.refinement_type = 1; par.connect_hanging_nodes = r.choose(2, "connect hanging nodes"); par.max_num_refinement_iterations = 1 + r.choose(3, "levels"); int nodal = r.choose(2, "nodal refinement"); int pat = r.choose(256, "depths"); int outside = r.choose(2, "samples outside"); static const double ME[3] = {0.5, 4.5, 5.7}; par.min_edge_size = ME[r.choose(3, "minimum edge size")]; int type = r.choose(4, "value type"), grd = r.choose(3, "grid of samples");
            if (type != (pat + mesh + nodal + par.max_num_refinement_iterations) % 4 || grd != (pat / 4 + pat + mesh) % 3) throw mc::Skip{}; // types and grids spread over the cases
            if (!r.thorough() && (pat * 7 + mesh + par.max_num_refinement_iterations * 3 + outside * 5) % 9) throw mc::Skip{};
            r.shard(); unsupported(mesh);
            par.account_for_samples_outside = outside; par.max_courant_time = 1.0; par.use_mass_center_when_refining = mesh == 0 || mesh == 4 ? 0 : 1;
            setMesh2(id, base(mesh)); getM2(id, c.before); key = "gridded"; c.levels = par.max_num_refinement_iterations; c.connect = par.connect_hanging_nodes; auto F = c.before.faces();
            static const double Z[4] = {-200, -1, -9, 3}; int nx = 5, ny = 6;
            std::vector<double> gx, gy, v; double ox = -5, oy = -7, cs = 12; static const double WX[5] = {-5, 3, 19, 30, 45}, WY[6] = {-7, -2, 14, 15, 33, 50};
            if (grd == 2) { ox = 13; oy = -7; } // the left part of the mesh is not covered
            for (int i = 0; i < nx; i++) gx.push_back(grd == 1 ? WX[i] : ox + i * cs);
            for (int i = 0; i < ny; i++) gy.push_back(grd == 1 ? WY[i] : oy + i * cs);
            for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) v.push_back(Z[pat >> (2 * ((i / 3) + 2 * (j / 3))) & 3]);
            std::vector<float> vf(v.begin(), v.end()); std::vector<short> vs(v.begin(), v.end()); std::vector<int> vi(v.begin(), v.end());
            api::GriddedSamples gs; gs.num_x = nx; gs.num_y = ny; gs.x_origin = ox; gs.y_origin = oy; gs.cell_size = cs; gs.x_coordinates = grd == 1 ? gx.data() : nullptr; gs.y_coordinates = grd == 1 ? gy.data() : nullptr;
            int t = 0; if (type == 0) { api::mkernel_get_interpolation_type_float(t); gs.values = vf.data(); } else if (type == 1) { api::mkernel_get_interpolation_type_double(t); gs.values = v.data(); } else if (type == 2) { api::mkernel_get_interpolation_type_short(t); gs.values = vs.data(); } else { api::mkernel_get_interpolation_type_int(t); gs.values = vi.data(); }
            gs.value_type = t;
            auto z = [&](P p, double& out) { int i = 0, j = 0; if (p.x < gx[0] || p.y < gy[0] || p.x >= gx[nx - 1] || p.y >= gy[ny - 1]) return false; while (p.x >= gx[i + 1]) i++; while (p.y >= gy[j + 1]) j++; double a = (p.x - gx[i]) / (gx[i + 1] - gx[i]), b = (p.y - gy[j]) / (gy[j + 1] - gy[j]); out = (1 - a) * (1 - b) * v[j * nx + i] + a * (1 - b) * v[j * nx + i + 1] + (1 - a) * b * v[(j + 1) * nx + i] + a * b * v[(j + 1) * nx + i + 1]; return true; };
            bool clear = true; auto near = [&](double u, double w) { if (std::fabs(u - w) < 1e-6) clear = false; };
            c.mustSplit.assign(F.size(), 0); bool judged = !(nodal && grd == 2);
            for (size_t f = 0; f < F.size() && judged; f++)
            {
                double zf = 0; bool have = z(centroid(c.before.facePts(F[f])), zf), all = have; double lo = 1e9, hi = -1e9; if (nodal) for (int i : F[f]) { double q = 0; z(c.before.node(i), q); lo = std::min(lo, q); hi = std::max(hi, q); } near(lo, 0); near(hi, 0);
                for (size_t i = 0; i < F[f].size() && all; i++)
                {
                    P p = c.before.node(F[f][i]), q = c.before.node(F[f][(i + 1) % F[f].size()]); double len = dist(p, q), depth = std::fabs(zf); near(len / 2, par.min_edge_size); if (len / 2 < par.min_edge_size) { all = false; break; }
                    if (nodal) { if (lo > 0) { all = false; break; } if (hi >= 0 && lo < 0) continue; double za = 0, zb = 0; z(p, za); z(q, zb); depth = std::fabs(0.5 * (za + zb)); }
                    double cr = std::sqrt(9.80665 * depth) / len; if (std::fabs(cr - 1) < 1e-3) clear = false; if (cr >= 1) all = false;
                }
                c.mustSplit[f] = all;
            }
            if (!clear) throw mc::Skip{};
            c.mayTouch.assign(F.size(), 1); if (c.levels == 1 && judged) { c.mayTouch = grow(c.before, closure(c.before, c.mustSplit), 1); c.exact = true; c.massCentre = mesh != 0 && mesh != 4; } else if (!judged) std::fill(c.mustSplit.begin(), c.mustSplit.end(), 0);
            finish(api::mkernel_mesh2d_refine_based_on_gridded_samples(id, gs, par, nodal));
        }
        else if (sc == 4)
        { // cells of different widths and heights: exactly the sides whose halves are not below the minimum are halved, at every level
            static const double W[3] = {4, 10, 24}; double w[3], h[3]; for (auto& q : w) q = W[r.choose(3, "width")]; for (auto& q : h) q = W[r.choose(3, "height")]; par.max_num_refinement_iterations = 1 + r.choose(3, "levels"); int conn = r.choose(2, "connect"), rot = r.choose(2, "renumbered"); r.shard();
            par.min_edge_size = 4; par.connect_hanging_nodes = conn; par.refine_intersected = 0; par.smoothing_iterations = 0; MeshIn m = grid(3, 3); double X[4] = {0}, Y[4] = {0}; for (int i = 0; i < 3; i++) { X[i + 1] = X[i] + w[i]; Y[i + 1] = Y[i] + h[i]; }
            for (int i = 0; i < 16; i++) m.n[i] = {X[i % 4], Y[i / 4]};
            if (rot) { std::vector<int> p(16); for (int i = 0; i < 16; i++) p[i] = (i * 11 + 5) % 16; MeshIn q = m; for (int i = 0; i < 16; i++) q.n[p[i]] = m.n[i]; for (auto& e : q.e) e = {p[e[1]], p[e[0]]}; std::rotate(q.e.begin(), q.e.begin() + 7, q.e.end()); m = q; }
            setMesh2(id, m); getM2(id, c.before); auto F = c.before.faces(); key = "sizes"; c.levels = par.max_num_refinement_iterations; c.mustSplit.assign(F.size(), 0); c.mayTouch.assign(F.size(), 1);
            auto parts = [&](double len) { int k = 1; for (int l = 0; l < c.levels && len / 2 >= 4; l++) { len /= 2; k *= 2; } return k; };
            int NX = 0, NY = 0; for (int i = 0; i < 3; i++) { NX += parts(w[i]); NY += parts(h[i]); }
            Geo g; g.add(-5, -5); g.add(99, -5); g.add(99, 99); g.add(-5, 99); g.add(-5, -5);
            int rc = api::mkernel_mesh2d_refine_based_on_polygon(id, g, par); M2 q; if (rc == 0) { getM2(id, q); r.check(q.nf() == NX * NY, "sizes", fmt("%d cells, expected %d x %d", q.nf(), NX, NY)); }
            finish(rc);
        }
        else if (sc == 5)
        { // smoothing: the selection grows by the cells beside it, once per iteration
            int k0 = r.choose(20, "cell"), k1 = r.choose(20, "other cell"), it = 1 + r.choose(3, "smoothing iterations"), mesh = r.choose(2, "triangles"), conn = r.choose(2, "connect"); if (k1 < k0) throw mc::Skip{}; for (int k : {k0, k1}) if (mesh && (k == 0 || k == 12 || k == 13)) throw mc::Skip{}; /* see the known finding below */ r.shard(); par.connect_hanging_nodes = conn; par.smoothing_iterations = it; par.max_num_refinement_iterations = 1;
            MeshIn m = grid(5, 4, 10, 10); if (mesh) { m.e.push_back({1, 6}); m.e.push_back({15, 20}); m.e.push_back({16, 21}); } setMesh2(id, m); getM2(id, c.before); auto F = c.before.faces(); key = "smoothing"; c.connect = conn; c.mustSplit.assign(F.size(), 0); Geo s;
            for (size_t f = 0; f < F.size(); f++) { P ctr = centroid(c.before.facePts(F[f])); int k = (int)(ctr.x / 10) + 5 * (int)(ctr.y / 10); bool on = k == k0 || k == k1; s.add(ctr.x + 0.1, ctr.y - 0.2, on ? 1 : 0); c.mustSplit[f] = on; }
            for (int l = 0; l < it; l++) { auto o = c.mustSplit; for (size_t f = 0; f < F.size(); f++) for (size_t g = 0; g < F.size(); g++) if (o[g]) { int n = 0; for (int i : F[f]) for (int j : F[g]) n += i == j; if (n >= 2) c.mustSplit[f] = 1; } }
            c.exact = true; c.massCentre = true; c.mayTouch = grow(c.before, closure(c.before, c.mustSplit), 1);
            finish(api::mkernel_mesh2d_refine_based_on_samples(id, s, 1.0, 1, par));
        }
        else if (sc == 8)
        { // known finding: two neighbouring cells with one sample each, close to their common edge; the second is not divided
            r.shard(); setMesh2(id, grid(2, 1, 10, 10)); getM2(id, c.before); par.max_num_refinement_iterations = 1; par.connect_hanging_nodes = 0; Geo s; s.add(9, 5, 1); s.add(11, 5, 1); c.mustSplit = {1, 1}; c.mayTouch = {1, 1}; c.exact = true;
            int rc = api::mkernel_mesh2d_refine_based_on_samples(id, s, 1.0, 1, par); key = "samples of two cells"; M2 q; getM2(id, q); r.check(!(rc == 0 && q.nf() == 5 && q.nn() == 11), "samples beside a common edge", "cell 1 of two is not divided, although a sample of level 1 lies in it at (11,5): dividing cell 0 used it up");
            finish(rc);
        }
        else if (sc == 6)
        { // ridges in gridded samples: divided near strong curvature only, and the same for the mirror image
            int shape = r.choose(5, "shape"), k = r.choose(7, "place"), it = r.choose(3, "smoothing of samples"), conn = r.choose(2, "connect"), mir = shape > 0 && shape <= 2 ? r.choose(4, "mirrored") : 0, lev = 1 + r.choose(2, "levels"), coords = r.choose(2, "coordinates given"); static const double AMP[3] = {-40, 40, 0.02}; double A = AMP[r.choose(3, "amplitude")]; r.shard();
            par.refinement_type = 3; par.min_edge_size = 1; par.connect_hanging_nodes = conn; par.max_num_refinement_iterations = lev; key = "ridges"; c.levels = lev; c.connect = conn;
            const int nx = 15, ny = 13; double ox = -5, oy = -5, cs = 5, LX = 60, LY = 50;
            auto field = [&](int i, int j) { double lin = 0.3 * i - 0.2 * j + 7; int q = 3 + k; if (shape == 0) return lin * A; if (shape == 1) return lin + (i == q ? A : 0); if (shape == 2) return lin + (j == q ? A : 0); if (shape == 3) return lin + (i == q && j == 10 - k ? A : 0); return lin + (i + j == 2 * q ? A : 0); };
            auto run = [&](int st, bool mx, bool my)
            {
                MeshIn m = grid(6, 5, 10, 10); for (auto& p : m.n) p = {mx ? LX - p.x : p.x, my ? LY - p.y : p.y};
                setMesh2(st, m); std::vector<double> v(nx * ny), gx(nx), gy(ny); for (int i = 0; i < nx; i++) gx[i] = ox + cs * i; for (int j = 0; j < ny; j++) gy[j] = oy + cs * j;
                for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) v[j * nx + i] = field(mx ? nx - 1 - i : i, my ? ny - 1 - j : j);
                api::GriddedSamples gs; gs.num_x = nx; gs.num_y = ny; gs.x_origin = coords ? 0 : ox; gs.y_origin = coords ? 0 : oy; gs.cell_size = cs; gs.x_coordinates = coords ? gx.data() : nullptr; gs.y_coordinates = coords ? gy.data() : nullptr; int t; api::mkernel_get_interpolation_type_double(t); gs.value_type = t; gs.values = v.data();
                if (st == id) getM2(id, c.before);
                return api::mkernel_mesh2d_refine_ridges_based_on_gridded_samples(st, gs, 1.01, 1, it, par);
            };
            int rc = run(id, false, false); auto F = c.before.faces(); c.mustSplit.assign(F.size(), 0); c.mayTouch.assign(F.size(), 0);
            if (shape > 0 && std::fabs(A) > 1) for (size_t f = 0; f < F.size(); f++)
            {
                P ctr = centroid(c.before.facePts(F[f])); bool must = false, may = false;
                for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) { double lin = 0.3 * i - 0.2 * j + 7; if (std::fabs(field(i, j) - lin) < 1) continue; P p{ox + cs * i, oy + cs * j}; double d = std::max(std::fabs(p.x - ctr.x), std::fabs(p.y - ctr.y)); if (d < 4.9 && (shape == 3 || A < 0)) must = true; if (d < 5.1 + 5 * (it + 2)) may = true; }
                c.mustSplit[f] = must && A < 0; c.mayTouch[f] = may;
            }
            c.mayTouch = grow(c.before, c.mayTouch, lev);
            finish(rc);
            if (mir && shape <= 2) { int jd = alloc(0); int rc2 = run(jd, mir & 1, mir & 2); r.check(rc2 == 0, "ridges mirrored", "the call fails: " + lastError()); M2 q; getM2(jd, q);
                auto sig = [&](const M2& m, bool mx, bool my) { std::vector<std::array<long, 2>> s; for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i)) s.push_back({std::lround(1e4 * (mx ? LX - m.nx[i] : m.nx[i])), std::lround(1e4 * (my ? LY - m.ny[i] : m.ny[i]))}); std::sort(s.begin(), s.end()); return s; };
                r.check(sig(c.after, false, false) == sig(q, mir & 1, mir & 2), "ridges mirrored", fmt("the mirror image of the mesh and samples gives another mesh (%d and %d cells)", c.after.nf(), q.nf())); }
        }
        else
        { // spherical coordinates: also across the zero and the 180 meridian
            int jd = alloc(1); id = jd; static const double L[6] = {-4.3, 5.1, 14.7, 25.2, 34.1, 44}; static const double LON[5] = {4, 179.9, -0.13, 359.87, 359.847}, LAT[3] = {0, 51, -70}; double q = 0.01;
            int lo = r.choose(5, "longitude"), la = r.choose(3, "latitude"), mesh = r.choose(2, "mesh") ? 4 : 0; std::vector<P> poly; int a = r.choose(5, "x0"), b = 1 + r.choose(5, "x1"), d = r.choose(5, "y0"), e = 1 + r.choose(5, "y1"); if (b <= a || e <= d) throw mc::Skip{}; poly = {{L[a], L[d]}, {L[b], L[d]}, {L[b], L[e]}, {L[a], L[e]}}; par.use_mass_center_when_refining = r.choose(2, "mass centre"); par.connect_hanging_nodes = 0; par.refine_intersected = 0; par.max_num_refinement_iterations = 1 + r.choose(2, "levels"); r.shard();
            par.min_edge_size = 1; MeshIn m = base(mesh); auto put = [&](P p) { return P{LON[lo] + q * p.x, LAT[la] + q * p.y}; }; for (auto& p : m.n) p = put(p); for (auto& p : poly) p = put(p); key = "spherical"; if (lo == 4) { if (b - a != 1 || d || e != 1) throw mc::Skip{}; wrap = true; key = "spherical, zero meridian"; for (auto& p : m.n) if (p.x >= 360) p.x -= 360; } c.spherical = true; c.massCentre = true;
            setMesh2(id, m); getM2(id, c.before); c.levels = par.max_num_refinement_iterations; auto F = c.before.faces(); std::vector<char> touch(F.size(), 0); c.mustSplit.assign(F.size(), 0);
            std::vector<char> in(c.before.nn(), 0), act; for (int i = 0; i < c.before.nn(); i++) in[i] = inside(c.before.node(i), poly) > 0;
            act = in; for (auto& f : F) { bool all = true; for (int i : f) if (!in[i]) all = false; if (!all) for (int i : f) act[i] = 0; }
            for (size_t f = 0; f < F.size(); f++) for (int i : F[f]) { if (act[i]) c.mustSplit[f] = 1; if (in[i]) touch[f] = 1; }
            c.mayTouch = grow(c.before, touch, c.levels); c.exact = c.levels == 1; Geo g(poly); g.add(poly[0].x, poly[0].y);
            if (wrap) { g = Geo(); c.mustSplit.assign(F.size(), 1); c.mayTouch.assign(F.size(), 1); }
            finish(api::mkernel_mesh2d_refine_based_on_polygon(id, g, par));
        }
    }
}
MC_MAIN(body)
