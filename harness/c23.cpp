// C23: grids are generated with the requested size, place and extent, and conversion between grids and meshes keeps nodes, edges and faces.
#include "cg.hpp"
#include <map>
#include <set>
using namespace mk;
using cg::ok;
namespace
{
    typedef std::pair<long long, long long> K2; double Q = 1e-6;
    K2 key2(P p) { return {std::llround(p.x / Q), std::llround(p.y / Q)}; }
    typedef std::pair<K2, K2> KE; KE keyE(P a, P b) { K2 x = key2(a), y = key2(b); return x < y ? KE{x, y} : KE{y, x}; }
    bool inRing(const std::vector<P>& R, P p) { bool in = false; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) if ((R[i].y > p.y) != (R[j].y > p.y) && p.x < (R[j].x - R[i].x) * (p.y - R[i].y) / (R[j].y - R[i].y) + R[i].x) in = !in; return in; }
    double ringDist(const std::vector<P>& R, P p) { double d = 1e300; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) { P u = R[i] - R[j]; double t = std::clamp(((p.x - R[j].x) * u.x + (p.y - R[j].y) * u.y) / (u.x * u.x + u.y * u.y), 0.0, 1.0); d = std::min(d, dist(p, R[j] + t * u)); } return d; }
    struct Case
    {
        Run& r; int id; std::string key; CG got; bool mesh = false;
        M2 m2;
        // reads what was generated: a grid, or the mesh of it
        void read(int rc) { r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); if (mesh) r.check(getM2(id, m2) == 0, "read:" + key, "cannot be read"); else r.check(getCG(id, got) == 0, "read:" + key, "cannot be read"); r.validated++; mc::Hash h; if (mesh) hash(h, m2); else cg::hash(h, got); r.state(h.h); }
        void expect(const CG& e, double tol) { if (mesh) { expectMesh(e, {}, {}, 0); return; } r.checkf(got.n == e.n && got.m == e.m, "size:" + key, [&] { return fmt("%d x %d nodes, expected %d x %d", got.n, got.m, e.n, e.m); }); std::string d = cg::diff(e, got, tol); r.check(d.empty(), key, d); r.outcome(e.n * 100 + e.m); }
        void expectMesh(const CG& e, std::multiset<K2> nodes, std::multiset<KE> edges, int faces)
        {
            std::multiset<KE> opt; for (int i = 0; i < e.n; i++) for (int j = 0; j < e.m; j++) if (ok(e, i, j)) nodes.insert(key2(e.at(i, j)));
            for (int i = 0; i + 1 < e.n; i++) for (int j = 0; j + 1 < e.m; j++) faces += cg::face(e, i, j);
            auto F = [&](int i, int j) { return i >= 0 && j >= 0 && cg::face(e, i, j); };
            for (int i = 0; i < e.n; i++) for (int j = 0; j < e.m; j++) { if (ok(e, i, j) && ok(e, i, j + 1)) (F(i, j) || F(i - 1, j) ? edges : opt).insert(keyE(e.at(i, j), e.at(i, j + 1))); if (ok(e, i, j) && ok(e, i + 1, j)) (F(i, j) || F(i, j - 1) ? edges : opt).insert(keyE(e.at(i, j), e.at(i + 1, j))); }
            std::multiset<K2> gn; std::multiset<KE> ge; for (int i = 0; i < (int)m2.nx.size(); i++) if (m2.nx[i] != MISS) gn.insert(key2(m2.node(i))); for (size_t k = 0; k + 1 < m2.en.size(); k += 2) if (m2.en[k] >= 0) { KE x = keyE(m2.node(m2.en[k]), m2.node(m2.en[k + 1])); if (auto f = opt.find(x); f != opt.end()) opt.erase(f); else ge.insert(x); }
            r.checkf(near(gn, nodes), "nodes:" + key, [&] { return fmt("the mesh does not have the nodes of the grid (%d, expected %d)", (int)gn.size(), (int)nodes.size()); });
            r.checkf(nearE(ge, edges), "edges:" + key, [&] { return fmt("the mesh does not have the edges of the grid (%d, expected %d)", (int)ge.size(), (int)edges.size()); });
            r.checkf((int)m2.npf.size() == faces, "faces:" + key, [&] { return fmt("%d faces, expected %d", (int)m2.npf.size(), faces); }); r.outcome((int)gn.size());
        }
        static bool k1(K2 a, K2 b) { return std::llabs(a.first - b.first) <= 2 && std::llabs(a.second - b.second) <= 2; }
        static bool near(const std::multiset<K2>& a, const std::multiset<K2>& b) { if (a.size() != b.size()) return false; if (a == b) return true; std::vector<K2> v(b.begin(), b.end()); for (auto& x : a) { bool f = false; for (auto& y : v) if (k1(x, y)) { f = true; y = {LLONG_MAX / 4, 0}; break; } if (!f) return false; } return true; }
        static bool nearE(const std::multiset<KE>& a, const std::multiset<KE>& b) { if (a.size() != b.size()) return false; if (a == b) return true; std::vector<KE> v(b.begin(), b.end()); for (auto& x : a) { bool f = false; for (auto& y : v) if ((k1(x.first, y.first) && k1(x.second, y.second)) || (k1(x.first, y.second) && k1(x.second, y.first))) { f = true; y.first = {LLONG_MAX / 4, 0}; break; } if (!f) return false; } return true; }
        void undo(const Snap& before)
        {
            Snap after = snap(id); bool u = false; int uid; api::mkernel_undo_state(u, uid); Snap o = snap(id); std::string d = diff(before, o, 0); r.check(u && d.empty(), "undo:" + key, "undoing: " + d);
            api::mkernel_redo_state(u, uid); o = snap(id); d = diff(after, o, 0); r.check(u && d.empty(), "redo:" + key, "redoing: " + d);
        }
    };
    const double SX[] = {10, 2.5, 0.25}, SY[] = {10, 4, 0.5}, OX[] = {0, -37.25, 4}, OY[] = {0, 52.5, -30};
    // the spacing in latitude keeps the cells in proportion
    double nextLat(double y, double b) { double c = std::cos(y * M_PI / 180), dy = b * c * (c + 0.3 * (1 - c)), q = y + dy; if (std::fabs(q) > 88 && dy * M_PI / 180 * 6378137.0 < 2000) q = q < 0 ? -90 : 90; return q; }
    CG lattice(int rows, int cols, double ox, double oy, double ang, double bx, double by, int proj)
    {
        double c = std::cos(ang * M_PI / 180), s = std::sin(ang * M_PI / 180); CG g = cg::make(rows + 1, cols + 1, [&](int i, int j) { return P{ox + j * bx * c - i * by * s, oy + j * bx * s + i * by * c}; });
        if (proj) { int last = rows; for (int i = 1; i <= rows && last == rows; i++) { bool pole = false; for (int j = 0; j <= cols; j++) { double y = nextLat(g.at(i - 1, j).y, by); cg::setNode(g, i, j, {g.at(i, j).x, y}); pole |= std::fabs(std::fabs(y) - 90) < 1e-9; } if (pole) { last = i; break; } } g.n = last + 1; g.x.resize((size_t)g.n * g.m); g.y.resize(g.x.size()); }
        return g;
    }
    void body(Run& r)
    {
        Q = 1e-6; int sc = r.choose(9, "scenario"); reset(); Case c{r, 0, ""}; meshkernel::MakeGridParameters p;
        if (sc == 0)
        { // rectangular
            c.mesh = r.flag("as a mesh"); int proj = r.choose(2, "projection"), cols = 1 + r.choose(4, "columns"), rows = 1 + r.choose(4, "rows"), o = r.choose(3, "ox"), o2 = r.choose(3, "oy"), bx = r.choose(3, "bx"), by = r.choose(3, "by"); static const double A[] = {0, 30, -30, 45, -60, 89, -89}; double ang = proj ? 0 : A[r.choose(7, "angle")]; r.shard();
            p.num_columns = cols; p.num_rows = rows; p.origin_x = OX[o]; p.origin_y = OY[o2]; p.block_size_x = SX[bx]; p.block_size_y = SY[by]; p.angle = ang; c.id = alloc(proj); c.key = fmt("rectangular;projection%d%s", proj, c.mesh ? ";mesh" : "");
            Snap b = snap(c.id); int rc = c.mesh ? api::mkernel_mesh2d_make_rectangular_mesh(c.id, p) : api::mkernel_curvilinear_compute_rectangular_grid(c.id, p); c.read(rc); c.expect(lattice(rows, cols, OX[o], OY[o2], ang, SX[bx], SY[by], proj), 1e-8); c.undo(b);
        }
        else if (sc == 1)
        { // on an extent: the lines just cover it
            c.mesh = r.flag("as a mesh"); int proj = r.choose(2, "projection"), o = r.choose(3, "ox"), o2 = r.choose(3, "oy"), bx = r.choose(3, "bx"), by = r.choose(3, "by"); static const double W[] = {1, 1.01, 1.99, 2, 3.5, 6}; double w = W[r.choose(6, "width")], h = W[r.choose(6, "height")]; int flip = r.choose(3, "reversed"); r.shard();
            p.num_columns = p.num_rows = 3; p.origin_x = OX[o]; p.origin_y = OY[o2]; p.block_size_x = SX[bx]; p.block_size_y = SY[by]; p.upper_right_x = OX[o] + w * SX[bx]; p.upper_right_y = OY[o2] + h * SY[by]; c.id = alloc(proj); c.key = fmt("extent;projection%d%s", proj, c.mesh ? ";mesh" : "");
            if (flip == 1) { p.upper_right_x = OX[o] - w * SX[bx]; } if (flip == 2) throw mc::Skip{};
            Snap b = snap(c.id); int rc = c.mesh ? api::mkernel_mesh2d_make_rectangular_mesh_on_extension(c.id, p) : api::mkernel_curvilinear_compute_rectangular_grid_on_extension(c.id, p);
            if (flip) { r.step(); r.check(rc != 0, "reversed:" + c.key, "an extent of negative width is accepted"); std::string d = diff(b, snap(c.id), 0); r.check(d.empty(), "reversed:" + c.key, "changed although refused: " + d); return; }
            int cols = (int)std::ceil(w - 1e-9), rows = (int)std::ceil(h - 1e-9); if (proj) { double y = OY[o2]; rows = 0; while (y < p.upper_right_y && std::fabs(y) < 90 - 1e-9) { y = nextLat(y, SY[by]); rows++; } }
            c.read(rc); c.expect(lattice(rows, cols, OX[o], OY[o2], 0, SX[bx], SY[by], proj), 1e-8); c.undo(b);
        }
        else if (sc == 2)
        { // inside a polygon: all cells of a rotated lattice with all corners inside
            c.mesh = r.flag("as a mesh"); int pg = r.choose(7, "polygon"), b = r.choose(4, "block"), a = r.choose(6, "angle"), rev = r.choose(2, "orientation"); r.shard(); static const double A[] = {0, 30, -30, 45, -60, 89}; static const double B[][2] = {{5, 5}, {3, 7}, {11, 4}, {2.3, 2.9}};
            static const std::vector<std::vector<P>> R = {{{0, 0}, {40, 0}, {40, 30}, {0, 30}}, {{3, 2}, {47, 11}, {21, 39}}, {{-20, -5}, {70, 3}, {66, 22}, {-18, 17}}, {{0, 0}, {30, 0}, {30, 40}, {20, 40}, {20, 12}, {0, 12}}, {{5, -40}, {19, -41}, {23, 44}, {2, 39}}, {{0, 0}, {25, 30}, {50, 0}, {25, 70}}, {{10, 0}, {31, 7}, {39, 25}, {24, 43}, {4, 40}, {-7, 21}}};
            std::vector<P> ring = R[pg]; for (auto& q : ring) q = q + P{100.37, 50.21}; std::vector<P> in = ring; if (rev) std::reverse(in.begin(), in.end()); in.push_back(in[0]); double bx = B[b][0], by = B[b][1], ang = A[a] * M_PI / 180; P ux{std::cos(ang), std::sin(ang)}, uy{-std::sin(ang), std::cos(ang)};
            p.block_size_x = bx; p.block_size_y = by; p.angle = A[a]; c.id = alloc(0); c.key = fmt("polygon%d%s", pg, c.mesh ? ";mesh" : ""); Geo gl(in); Snap before = snap(c.id); int rc = c.mesh ? api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(c.id, p, gl.g) : api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(c.id, p, gl.g); c.read(rc); c.undo(before);
            std::vector<P> nodes; if (c.mesh) { for (int i = 0; i < (int)c.m2.nx.size(); i++) if (c.m2.nx[i] != MISS) nodes.push_back(c.m2.node(i)); } else for (int i = 0; i < c.got.n; i++) for (int j = 0; j < c.got.m; j++) if (ok(c.got, i, j)) nodes.push_back(c.got.at(i, j));
            if (nodes.empty()) { r.outcome(0); return; }
            P o = nodes[0]; auto loc = [&](P q) { P d = q - o; return P{(d.x * ux.x + d.y * ux.y) / bx, (d.x * uy.x + d.y * uy.y) / by}; }; std::set<K2> have; for (P q : nodes) { P l = loc(q); r.checkf(std::fabs(l.x - std::round(l.x)) < 1e-6 && std::fabs(l.y - std::round(l.y)) < 1e-6, "lattice:" + c.key, [&] { return fmt("node (%g,%g) is not on the lattice with the given sizes and angle", q.x, q.y); }); have.insert({std::llround(l.x), std::llround(l.y)}); r.checkf(inRing(ring, q) || ringDist(ring, q) < 1e-6, "outside:" + c.key, [&] { return fmt("node (%g,%g) is outside the polygon", q.x, q.y); }); }
            r.check(have.size() == nodes.size(), "double:" + c.key, "two nodes at the same place");
            auto at = [&](long long i, long long j) { return o + (i * bx) * ux + (j * by) * uy; }; bool shaky = false; auto in1 = [&](long long i, long long j) { P q = at(i, j); if (ringDist(ring, q) < 1e-6) shaky = true; return inRing(ring, q); };
            std::set<K2> want; int nf = 0; for (long long i = -80; i <= 80; i++) for (long long j = -80; j <= 80; j++) if (in1(i, j) && in1(i + 1, j) && in1(i, j + 1) && in1(i + 1, j + 1)) { nf++; for (int u : {0, 1}) for (int v : {0, 1}) want.insert({i + u, j + v}); }
            if (shaky) { r.note("not judged: lattice points on the polygon"); return; }
            for (auto& w : want) r.checkf(have.count(w), "missing:" + c.key, [&] { P q = at(w.first, w.second); return fmt("node (%g,%g) of a cell inside the polygon is missing", q.x, q.y); }); for (auto& w : have) r.checkf(want.count(w), "extra:" + c.key, [&] { P q = at(w.first, w.second); return fmt("node (%g,%g) is not part of a cell inside the polygon", q.x, q.y); });
            if (c.mesh) r.checkf((int)c.m2.npf.size() == nf, "faces:" + c.key, [&] { return fmt("%d faces, %d expected", (int)c.m2.npf.size(), nf); }); r.outcome((int)nodes.size());
        }
        else if (sc == 3)
        { // circular and graded
            int cols = 1 + r.choose(7, "columns"), rows = 1 + r.choose(7, "rows"), rad = r.choose(3, "radius"), fc = r.choose(4, "fraction of columns"), fr = r.choose(4, "fraction of rows"), mc = r.choose(2, "maximum of columns"), mr = r.choose(2, "maximum of rows"), a = r.choose(3, "angle"); r.shard(); static const double F[] = {1, 0.25, 0.5, 0}, MX[] = {5, 1}, RR[] = {0, 50, 6}, A[] = {0, 32, -70};
            p.num_columns = cols; p.num_rows = rows; p.origin_x = 12; p.origin_y = -7; p.block_size_x = 10; p.block_size_y = 4; p.radius_curvature = RR[rad]; p.uniform_columns_fraction = F[fc]; p.uniform_rows_fraction = F[fr]; p.maximum_uniform_size_columns = MX[mc]; p.maximum_uniform_size_rows = MX[mr]; p.angle = A[a]; c.id = alloc(0); c.key = fmt("%s", rad ? "circular" : "graded"); Snap before = snap(c.id); c.read(api::mkernel_curvilinear_compute_circular_grid(c.id, p)); c.undo(before);
            CG& g = c.got; r.checkf(g.n == rows + 1 && g.m == cols + 1, "size:" + c.key, [&] { return fmt("%d x %d nodes, expected %d x %d", g.n, g.m, rows + 1, cols + 1); }); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) r.check(ok(g, i, j) && std::isfinite(g.at(i, j).x) && std::isfinite(g.at(i, j).y), "node:" + c.key, "a node is missing");
            double ang = A[a] * M_PI / 180; std::vector<double> X(cols + 1), Y(rows + 1); P o{12, -7}, ux{std::cos(ang), std::sin(ang)}, uy{-std::sin(ang), std::cos(ang)};
            if (rad == 0) { for (int j = 0; j <= cols; j++) { P d = g.at(0, j) - o; X[j] = d.x * ux.x + d.y * ux.y; } for (int i = 0; i <= rows; i++) { P d = g.at(i, 0) - o; Y[i] = d.x * uy.x + d.y * uy.y; } }
            else { double dt = std::min(10 / RR[rad], 2 * M_PI / cols); for (int j = 0; j <= cols; j++) X[j] = ang + M_PI / 2 - j * dt; for (int i = 0; i <= rows; i++) Y[i] = dist(g.at(i, 0), o); }
            for (int i = 0; i <= rows; i++) for (int j = 0; j <= cols; j++) { P w = rad ? o + Y[i] * P{std::cos(X[j]), std::sin(X[j])} : o + X[j] * ux + Y[i] * uy; r.checkf(dist(w, g.at(i, j)) < 1e-7, "place:" + c.key, [&] { return fmt("node (%d,%d) is at (%g,%g), expected (%g,%g)", i, j, g.at(i, j).x, g.at(i, j).y, w.x, w.y); }); }
            auto spacing = [&](const std::vector<double>& v, double b, bool uniform, double mx, bool sym, const char* what)
            {
                std::vector<double> d; for (size_t i = 0; i + 1 < v.size(); i++) d.push_back(v[i + 1] - v[i]); int n = (int)d.size();
                for (int i = 0; i < n; i++) r.checkf(d[i] > b * (1 - 1e-9) && (d[i] < b * (uniform ? 1 : std::max(mx, 1.0)) * (1 + 1e-9) || (!uniform && !sym)) /* how far rows grow is fixed by the existing tests */, std::string("spacing ") + what + ":" + c.key, [&] { return fmt("cell %d has size %g, block size %g, maximum ratio %g", i, d[i], b, mx); });
                if (uniform) return; double q = 0; for (int i = 0; i + 1 < n; i++) if (d[i + 1] > d[i] * (1 + 1e-9)) { if (q == 0) q = d[i + 1] / d[i]; r.checkf(std::fabs(d[i + 1] / d[i] - q) < 1e-9 * q, std::string("grading ") + what + ":" + c.key, [&] { return fmt("the ratio of neighbouring cells is %g and %g", q, d[i + 1] / d[i]); }); }
                if (sym) for (int i = 0; i < n; i++) r.checkf(std::fabs(d[i] - d[n - 1 - i]) < 1e-9 * b * mx, "symmetric:" + c.key, [&] { return fmt("cells %d and %d have sizes %g and %g", i, n - 1 - i, d[i], d[n - 1 - i]); }); else for (int i = 0; i + 1 < n; i++) r.check(d[i + 1] >= d[i] * (1 - 1e-9), "growing:" + c.key, "a row is smaller than the one before it");
            };
            if (!rad) { spacing(X, 10, F[fc] == 1 || MX[mc] == 1, MX[mc], true, "columns"); r.check(std::fabs(X[0]) < 1e-9, "origin:" + c.key, "the first column is not at the origin"); }
            spacing(Y, 4, F[fr] == 1 || MX[mr] == 1, MX[mr], false, "rows"); if (F[fr] == 1 || MX[mr] == 1) r.checkf(std::fabs(Y[0] - RR[rad]) < 1e-9, "origin:" + c.key, [&] { return fmt("the first row is at %g", Y[0]); });
        }
        else if (sc == 4)
        { // grid to mesh, in all patterns of deleted inner nodes, with and without a mesh that exists already
            int proj = r.choose(3, "projection"), k = r.choose(5, "grid"), mask = r.choose(k < 2 ? 64 : 1, "deleted"), old = r.choose(2, "mesh present"); r.shard(); double s = proj ? 0.01 : 1; Q = proj ? 1e-9 : 1e-6; P off = proj ? P{3, 51} : P{0, 0};
            CG g = cg::base(k, 4, 5); for (int t = 0; t < 6; t++) if (mask >> t & 1) cg::kill(g, 1 + t / 3, 1 + t % 3); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j)) cg::setNode(g, i, j, off + s * g.at(i, j)); bool any = false; for (int i = 0; i + 1 < g.n; i++) for (int j = 0; j + 1 < g.m; j++) any |= cg::face(g, i, j); if (!any) throw mc::Skip{}; cg::close(g);
            c.id = alloc(proj); c.mesh = true; c.key = fmt("to mesh;projection%d", proj); std::multiset<K2> N; std::multiset<KE> E; int F = 0;
            if (old) { MeshIn m; for (int i = 0; i < 4; i++) m.n.push_back(off + s * P{300.0 + 10 * (i % 2), 5.0 + 10 * (i / 2)}); m.e = {{0, 1}, {1, 3}, {3, 2}, {2, 0}}; setMesh2(c.id, m); for (P q : m.n) N.insert(key2(q)); for (auto& e : m.e) E.insert(keyE(m.n[e[0]], m.n[e[1]])); F = 1; }
            r.check(cg::put(c.id, g) == 0, "set:" + c.key, "the grid is refused"); Snap before = snap(c.id); c.read(api::mkernel_curvilinear_convert_to_mesh2d(c.id)); c.expectMesh(g, N, E, F);
            CG left; getCG(c.id, left); r.check(left.n * left.m == 0, "left:" + c.key, "the grid is still there after conversion"); c.undo(before);
        }
        else if (sc == 5)
        { // the outline of every block, in all patterns of deleted inner nodes
            int k = r.choose(3, "grid"), mask = r.choose(64, "deleted"); r.shard(); CG g = cg::base(k == 2 ? 4 : k, 4, 5); for (int t = 0; t < 6; t++) if (mask >> t & 1) cg::kill(g, 1 + t / 3, 1 + t % 3); cg::close(g); if (cg::trim(g).n != 4 || cg::trim(g).m != 5) throw mc::Skip{}; c.id = alloc(0); cg::put(c.id, g); c.key = "outline";
            for (int i0 = 0; i0 < 4; i0++) for (int j0 = 0; j0 < 5; j0++) for (int i1 = 0; i1 < 4; i1++) for (int j1 = 0; j1 < 5; j1++)
            {
                int a0 = std::min(i0, i1), a1 = std::max(i0, i1), b0 = std::min(j0, j1), b1 = std::max(j0, j1); if (a0 == a1 || b0 == b1) continue; int n = -1; int rc = api::mkernel_curvilinear_count_boundaries_as_polygons(c.id, i0, j0, i1, j1, n); r.step(); r.check(rc == 0, "count:" + c.key, "fails: " + lastError()); 
                auto F = [&](int i, int j) { return i >= a0 && i < a1 && j >= b0 && j < b1 && cg::face(g, i, j); }; std::multiset<KE> want; 
                for (int i = a0; i <= a1; i++) for (int j = b0; j < b1; j++) if (F(i, j) != F(i - 1, j)) want.insert(keyE(g.at(i, j), g.at(i, j + 1))); for (int i = a0; i < a1; i++) for (int j = b0; j <= b1; j++) if (F(i, j) != F(i, j - 1)) want.insert(keyE(g.at(i, j), g.at(i + 1, j)));
                if (n <= 0) { r.checkf(want.empty(), "none:" + c.key, [&] { return fmt("block (%d,%d)-(%d,%d) has no outline", i0, j0, i1, j1); }); continue; }
                Geo gl = Geo::sized(n); rc = api::mkernel_curvilinear_get_boundaries_as_polygons(c.id, i0, j0, i1, j1, gl.g); r.check(rc == 0, "get:" + c.key, "fails: " + lastError()); std::multiset<KE> got; int st = 0; 
                for (int q = 0; q <= n; q++) if (q == n || gl.x[q] == MISS) { r.checkf(q - st >= 5 && gl.x[st] == gl.x[q - 1] && gl.y[st] == gl.y[q - 1], "closed:" + c.key, [&] { return fmt("ring %d..%d is not closed", st, q); }); for (int t = st; t + 1 < q; t++) got.insert(keyE({gl.x[t], gl.y[t]}, {gl.x[t + 1], gl.y[t + 1]})); st = q + 1; }
                r.checkf(got == want, c.key, [&] { return fmt("the outline of block (%d,%d)-(%d,%d) has %d edges, expected %d or others", i0, j0, i1, j1, (int)got.size(), (int)want.size()); }); r.outcome((int)want.size());
            }
            r.validated++; mc::Hash h; cg::hash(h, g); r.state(h.h);
        }
        else if (sc == 8)
        { // mesh to grid: quadrilaterals around nodes with three to six of them, and rings
            int kind = r.choose(7, "mesh"), mask = r.choose(512, "split faces"), st = r.choose(24, "start"), num = r.choose(2, "numbering"); r.shard(); if (!r.thorough() && (mask * 5 + st * 3 + num + kind) % 4) throw mc::Skip{};
            std::vector<P> pts; std::vector<std::array<int, 4>> fs; auto pt = [&](P p) { for (size_t q = 0; q < pts.size(); q++) if (dist(pts[q], p) < 1e-6) return (int)q; pts.push_back(p); return (int)pts.size() - 1; };
            if (kind < 4) { int n = kind + 3; auto at = [&](double t, double f) { return P{f * 20 * std::cos(2 * M_PI * t / n), f * 20 * std::sin(2 * M_PI * t / n)}; }; for (int q = 0; q < n; q++) { P o{0, 0}, a = at(q, 1), b = at(q + 1, 1), d = at(q + 0.5, n == 3 ? 2.0 : 1.35); auto z = [&](int i, int j) { double u = i / 2.0, v = j / 2.0; return pt((1 - u) * (1 - v) * o + u * (1 - v) * a + u * v * d + (1 - u) * v * b); }; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) fs.push_back({z(i, j), z(i + 1, j), z(i + 1, j + 1), z(i, j + 1)}); } }
            else { int n = kind == 4 ? 4 : kind == 5 ? 5 : 8; auto z = [&](int c, int q) { double f = 10 * (1 + 0.6 * q), t = 2 * M_PI * (c % n) / n + 0.1; return pt({f * std::cos(t), f * std::sin(t)}); }; for (int c = 0; c < n; c++) for (int q = 0; q < (kind == 6 ? 2 : 3); q++) fs.push_back({z(c, q), z(c, q + 1), z(c + 1, q + 1), z(c + 1, q)}); if (n == 4) fs.push_back({z(0, 0), z(1, 0), z(2, 0), z(3, 0)}); }
            int nf = (int)fs.size(); if (st >= nf) throw mc::Skip{}; auto cut = [&](int f) { return f < 9 && (mask >> f & 1); }; if (cut(st)) throw mc::Skip{};
            MeshIn m; int np = (int)pts.size(); auto id2 = [&](int q) { return num ? np - 1 - q : q; }; m.n.resize(np); for (int q = 0; q < np; q++) m.n[id2(q)] = pts[q]; std::map<std::pair<int, int>, std::vector<int>> E; for (int f = 0; f < nf; f++) for (int q = 0; q < 4; q++) E[std::minmax(fs[f][q], fs[f][(q + 1) % 4])].push_back(f); for (auto& e : E) m.e.push_back({id2(e.first.first), id2(e.first.second)}); for (int f = 0; f < nf; f++) if (cut(f)) m.e.push_back({id2(fs[f][0]), id2(fs[f][2])});
            c.id = alloc(0); setMesh2(c.id, m); c.key = "to grid;irregular"; P mid{0, 0}; for (int q : fs[st]) mid = mid + 0.25 * pts[q]; Snap before = snap(c.id); int rc = api::mkernel_mesh2d_convert_to_curvilinear(c.id, mid.x, mid.y); if (rc && kind > 3 && lastError().find("does not contain the starting point") != std::string::npos) throw mc::Skip{}; /* another centre is closer */ c.read(rc);
            auto joined = [&](int a, int b) { auto q = E.find(std::minmax(a, b)); if (q == E.end()) return false; for (int f : q->second) if (!cut(f)) return true; return false; };
            std::set<std::array<int, 4>> Q; auto sorted = [](std::array<int, 4> f) { std::sort(f.begin(), f.end()); return f; }; for (auto& f : fs) Q.insert(sorted(f));
            std::set<int> reach{st}; std::vector<int> todo{st}; while (!todo.empty()) { int f = todo.back(); todo.pop_back(); for (int q = 0; q < 4; q++) for (int o : E[std::minmax(fs[f][q], fs[f][(q + 1) % 4])]) if (!cut(o) && reach.insert(o).second) todo.push_back(o); } std::set<int> rn; for (int f : reach) for (int q : fs[f]) rn.insert(q);
            std::map<K2, int> who; for (int q = 0; q < np; q++) who[key2(pts[q])] = q; const CG& G = c.got; std::map<std::pair<int, int>, int> at; std::map<int, std::pair<int, int>> pos; for (int i = 0; i < G.n; i++) for (int j = 0; j < G.m; j++) if (ok(G, i, j)) { auto w = who.find(key2(G.at(i, j))); r.check(w != who.end() && !pos.count(w->second), "nodes:" + c.key, "a node of the grid is not a node of the mesh, or is used twice"); pos[w->second] = {i, j}; at[{i, j}] = w->second; r.check(rn.count(w->second), "reach:" + c.key, "a node of the grid is not connected with the start by quadrilaterals"); }
            for (auto& q : at) for (int d : {0, 1}) { auto o = at.find({q.first.first + d, q.first.second + 1 - d}); if (o != at.end()) r.checkf(joined(q.second, o->second), "neighbour:" + c.key, [&] { return fmt("neighbours (%d,%d) and (%d,%d) are not connected by an edge of a quadrilateral", q.first.first, q.first.second, o->first.first, o->first.second); }); }
            bool started = true; for (int q : fs[st]) started &= pos.count(q) > 0; r.check(started, "start:" + c.key, "the starting face is not in the grid"); std::set<int> inside; for (int f = 0; f < nf; f++) if (!cut(f)) { bool all = true; for (int q : fs[f]) all &= pos.count(q) > 0; if (!all) continue; bool unit = true; for (int q = 0; q < 4; q++) { auto x = pos[fs[f][q]], y = pos[fs[f][(q + 1) % 4]]; unit &= std::abs(x.first - y.first) + std::abs(x.second - y.second) == 1; } if (unit) inside.insert(f); }
            for (int i = 0; i + 1 < G.n; i++) for (int j = 0; j + 1 < G.m; j++) if (cg::face(G, i, j)) r.checkf(Q.count(sorted({at[{i, j}], at[{i + 1, j}], at[{i, j + 1}], at[{i + 1, j + 1}]})), "cell:" + c.key, [&] { return fmt("cell (%d,%d) is not a cell of the mesh", i, j); });
            // no further quadrilateral would fit
            for (int f : inside) for (int q = 0; q < 4; q++) { int A = fs[f][q], B = fs[f][(q + 1) % 4], C = fs[f][(q + 2) % 4], D = fs[f][(q + 3) % 4]; for (int o : E[std::minmax(A, B)]) if (o != f && !cut(o) && !inside.count(o)) { int ka = 0; while (fs[o][ka] != A) ka++; int A2, B2; if (fs[o][(ka + 1) % 4] == B) { B2 = fs[o][(ka + 2) % 4]; A2 = fs[o][(ka + 3) % 4]; } else { A2 = fs[o][(ka + 1) % 4]; B2 = fs[o][(ka + 2) % 4]; }
                auto mir = [&](int x, int y) { return std::make_pair(2 * pos[x].first - pos[y].first, 2 * pos[x].second - pos[y].second); }; auto pa = mir(A, D), pb = mir(B, C); auto free = [&](int node, std::pair<int, int> w) { if (pos.count(node)) return pos[node] == w; if (at.count(w)) return false; for (auto d : {std::make_pair(0, 1), std::make_pair(1, 0), std::make_pair(0, -1), std::make_pair(-1, 0)}) { auto n = at.find({w.first + d.first, w.second + d.second}); if (n != at.end() && !joined(n->second, node)) return false; } return true; };
                r.check(!(free(A2, pa) && free(B2, pb)), "maximal:" + c.key, fmt("face %d fits next to face %d but is left out", o, f)); } }
            r.outcome((int)inside.size()); c.undo(before);
        }
        else
        { // mesh to grid: the part that is connected by quadrilaterals, started in any face
            bool tri = sc == 7; int proj = r.choose(tri ? 1 : 3, "projection"), k = r.choose(tri ? 1 : 5, "grid"), mask = r.choose(tri ? 4096 : 8, "pattern"), st = r.choose(12, "start"), num = r.choose(3, "numbering"); r.shard(); double s = proj ? 0.01 : 1; P off = proj ? P{3, 51} : P{0, 0}; CG g = cg::base(k, 4, 5); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j)) cg::setNode(g, i, j, off + s * g.at(i, j));
            if (!tri) for (int t = 0; t < 3; t++) if (mask >> t & 1) cg::kill(g, 1, 1 + t); cg::close(g); if (tri && num) throw mc::Skip{};
            auto cut = [&](int i, int j) { return tri && (mask >> (i * 4 + j) & 1); }; int si = st / 4, sj = st % 4; if (!cg::face(g, si, sj) || cut(si, sj)) throw mc::Skip{};
            MeshIn m; std::vector<int> idx((size_t)g.n * g.m, -1); std::vector<std::pair<int, int>> order; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) order.push_back({i, j}); if (num == 1) std::reverse(order.begin(), order.end()); if (num == 2) for (size_t a = 0; a < order.size(); a++) std::swap(order[a], order[(a * 7 + 3) % order.size()]);
            for (auto& q : order) if (ok(g, q.first, q.second)) { idx[(size_t)q.first * g.m + q.second] = (int)m.n.size(); m.n.push_back(g.at(q.first, q.second)); }
            auto F = [&](int i, int j) { return i >= 0 && j >= 0 && cg::face(g, i, j); }; auto I = [&](int i, int j) { return idx[(size_t)i * g.m + j]; };
            for (auto& q : order) { int i = q.first, j = q.second; if (F(i, j) || F(i - 1, j)) m.e.push_back({I(i, j), I(i, j + 1)}); if (F(i, j) || F(i, j - 1)) { if (num) m.e.push_back({I(i + 1, j), I(i, j)}); else m.e.push_back({I(i, j), I(i + 1, j)}); } if (F(i, j) && cut(i, j)) m.e.push_back({I(i, j), I(i + 1, j + 1)}); }
            c.id = alloc(proj); setMesh2(c.id, m); c.key = fmt("to grid;%s", tri ? "triangles" : "quadrilaterals"); P mid = 0.25 * (g.at(si, sj) + g.at(si + 1, sj) + g.at(si, sj + 1) + g.at(si + 1, sj + 1)); Snap before = snap(c.id); c.read(api::mkernel_mesh2d_convert_to_curvilinear(c.id, mid.x, mid.y));
            // cells reached through common edges
            std::set<std::pair<int, int>> seen{{si, sj}}; std::vector<std::pair<int, int>> todo{{si, sj}}; while (!todo.empty()) { auto q = todo.back(); todo.pop_back(); for (auto d : {std::make_pair(0, 1), std::make_pair(1, 0), std::make_pair(0, -1), std::make_pair(-1, 0)}) { std::pair<int, int> x{q.first + d.first, q.second + d.second}; if (F(x.first, x.second) && !cut(x.first, x.second) && seen.insert(x).second) todo.push_back(x); } }
            CG e = g; for (auto& v : e.x) v = MISS; e.y = e.x; for (auto& q : seen) for (int a : {0, 1}) for (int b : {0, 1}) cg::setNode(e, q.first + a, q.second + b, g.at(q.first + a, q.second + b)); e = cg::trim(e);
            // in any orientation
            bool fits = false; CG got = cg::trim(c.got); for (int o = 0; o < 8 && !fits; o++) { CG t; t.n = o & 4 ? e.m : e.n; t.m = o & 4 ? e.n : e.m; t.x.resize((size_t)t.n * t.m); t.y = t.x; for (int i = 0; i < e.n; i++) for (int j = 0; j < e.m; j++) { int a = o & 1 ? e.n - 1 - i : i, b = o & 2 ? e.m - 1 - j : j; if (o & 4) std::swap(a, b); cg::setNode(t, a, b, e.at(i, j)); } fits = cg::diff(t, got, 0).empty(); }
            // an edge without quadrilaterals between two nodes of the part may keep a cell out
            bool exact = true; std::set<std::pair<int, int>> in; for (auto& q : seen) for (int a : {0, 1}) for (int b : {0, 1}) in.insert({q.first + a, q.second + b}); auto quad = [&](int i, int j) { return F(i, j) && !cut(i, j); };
            for (auto& q : in) { int i = q.first, j = q.second; if (in.count({i, j + 1}) && !quad(i, j) && !quad(i - 1, j)) exact = false; if (in.count({i + 1, j}) && !quad(i, j) && !quad(i, j - 1)) exact = false; }
            std::map<K2, std::pair<int, int>> place; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j)) place[key2(g.at(i, j))] = {i, j}; std::set<std::pair<int, int>> used; bool started = false;
            for (int i = 0; i < got.n; i++) for (int j = 0; j < got.m; j++) if (ok(got, i, j))
            {
                r.check(place.count(key2(got.at(i, j))) && used.insert(place[key2(got.at(i, j))]).second, "nodes:" + c.key, "a node of the grid is not a node of the mesh, or is used twice"); auto q = place[key2(got.at(i, j))]; r.check(in.count(q), "reach:" + c.key, "a node of the grid is not connected with the start by quadrilaterals");
                for (int d : {0, 1}) if (ok(got, i + d, j + 1 - d)) { r.check(place.count(key2(got.at(i + d, j + 1 - d))), "nodes:" + c.key, "a node of the grid is not a node of the mesh"); auto w = place[key2(got.at(i + d, j + 1 - d))]; r.checkf(std::abs(w.first - q.first) + std::abs(w.second - q.second) == 1, "neighbour:" + c.key, [&] { return fmt("neighbours (%d,%d) and (%d,%d) are not connected in the mesh", i, j, i + d, j + 1 - d); }); }
                if (cg::face(got, i, j)) { P z = 0.25 * (got.at(i, j) + got.at(i + 1, j) + got.at(i, j + 1) + got.at(i + 1, j + 1)); started |= dist(z, mid) < 1e-6 * s; }
            }
            r.check(started, "start:" + c.key, "the starting face is not in the grid"); if (!exact) r.note("an edge without quadrilaterals within the part: checked for soundness only");
            r.checkf(fits || !exact, c.key, [&] { return fmt("the grid (%d x %d) is not the part of the mesh connected with the start (%d x %d)", got.n, got.m, e.n, e.m); }); M2 left; getM2(c.id, left); r.check(left.nvn == 0 && left.nve == 0, "left:" + c.key, "the mesh is still there after conversion"); r.outcome((int)seen.size()); c.undo(before);
        }
    }
}
MC_MAIN(body)
