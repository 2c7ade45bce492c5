// C22: an edit of a curvilinear grid changes the chosen node, line or block as described, and nothing else.
#include "cg.hpp"
using namespace mk;
using cg::ok;
namespace
{
    int nfaces(const CG& g, int i, int j) { int c = 0; for (int a : {-1, 0}) for (int b : {-1, 0}) if (i + a >= 0 && j + b >= 0) c += cg::face(g, i + a, j + b); return c; }
    struct Case
    {
        Run& r; int id; CG g; std::string key; CG got; P off{0, 0}; double s = 1; int proj = 0;
        void done(int rc)
        {
            r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); r.check(getCG(id, got) == 0, "read:" + key, "cannot be read"); r.validated++; mc::Hash h; cg::hash(h, got); r.state(h.h);
            for (int i = 0; i < got.n; i++) for (int j = 0; j < got.m; j++) if (ok(got, i, j)) r.checkf(std::isfinite(got.at(i, j).x) && std::isfinite(got.at(i, j).y), "finite:" + key, [&] { return fmt("node (%d,%d) is (%g,%g)", i, j, got.at(i, j).x, got.at(i, j).y); });
        }
        void expect(const CG& e, double tol = 1e-9) { std::string d = cg::diff(e, got, tol * s); r.check(d.empty(), key, d); r.outcome(1); }
        void undo(int times = 1)
        {
            bool u = false; int uid; CG o; for (int k = 0; k < times; k++) api::mkernel_undo_state(u, uid); getCG(id, o); std::string d = cg::diff(g, o, 0); r.check(u && d.empty(), "undo:" + key, "undoing: " + d);
            for (int k = 0; k < times; k++) api::mkernel_redo_state(u, uid); getCG(id, o); d = cg::diff(got, o, 0); r.check(u && d.empty(), "redo:" + key, "redoing: " + d);
        }
        void same(int i, int j, const char* what) { if (!ok(g, i, j)) return; r.checkf(ok(got, i, j) && got.at(i, j).x == g.at(i, j).x && got.at(i, j).y == g.at(i, j).y, std::string(what) + ":" + key, [&] { return fmt("node (%d,%d), which is %s, went from (%.9g,%.9g) to (%.9g,%.9g)", i, j, what, g.at(i, j).x, g.at(i, j).y, got.at(i, j).x, got.at(i, j).y); }); }
        void shape() { r.checkf(got.n == g.n && got.m == g.m, "shape:" + key, [&] { return fmt("%d x %d became %d x %d", g.n, g.m, got.n, got.m); }); for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) r.checkf(ok(g, i, j) == ok(got, i, j), "shape:" + key, [&] { return fmt("node (%d,%d) appeared or disappeared", i, j); }); }
    };
    struct Line { int dir, at, a, b; P p(const CG& g, int k) const { return dir ? g.at(at, k) : g.at(k, at); } bool has(int i, int j) const { return dir ? i == at && j >= a && j <= b : j == at && i >= a && i <= b; } int along(int i, int j) const { return dir ? j : i; } int across(int i, int j) const { return dir ? i : j; } };
    Line line(Run& r, const CG& g, bool valid = true)
    {
        Line l; l.dir = r.choose(2, "direction"); l.at = r.choose(l.dir ? g.n : g.m, "line"); l.a = r.choose(l.dir ? g.m : g.n, "from"); l.b = r.choose(l.dir ? g.m : g.n, "to"); if (l.a >= l.b) throw mc::Skip{};
        if (valid) for (int k = l.a; k <= l.b; k++) if (l.p(g, k).x == MISS) throw mc::Skip{};
        return l;
    }
    struct Block { int i0, i1, j0, j1; bool in(int i, int j) const { return i >= i0 && i <= i1 && j >= j0 && j <= j1; } };
    Block block(Run& r, const CG& g, bool thin)
    {
        Block b; int p = r.choose(g.n * g.m, "corner"), q = r.choose(g.n * g.m, "opposite corner"); if (q / g.m < p / g.m) throw mc::Skip{}; b = {p / g.m, q / g.m, std::min(p % g.m, q % g.m), std::max(p % g.m, q % g.m)};
        if (!thin && (b.i0 == b.i1 || b.j0 == b.j1)) throw mc::Skip{};
        if (g.at(p / g.m, p % g.m).x == MISS || g.at(q / g.m, q % g.m).x == MISS) throw mc::Skip{};
        return b;
    }
    void body(Run& r)
    {
        int sc = r.choose(10, "scenario"), k = r.choose(6, "grid"), proj = sc <= 2 || sc == 5 || sc == 6 ? r.choose(2, "projection") : 0; CG g = k == 5 ? cg::base(4) : cg::base(k); if (k == 5) { cg::kill(g, 0, 0); cg::kill(g, 1, 0); cg::kill(g, 0, 1); cg::kill(g, 1, 1); cg::kill(g, 4, 5); }
        double s = proj ? 0.001 : 1; P off = proj ? P{3, 51} : P{0, 0}; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j)) cg::setNode(g, i, j, off + s * g.at(i, j));
        reset(); int id = alloc(proj); Case c{r, id, g, ""}; c.s = s; c.proj = proj; auto load = [&] { cg::put(id, g); };
        static const char* N[] = {"delete node", "delete block", "move node", "smoothing", "smoothing along a line", "mirror", "insert face", "attraction", "line shift", "orthogonalize"}; c.key = fmt("%s;grid%d", N[sc], k);
        bool holes = k == 2 || k == 3 || k == 5;
        if (sc == 0)
        { // one or two nodes
            int a = r.choose(g.n * g.m, "node"), b = r.choose(g.n * g.m + 1, "second node"); r.shard(); if (!ok(g, a / g.m, a % g.m)) throw mc::Skip{}; load(); CG e = g; P p = g.at(a / g.m, a % g.m);
            int rc = api::mkernel_curvilinear_delete_node(id, p.x, p.y); cg::kill(e, a / g.m, a % g.m); cg::close(e); c.done(rc); c.expect(e, 0); c.undo();
            if (b < g.n * g.m && ok(e, b / g.m, b % g.m)) { c.g = c.got; p = e.at(b / g.m, b % g.m); rc = api::mkernel_curvilinear_delete_node(id, p.x + 0.3 * s, p.y - 0.2 * s); cg::kill(e, b / g.m, b % g.m); cg::close(e); c.done(rc); c.expect(e, 0); c.undo(); }
        }
        else if (sc == 1)
        {
            bool inner = r.flag("interior"); Block b = block(r, g, true); r.shard(); load(); CG e = g; P p = g.at(b.i0, b.j0), q = g.at(b.i1, b.j1); if (p.x == MISS || q.x == MISS || (b.i0 == b.i1 && b.j0 == b.j1)) throw mc::Skip{};
            int rc = inner ? api::mkernel_curvilinear_delete_interior(id, p.x, p.y, q.x, q.y) : api::mkernel_curvilinear_delete_exterior(id, p.x, p.y, q.x, q.y);
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (inner ? i > b.i0 && i < b.i1 && j > b.j0 && j < b.j1 : !b.in(i, j)) cg::kill(e, i, j);
            if (!inner && (b.i0 == b.i1 || b.j0 == b.j1)) throw mc::Skip{};
            cg::close(e); if (cg::trim(e).n == 0) throw mc::Skip{}; c.key += inner ? ";interior" : ";exterior"; c.done(rc); c.expect(e, 0); c.undo();
        }
        else if (sc == 2)
        { // only the node moves; a second move starts from the new place
            int a = r.choose(g.n * g.m, "node"), d = r.choose(4, "by"), b = r.choose(g.n * g.m, "second node"); r.shard(); static const P D[4] = {{2, 1}, {-3, 2}, {0, -4}, {0.5, 0}}; if (!ok(g, a / g.m, a % g.m) || !ok(g, b / g.m, b % g.m)) throw mc::Skip{}; load(); CG e = g;
            for (int n : {a, b}) { c.g = e; P p = e.at(n / g.m, n % g.m), t = p + s * D[(d + (n == b)) % 4]; int rc = api::mkernel_curvilinear_move_node(id, p.x + 0.1 * s, p.y, t.x, t.y); cg::setNode(e, n / g.m, n % g.m, t); c.done(rc); c.expect(e, 0); c.undo(); }
        }
        else if (sc == 3)
        {
            int it = 1 + r.choose(2, "iterations") * 2; Block b = block(r, g, false); r.shard(); P p = g.at(b.i0, b.j0), q = g.at(b.i1, b.j1); if (p.x == MISS || q.x == MISS) throw mc::Skip{}; load();
            int rc = api::mkernel_curvilinear_smoothing(id, it, p.x, p.y, q.x, q.y); c.done(rc); c.shape(); c.undo(); CG first = c.got;
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j))
            {
                int f = nfaces(g, i, j); if (!b.in(i, j)) { c.same(i, j, "outside the block"); continue; } if (f == 1) { c.same(i, j, "a corner"); continue; }
                if (f == 4 && it == 1) { P w = 0.5 * g.at(i, j) + 0.125 * (g.at(i - 1, j) + g.at(i + 1, j) + g.at(i, j - 1) + g.at(i, j + 1)); r.checkf(dist(w, c.got.at(i, j)) < 1e-9, "mean:" + c.key, [&] { return fmt("node (%d,%d) is at (%g,%g), halfway to the mean of its neighbours is (%g,%g)", i, j, c.got.at(i, j).x, c.got.at(i, j).y, w.x, w.y); }); }
                if (f == 2 && it == 1)
                { // stays on the two boundary edges at the node
                    double d = 1e9; int a[4][2] = {{-1, 0}, {1, 0}, {0, -1}, {0, 1}}; int nb = 0; for (auto& v : a) if (ok(g, i + v[0], j + v[1])) { int ff = 0; for (int t : {0, -1}) { int fi = v[0] ? std::min(i, i + v[0]) : i + t, fj = v[0] ? j + t : std::min(j, j + v[1]); ff += fi >= 0 && fj >= 0 && cg::face(g, fi, fj); } if (ff == 1) { nb++; d = std::min(d, segDist(c.got.at(i, j), g.at(i, j), g.at(i + v[0], j + v[1]))); } }
                    if (nb == 2) r.checkf(d < (k == 1 ? 0.05 : 1e-6), "boundary:" + c.key, [&] { return fmt("boundary node (%d,%d) left the boundary by %g", i, j, d); });
                }
            }
            if (it > 1)
            { // the same as one iteration at a time (the corner nodes are found at their new places)
                bool u; int uid; api::mkernel_undo_state(u, uid); CG x = g; for (int t = 0; t < it; t++) { P pp = x.at(b.i0, b.j0), qq = x.at(b.i1, b.j1); api::mkernel_curvilinear_smoothing(id, 1, pp.x, pp.y, qq.x, qq.y); getCG(id, x); } std::string d = cg::diff(first, x, 1e-9); r.check(d.empty(), "iterations:" + c.key, "several iterations differ from repeated single ones: " + d);
            }
        }
        else if (sc == 4)
        {
            Line l = line(r, g); int c0 = r.choose(l.dir ? g.n : g.m, "area from"), c1 = r.choose(l.dir ? g.n : g.m, "area to"); r.shard(); if (c0 >= c1) throw mc::Skip{};
            P p = l.p(g, l.a), q = l.p(g, l.b), bp = l.dir ? g.at(c0, l.a) : g.at(l.a, c0), bq = l.dir ? g.at(c1, l.b) : g.at(l.b, c1); if (bp.x == MISS || bq.x == MISS) throw mc::Skip{}; load();
            int rc = api::mkernel_curvilinear_smoothing_directional(id, 1, p.x, p.y, q.x, q.y, bp.x, bp.y, bq.x, bq.y); c.done(rc); c.shape();
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (ok(g, i, j))
            {
                int al = l.along(i, j), ac = l.across(i, j); bool in = al >= l.a && al <= l.b && ac >= c0 && ac <= c1; if (!in) { c.same(i, j, "outside the area"); continue; }
                double d = dist(g.at(i, j), c.got.at(i, j)); for (int t : {-1, 1}) { int ii = l.dir ? i : i + t, jj = l.dir ? j + t : j; if (ok(g, ii, jj)) d = std::min(d, segDist(c.got.at(i, j), g.at(i, j), g.at(ii, jj))); }
                r.checkf(d < 1e-6, "along:" + c.key, [&] { return fmt("node (%d,%d) left its grid line by %g", i, j, d); });
                // moves to equal spacing, towards the further neighbour, less so away from the line
                int i0 = l.dir ? i : i - 1, j0 = l.dir ? j - 1 : j, i1 = l.dir ? i : i + 1, j1 = l.dir ? j + 1 : j; int nf = nfaces(g, i, j); auto pairs = [&](int a, int b) { int x = 0; for (int u : {-1, 0}) { int fi = l.dir ? i + u : i + a, fj = l.dir ? j + a : j + u; (void)b; if (fi >= 0 && fj >= 0) x += cg::face(g, fi, fj); } return x; };
                if (ok(g, i0, j0) && ok(g, i1, j1) && (nf == 4 || (nf == 2 && pairs(-1, 0) == 1 && pairs(0, 0) == 1)))
                {
                    double d0 = dist(g.at(i, j), g.at(i0, j0)), d1 = dist(g.at(i, j), g.at(i1, j1)); P far = d0 > d1 ? g.at(i0, j0) : g.at(i1, j1); r.checkf(dist(far, c.got.at(i, j)) <= std::max(d0, d1) + 1e-9, "towards:" + c.key, [&] { return fmt("node (%d,%d) moved away from its further neighbour", i, j); });
                    if (ac == l.at) { double M = std::max(d0, d1), f = 0.25 * std::fabs(d0 * d0 - d1 * d1) / (M * M); P w = (1 - f) * g.at(i, j) + f * far; r.checkf(dist(w, c.got.at(i, j)) < 1e-7, "fraction:" + c.key, [&] { return fmt("node (%d,%d) on the line went to (%.9g,%.9g), expected (%.9g,%.9g)", i, j, c.got.at(i, j).x, c.got.at(i, j).y, w.x, w.y); }); }
                    else if (l.at >= c0 && l.at <= c1) { int edge = ac < l.at ? c0 : c1; double sm = 0.5 * (1 + std::cos(M_PI * std::abs(ac - l.at) / std::abs(edge - l.at))), M = std::max(d0, d1), f = sm * 0.25 * std::fabs(d0 * d0 - d1 * d1) / (M * M); P w = (1 - f) * g.at(i, j) + f * far; r.checkf(dist(w, c.got.at(i, j)) < 1e-7, "fraction:" + c.key, [&] { return fmt("node (%d,%d) went to (%.9g,%.9g), expected (%.9g,%.9g)", i, j, c.got.at(i, j).x, c.got.at(i, j).y, w.x, w.y); }); }
                }
            }
        }
        else if (sc == 5)
        { // outward mirror of every part of the boundary
            int side = r.choose(4, "side"), dir = side < 2 ? 1 : 0, len = dir ? g.m : g.n, at = r.choose(dir ? g.n : g.m, "line"), a = r.choose(len, "from"), b = r.choose(len, "to"), f = r.choose(3, "factor"); bool swap = r.flag("swapped"); r.shard(); if (a >= b) throw mc::Skip{};
            int in = side % 2 ? -1 : 1; double F = f == 0 ? 1.0 : f == 1 ? 0.6 : 1.4; Line l{dir, at, a, b}; auto idx = [&](int k, int o) { return dir ? std::make_pair(at + o, k) : std::make_pair(k, at + o); };
            // every edge of the part has a face on the inner side only
            for (int t = a; t < b; t++) { auto x = idx(t, in > 0 ? 0 : -1), y = idx(t, in > 0 ? -1 : 0); if (x.first < 0 || x.second < 0 || !cg::face(g, x.first, x.second)) throw mc::Skip{}; if (y.first >= 0 && y.second >= 0 && cg::face(g, y.first, y.second)) throw mc::Skip{}; }
            load(); int shi = 0, shj = 0; CG e; { CG big; big.n = g.n + 2; big.m = g.m + 2; big.x.assign((size_t)big.n * big.m, MISS); big.y = big.x; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) cg::setNode(big, i + 1, j + 1, g.at(i, j)); e = big; } (void)shi; (void)shj;
            bool taken = false; for (int t = a; t <= b; t++) { auto x = idx(t, 0), y = idx(t, in), o = idx(t, -in); if (ok(g, o.first, o.second)) taken = true; P w = (1 + F) * g.at(x.first, x.second) - F * g.at(y.first, y.second); cg::setNode(e, o.first + 1, o.second + 1, w); }
            if (taken) throw mc::Skip{}; // the new line would run into existing nodes
            P p = l.p(g, swap ? b : a), q = l.p(g, swap ? a : b); bool inside = at > 0 && (dir ? at < g.n - 1 : at < g.m - 1); if (inside) c.key += ";inner boundary";
            int rc = api::mkernel_curvilinear_line_mirror(id, F, p.x, p.y, q.x, q.y); c.done(rc); c.expect(e, 1e-7); c.undo();
        }
        else if (sc == 6)
        { // a face on every boundary edge, once or twice
            int side = r.choose(4, "side"), dir = side < 2 ? 1 : 0, at = r.choose(dir ? g.n : g.m, "line"), a = r.choose((dir ? g.m : g.n) - 1, "edge"); r.shard(); int in = side % 2 ? -1 : 1; auto idx = [&](int k, int o) { return dir ? std::make_pair(at + o, k) : std::make_pair(k, at + o); };
            auto x = idx(a, in > 0 ? 0 : -1), y = idx(a, in > 0 ? -1 : 0); if (x.first < 0 || x.second < 0 || !cg::face(g, x.first, x.second)) throw mc::Skip{}; if (y.first >= 0 && y.second >= 0 && cg::face(g, y.first, y.second)) throw mc::Skip{};
            load(); CG e; e.n = g.n + 2; e.m = g.m + 2; e.x.assign((size_t)e.n * e.m, MISS); e.y = e.x; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) cg::setNode(e, i + 1, j + 1, g.at(i, j));
            P m{0, 0}; for (int t : {a, a + 1}) { auto u = idx(t, 0), v = idx(t, in), o = idx(t, -in); P w = 2.0 * g.at(u.first, u.second) - g.at(v.first, v.second); m = m + 0.5 * g.at(u.first, u.second) + 0.03 * (w - g.at(u.first, u.second)); if (!ok(g, o.first, o.second)) cg::setNode(e, o.first + 1, o.second + 1, w); }
            int rc = api::mkernel_curvilinear_insert_face(id, m.x, m.y); c.done(rc); c.expect(e, 1e-7); c.undo();
        }
        else if (sc == 7)
        {
            Line l = line(r, g); int c0 = r.choose(l.dir ? g.n : g.m, "area from"), c1 = r.choose(l.dir ? g.n : g.m, "area to"), f = r.choose(2, "sign"); r.shard(); if (c0 >= c1) throw mc::Skip{}; if (holes) throw mc::Skip{};
            P p = l.p(g, l.a), q = l.p(g, l.b), bp = l.dir ? g.at(c0, l.a) : g.at(l.a, c0), bq = l.dir ? g.at(c1, l.b) : g.at(l.b, c1); double F = f ? 0.4 : -0.3; load();
            int rc = api::mkernel_curvilinear_line_attraction_repulsion(id, F, p.x, p.y, q.x, q.y, bp.x, bp.y, bq.x, bq.y); c.done(rc); c.shape(); c.undo();
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++)
            {
                int al = l.along(i, j), ac = l.across(i, j); bool in = al >= l.a && al <= l.b && ac >= c0 && ac <= c1; if (!in) { c.same(i, j, "outside the area"); continue; } if (ac == l.at) { c.same(i, j, "on the line"); continue; }
                P d = c.got.at(i, j) - g.at(i, j); int edge = ac < l.at ? c0 : c1; 
                if (l.at >= c0 && l.at <= c1)
                {
                    if (ac == edge && edge != l.at) r.checkf(std::hypot(d.x, d.y) < 1e-9, "edge:" + c.key, [&] { return fmt("node (%d,%d) at the edge of the area moved", i, j); });
                    if (k == 0)
                    { // straight towards or away from the line, with the cosine of the distance in lines
                        double sm = 0.5 * (1 + std::cos(M_PI * std::abs(ac - l.at) / std::abs(edge - l.at))), want = (ac < l.at ? 1 : -1) * (l.dir ? F : -F) * sm /* which sign attracts depends on the direction of the line: fixed by the existing tests */; P w = l.dir ? P{0, 12 * want} : P{10 * want, 0}; double am = l.dir ? d.y : d.x; // times the size of the cells there
                        r.checkf(std::fabs(l.dir ? d.x : d.y) < 1e-7 && am * want >= 0 && std::fabs(am) > 9.99 * std::fabs(want) - 1e-9 && std::fabs(am) < 12.01 * std::fabs(want) + 1e-9, "amount:" + c.key, [&] { return fmt("node (%d,%d) moved by (%g,%g), expected (%g,%g)", i, j, d.x, d.y, w.x, w.y); });
                    }
                }
            }
        }
        else if (sc == 8)
        { // shift one or two nodes of a line
            Line l = line(r, g); int c0 = r.choose(l.dir ? g.n : g.m, "area from"), c1 = r.choose(l.dir ? g.n : g.m, "area to"), w1 = r.choose(l.b - l.a + 1, "node"), w2 = r.choose(l.b - l.a + 1, "second node"); r.shard(); if (c0 > l.at || c1 < l.at || c0 == c1 || w2 < w1) throw mc::Skip{}; if (holes && (k > 3 || (!r.thorough() && (w1 + w2) % 2))) throw mc::Skip{}; bool small = (w1 + w2 + c0) % 3 == 0, sw = (c1 + l.a) % 2; if (!r.thorough() && k != 0 && (l.at + c0 + c1) % 2) throw mc::Skip{};
            P p = l.p(g, l.a), q = l.p(g, l.b), bp = l.dir ? g.at(c0, l.a) : g.at(l.a, c0), bq = l.dir ? g.at(c1, l.b) : g.at(l.b, c1); if (bp.x == MISS || bq.x == MISS) throw mc::Skip{}; if (sw) { std::swap(p, q); std::swap(bp, bq); } load(); P D1{1.5, -2}, D2{-1, 1.2}; if (small) D2 = {0.02, -0.01};
            int rc = api::mkernel_curvilinear_initialize_line_shift(id); rc |= api::mkernel_curvilinear_set_line_line_shift(id, p.x, p.y, q.x, q.y); rc |= api::mkernel_curvilinear_set_block_line_shift(id, bp.x, bp.y, bq.x, bq.y);
            P m1 = l.p(g, l.a + w1), m2 = l.p(g, l.a + w2); rc |= api::mkernel_curvilinear_move_node_line_shift(id, m1.x, m1.y, m1.x + D1.x, m1.y + D1.y); if (w2 != w1) rc |= api::mkernel_curvilinear_move_node_line_shift(id, m2.x, m2.y, m2.x + D2.x, m2.y + D2.y);
            rc |= api::mkernel_curvilinear_line_shift(id); rc |= api::mkernel_curvilinear_finalize_line_shift(id); c.done(rc); c.shape();
            auto delta = [&](int t) { std::vector<std::pair<int, P>> v; v.push_back({0, {0, 0}}); if (l.b - l.a > 0) v.push_back({l.b - l.a, {0, 0}}); std::map<int, P> m; for (auto& x : v) m[x.first] = x.second; m[w1] = D1; if (w2 != w1) m[w2] = D2; auto hi = m.lower_bound(t); if (hi->first == t) return hi->second; auto lo = std::prev(hi); double f = (double)(t - lo->first) / (hi->first - lo->first); return (1 - f) * lo->second + f * hi->second; };
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++)
            {
                int al = l.along(i, j), ac = l.across(i, j); bool in = al >= l.a && al <= l.b && ac >= c0 && ac <= c1; if (!ok(g, i, j)) continue; if (!in) { c.same(i, j, "outside the area"); continue; } P d = c.got.at(i, j) - g.at(i, j), w = delta(al - l.a); int edge = ac < l.at ? c0 : c1;
                double sm = ac == l.at ? 1 : 0.5 * (1 + std::cos(M_PI * std::abs(ac - l.at) / std::abs(edge - l.at)));
                if (k == 0 || holes || ac == l.at || sm < 1e-9) r.checkf(dist(d, sm * w) < 1e-6, "shift:" + c.key, [&] { return fmt("node (%d,%d) moved by (%g,%g), expected (%g,%g)", i, j, d.x, d.y, sm * w.x, sm * w.y); });
                else r.checkf(std::fabs(std::hypot(d.x, d.y) - sm * std::hypot(w.x, w.y)) < 0.35 * sm * std::hypot(w.x, w.y) + 1e-6, "shift:" + c.key, [&] { return fmt("node (%d,%d) moved by (%g,%g), about %g times (%g,%g) expected", i, j, d.x, d.y, sm, w.x, w.y); });
            }
        }
        else
        { // orthogonalization of a block with a frozen line
            Block b = block(r, g, false); int fr = r.choose(5, "frozen line"); r.shard(); if (holes) throw mc::Skip{}; load(); Line l{fr % 2, 2, 0, (fr % 2 ? g.m : g.n) - 1}; if (fr > 2) { l.a = 1; l.b--; }
            P p = g.at(b.i0, b.j0), q = g.at(b.i1, b.j1), a0 = l.p(g, l.a), a1 = l.p(g, l.b); int rc = api::mkernel_curvilinear_initialize_orthogonalize(id, ops::orthoPar()); rc |= api::mkernel_curvilinear_set_block_orthogonalize(id, p.x, p.y, q.x, q.y); if (fr) rc |= api::mkernel_curvilinear_set_frozen_lines_orthogonalize(id, a0.x, a0.y, a1.x, a1.y);
            rc |= api::mkernel_curvilinear_orthogonalize(id); rc |= api::mkernel_curvilinear_finalize_orthogonalize(id); c.done(rc); c.shape();
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++)
            {
                if (!b.in(i, j)) { c.same(i, j, "outside the block"); continue; } if (fr && l.has(i, j) && nfaces(g, i, j) == 4) { c.same(i, j, "on the frozen line"); continue; } /* on the outline it may slide along the outline */ if (nfaces(g, i, j) == 1) c.same(i, j, "a corner");
                if (k == 0) r.checkf(dist(c.got.at(i, j), g.at(i, j)) < 0.2, "rectangular:" + c.key, [&] { return fmt("node (%d,%d) of a rectangular grid moved by %g", i, j, dist(c.got.at(i, j), g.at(i, j))); });
            }
        }
    }
}
MC_MAIN(body)
