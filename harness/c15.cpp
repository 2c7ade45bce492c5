// C15: operations on polygons: refining, grading, offsetting and snapping move and add exactly the nodes they should.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
namespace
{
    typedef std::vector<P> R; const double RAD = 6378137.0;
    R base(int k) { switch (k) { case 0: return {{0, 0}, {30.3, 0}, {30.3, 20.9}, {0, 20.9}}; case 1: return {{0, 0}, {21, -7}, {44, 3}, {33, 29}, {9, 24}}; case 2: return {{0, 0}, {40, 0}, {40, 16.1}, {17, 16.1}, {17, 37}, {0, 37}}; case 3: return {{3, 2}, {61, 9}, {20, 44}}; default: { R r; for (int i = 0; i < 9; i++) { double a = 2 * M_PI * (i + 0.3 * std::sin(2.0 * i)) / 9; r.push_back({25 + (21 + 3 * (i % 3)) * std::cos(a), 25 + (18 + 2 * (i % 2)) * std::sin(a)}); } return r; } } }
    void body(Run& r)
    {
        int op = r.choose(4, "operation"), shape = r.choose(5, "shape"), proj = r.choose(2, "projection"); R b = base(shape); int n = (int)b.size(), rot = r.choose(n, "start"), rev = r.choose(2, "direction"), other = r.choose(op == 1 ? 1 : op == 2 ? 6 : 4, "other polygons"), i0 = 0, i1 = 0, arg = 0;
        if (op != 2 && other == 3) other = 4; if (op == 2) arg = r.choose(4, "distance"); else { i0 = r.choose(n + 1, "first"); i1 = r.choose(n + 1, "second"); arg = op == 0 ? r.choose(4, "length") : op == 3 ? r.choose(4, "land") : 0; } int both = op == 2 ? r.choose(2, "both sides") : 0; r.shard();
        std::rotate(b.begin(), b.begin() + rot, b.end()); if (rev) std::reverse(b.begin(), b.end()); b.push_back(b[0]); double s = proj ? 1e-4 : 1; P off = proj ? P{4, 52} : P{0, 0}; double unit = proj ? s * M_PI / 180 * RAD : 1; auto T = [&](P p) { return off + s * p; }; for (auto& p : b) p = T(p); double cy = proj ? std::cos(52 * M_PI / 180) : 1;
        auto loc = [&](P p) { P q = (1 / s) * (p - off); return P{q.x * (proj ? std::cos((52 + 0.0 * q.y) * M_PI / 180) : 1), q.y}; }; auto len = [&](P a, P c) { if (!proj) return dist(a, c); double dy = c.y - a.y, dx = (c.x - a.x) * std::cos((a.y + c.y) / 2 * M_PI / 180); return std::hypot(dx, dy) / s; }; (void)cy;
        // polygons before and after the one considered
        R q1, q2; for (P p : {P{100, 0}, P{117, 1}, P{109, 12}, P{100, 0}}) q1.push_back(T(p)); for (P p : {P{100, 50}, P{120, 50}, P{120, 70}, P{99, 66}, P{100, 50}}) q2.push_back(T(p)); R hole; { P c{0, 0}; for (int k = 0; k < n; k++) c = c + (1.0 / n) * b[k]; if (shape == 2) c = T({8, 8}); for (P p : {P{-2, -1.5}, P{2.2, -1.3}, P{0.4, 2.1}, P{-2, -1.5}}) hole.push_back(c + s * p); } 
        Geo g; auto put = [&](const R& v) { for (P p : v) g.add(p.x, p.y); }; size_t start = 0; std::vector<R> all; if (other == 1) { put(b); g.sep(); put(q1); all = {b, q1}; } else if (other == 2) { put(q2); g.sep(); start = q2.size() + 1; put(b); all = {q2, b}; } else if (other == 3) { put(b); g.add(HOLE, HOLE, HOLE); put(hole); g.sep(); put(q1); all = {b, hole, q1}; } else if (other == 4) { put(q2); g.sep(); start = q2.size() + 1; put(b); g.sep(); put(q1); all = {q2, b, q1}; } else if (other == 5) { R h2 = hole; for (auto& p : h2) p = p + s * P{5.1, 0.3}; put(q1); g.sep(); put(b); g.add(HOLE, HOLE, HOLE); put(hole); g.add(HOLE, HOLE, HOLE); put(h2); all = {q1, b, hole, h2}; } else { put(b); all = {b}; }
        reset(); int id = alloc(proj); std::string key; r.step(); int rc;
        auto split = [&](const Geo& o) { std::vector<R> v(1); for (size_t i = 0; i < o.x.size(); i++) if (o.x[i] == MISS || o.x[i] == HOLE) v.push_back({}); else v.back().push_back({o.x[i], o.y[i]}); return v; };
        auto near = [&](P a, P c, double tol) { return len(a, c) < tol; };
        if (op == 0)
        { // refine: each side in the interval gets round(length / target) equal parts
            static const double LN[] = {2.71, 7.37, 13.13, 500}; double L = LN[arg]; int cnt = -1; key = "refine"; rc = api::mkernel_polygon_count_refine(id, g, (int)start + i0, (int)start + i1, L * unit, cnt); r.check(rc == 0, key, "count fails: " + lastError()); Geo o = Geo::sized(cnt); rc = api::mkernel_polygon_refine(id, g, (int)start + i0, (int)start + i1, L * unit, o); r.check(rc == 0, key, "fails: " + lastError());
            R want; bool tie = false; bool whole = start + i0 == 0 && start + i1 == 0; for (int k = 0; k < n; k++) { bool in = i0 < i1 ? (k >= i0 && k < i1) : i0 > i1 ? (k < i1 || k >= i0) : whole; want.push_back(b[k]); if (!in) continue; double v = len(b[k], b[k + 1]) / L; if (std::fabs(v - std::floor(v) - 0.5) < 1e-3) tie = true; int m = (int)std::lround(v); for (int j = 1; j < m; j++) want.push_back(b[k] + (double)j / m * (b[k + 1] - b[k])); } want.push_back(b[n]); if (tie) { r.note("tie"); return; } R got = o.pts();
            r.checkf(got.size() == want.size(), key, [&] { return fmt("%d nodes, expected %d (shape %d, nodes %d to %d)", (int)got.size(), (int)want.size(), shape, i0, i1); }); for (size_t k = 0; k < want.size(); k++) r.checkf(near(got[k], want[k], 1e-6), key, [&] { P a = loc(got[k]), c = loc(want[k]); return fmt("node %d at (%g, %g), expected (%g, %g)", (int)k, a.x, a.y, c.x, c.y); }); r.outcome((int)got.size()); mc::Hash h; h.vd(o.x); h.vd(o.y); r.state(h.h);
        }
        else if (op == 1)
        { // graded refinement of the interval: on the outline, in order, ends and the rest unchanged
            int cnt = -1; key = "grade"; rc = api::mkernel_polygon_count_linear_refine(id, g, i0, i1, cnt); r.check(rc == 0, key, "count fails: " + lastError()); Geo o = Geo::sized(cnt); rc = api::mkernel_polygon_linear_refine(id, g, i0, i1, o); r.check(rc == 0, key, "fails: " + lastError()); R got = o.pts(); mc::Hash h; h.vd(o.x); h.vd(o.y); r.state(h.h);
            if (i0 == i1 || (i0 == n && i1 == 0)) { r.checkf(got.size() == b.size(), key, [&] { return std::string("an empty interval changes the polygon"); }); return; }
            R keep, seg; if (i0 < i1) { for (int k = i0; k <= i1; k++) seg.push_back(b[k]); } else { for (int k = i0; k <= n; k++) seg.push_back(b[k]); for (int k = 1; k <= i1; k++) seg.push_back(b[k]); } size_t at = 0, head = i0 < i1 ? (size_t)i0 : (size_t)(i0 - i1), tail = i0 < i1 ? (size_t)(n - i1) : 0; r.checkf(got.size() >= head + tail + 2, key, [&] { return fmt("%d nodes, %d are outside the interval", (int)got.size(), (int)(head + tail)); });
            for (size_t k = 0; k < head; k++) { P w = b[i0 < i1 ? k : i1 + k]; r.checkf(near(got[k], w, 1e-9), key, [&] { return fmt("node %d outside the interval moved", (int)k); }); } for (size_t k = 0; k < tail; k++) r.checkf(near(got[got.size() - tail + k], b[i1 + 1 + k], 1e-9), key, [&] { return fmt("node %d after the interval moved", (int)k); });
            R mid(got.begin() + head, got.end() - tail); std::vector<double> cum{0}; for (size_t k = 1; k < seg.size(); k++) cum.push_back(cum.back() + len(seg[k - 1], seg[k])); (void)at; if (seg.size() < 2 || cum.back() == 0) return; 
            r.checkf(near(mid.front(), seg.front(), 1e-6) && near(mid.back(), seg.back(), 1e-6), key, [&] { return fmt("the ends of the interval %d to %d moved", i0, i1); });
            double prev = -1e-6; std::vector<double> pos; for (size_t k = 0; k < mid.size(); k++) { double best = 1e300, ps = 0; for (size_t j = 0; j + 1 < seg.size(); j++) { P u = seg[j + 1] - seg[j], w = mid[k] - seg[j]; double t = std::clamp((u.x * w.x + u.y * w.y) / (u.x * u.x + u.y * u.y), 0.0, 1.0), d = len(mid[k], seg[j] + t * u), ps1 = cum[j] + t * (cum[j + 1] - cum[j]); if (d < best - 1e-9 || (d < 1e-6 && best < 1e-6 && ps < prev && ps1 >= prev)) { best = d; ps = ps1; } } if (k + 1 == mid.size()) ps = cum.back(); r.checkf(best < 1e-4, key, [&] { return fmt("node %d is %g from the outline", (int)k, best); }); r.checkf(ps > prev - 1e-6, key, [&] { return fmt("node %d goes back along the outline: %g after %g", (int)k, ps, prev); }); prev = ps; pos.push_back(ps); }
            // gradual transition between the lengths of the first and last side of the interval
            if (n >= 4 && seg.size() >= 3) { double lo = 1e300, hi = 0; for (size_t k = 1; k < cum.size(); k++) { lo = std::min(lo, cum[k] - cum[k - 1]); hi = std::max(hi, cum[k] - cum[k - 1]); } for (size_t k = 1; k < pos.size(); k++) { double l = pos[k] - pos[k - 1]; r.checkf(l > 0.45 * lo && l < 1.8 * hi, key, [&] { return fmt("side %d is %g long, those of the outline %g to %g", (int)k, l, lo, hi); }); } }
            r.outcome((int)mid.size());
        }
        else if (op == 2)
        { // offset: sides parallel to the old ones at the distance; on the right of the direction first, then on the left
            static const double DS[] = {1.3, 0.4, -1.1, 2.6}; double d = DS[arg]; int cnt = -1; key = "offset"; rc = api::mkernel_polygon_count_offset(id, g, both, d * unit, cnt); r.check(rc == 0, key, "count fails: " + lastError()); Geo o = Geo::sized(cnt); rc = api::mkernel_polygon_get_offset(id, g, both, d * unit, o); r.check(rc == 0, key, "fails: " + lastError()); auto got = split(o); std::vector<std::pair<R, double>> want; for (auto& v : all) want.push_back({v, d}); if (both) for (auto& v : all) want.push_back({v, -d});
            r.checkf(got.size() == want.size(), key, [&] { return fmt("%d polygons, expected %d", (int)got.size(), (int)want.size()); });
            for (size_t w = 0; w < want.size(); w++) { auto& v = want[w].first; auto& u = got[w]; r.checkf(u.size() == v.size(), key, [&] { return fmt("polygon %d has %d nodes, expected %d", (int)w, (int)u.size(), (int)v.size()); }); r.checkf(near(u.front(), u.back(), 1e-6), key, [&] { return fmt("polygon %d is not closed", (int)w); }); for (size_t k = 0; k + 1 < v.size(); k++) for (P q : {u[k], u[k + 1]}) { P a = loc(v[k]), c = loc(v[k + 1]), z = loc(q), e = c - a; double l = std::hypot(e.x, e.y), dd = (e.y * (z.x - a.x) - e.x * (z.y - a.y)) / l; r.checkf(std::fabs(dd - want[w].second) < (proj ? 2e-3 : 1e-7), key, [&] { return fmt("polygon %d side %d: a node is at %g from the side, expected %g", (int)w, (int)k, dd, want[w].second); }); } }
            r.outcome((int)got.size()); mc::Hash h; h.vd(o.x); h.vd(o.y); r.state(h.h);
        }
        else
        { // snapping: nodes of the interval go to the closest point of the land, the others stay
            static const std::vector<std::vector<R>> LB = {{{{-10, -13}, {70, -11}}}, {{{-8, 50}, {25, 31}, {60, 47}}, {{-9, -9}, {55, -12}}}, {{{11, 7}, {14, 22}, {31, 19}, {29, 5}, {11, 7}}}, {{{150, 150}, {160, 150}}}}; Geo land; for (auto& l : LB[arg]) { if (!land.x.empty()) land.sep(); for (P p : l) land.add(T(p).x, T(p).y); } key = "snap"; bool whole = start + i0 == 0 && start + i1 == 0; Geo o = g; rc = api::mkernel_polygon_snap_to_landboundary(id, land, o, (int)start + i0, (int)start + i1); r.check(rc == 0, key, "fails: " + lastError());
            for (size_t k = 0; k < g.x.size(); k++)
            {
                P was{g.x[k], g.y[k]}, is{o.x[k], o.y[k]}; bool mine = k >= start && k < start + b.size(); int kk = (int)(k - start); auto inI = [&](int q) { return whole || (i0 <= i1 ? q >= i0 && q <= i1 : q >= i0 || q <= i1); }; bool in = mine && (inI(kk) || (kk == 0 && inI(n)) || (kk == n && inI(0))); if (!in) { r.checkf(was.x == is.x && was.y == is.y, key, [&] { return fmt("node %d outside the interval moved", (int)k); }); continue; }
                double best = 1e300, second = 1e300; P bp; for (auto& l : LB[arg]) for (size_t j = 0; j + 1 < l.size(); j++) { P a = loc(T(l[j])), c = loc(T(l[j + 1])), p = loc(was), u = c - a; double t = std::clamp((u.x * (p.x - a.x) + u.y * (p.y - a.y)) / (u.x * u.x + u.y * u.y), 0.0, 1.0); P z = a + t * u; double dd = dist(z, p); if (dd < best - 1e-9) { if (dist(z, bp) > 1e-6) second = best; best = dd; bp = z; } else if (dist(z, bp) > 1e-6) second = std::min(second, dd); } if (second - best < (proj ? 5e-2 : 1e-6)) { r.note("two closest points"); continue; }
                P z = loc(is); r.checkf(dist(z, bp) < (proj ? 2e-2 : 1e-6), key, [&] { return fmt("node %d goes to (%g, %g), the closest point of the land is (%g, %g)", (int)k, z.x, z.y, bp.x, bp.y); });
            }
            mc::Hash h; h.vd(o.x); h.vd(o.y); r.state(h.h); r.outcome(arg);
        }
        r.validated++;
    }
}
MC_MAIN(body)
