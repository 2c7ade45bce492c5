// C18: interpolation gives the defined combination of exactly the samples that belong to each location.
#include "ops.hpp"
#include "ref.hpp"
#include <map>
using namespace mk;
namespace
{
    bool inRing(const std::vector<P>& R, P p) { bool in = false; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) if ((R[i].y > p.y) != (R[j].y > p.y) && p.x < (R[j].x - R[i].x) * (p.y - R[i].y) / (R[j].y - R[i].y) + R[i].x) in = !in; return in; }
    double ringDist(const std::vector<P>& R, P p) { double d = 1e300; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) { P u = R[i] - R[j]; double l = u.x * u.x + u.y * u.y, t = l > 0 ? std::clamp(((p.x - R[j].x) * u.x + (p.y - R[j].y) * u.y) / l, 0.0, 1.0) : 0; d = std::min(d, dist(p, R[j] + t * u)); } return d; }
    P cen(const std::vector<P>& R) { double a = 0; P c{0, 0}; P o = R[0]; for (size_t i = 0; i < R.size(); i++) { P u = R[i] - o, v = R[(i + 1) % R.size()] - o; double k = u.x * v.y - u.y * v.x; a += k; c = c + k * (u + v); } return o + (1 / (3 * a)) * c; }
    std::vector<P> scaled(std::vector<P> R, P c, double f) { for (auto& p : R) p = c + f * (p - c); return R; }
    struct Where { P at; bool valid = true; std::vector<P> cell; };
    const P CAND[] = {{1.3, 1.1}, {4.1, 3.2}, {8.7, 2.3}, {12.9, 4.4}, {16.2, 8.8}, {3.9, 13.7}, {9.6, 11.4}, {14.3, 15.1}, {21.7, 6.1}, {26.4, 17.2}, {18.9, 24.6}, {6.2, 27.3}};
    const double VAL[] = {7, -3, 11.5, 2.25, -20, 30, 4, 9, -1, 16, 55, -8};
    struct World
    {
        int id; M2 m; double s; P off; int proj;
        std::vector<Where> where(int loc, double f)
        {
            std::vector<Where> w; auto F = m.faces();
            // the cell is enlarged about its own centre and then about the location
            if (loc == 0) { for (auto& f1 : F) { auto R = m.facePts(f1); P c = cen(R); w.push_back({c, true, scaled(R, c, f * f)}); } return w; }
            for (int n = 0; n < m.nn(); n++)
            {
                Where x; x.at = m.node(n); x.valid = m.nx[n] != MISS; if (!x.valid) { w.push_back(x); continue; }
                // the dual cell: through the middles of the edges and the centres of the faces around the node, or the node itself where there is none
                struct E { double a; int o; }; std::vector<E> E1; for (int e = 0; e < m.ne(); e++) for (int k = 0; k < 2; k++) if (m.en[2 * e + k] == n && m.en[2 * e + 1 - k] >= 0) { int o = m.en[2 * e + 1 - k]; P d = m.node(o) - x.at; E1.push_back({std::atan2(d.y, d.x), o}); } std::sort(E1.begin(), E1.end(), [](const E& a, const E& b) { return a.a < b.a; });
                std::vector<P> R; for (size_t i = 0; i < E1.size(); i++) { int o = E1[i].o, o2 = E1[(i + 1) % E1.size()].o; R.push_back(0.5 * (x.at + m.node(o))); P c = x.at; for (auto& f1 : F) for (size_t k = 0; k < f1.size(); k++) if (f1[k] == n && f1[(k + 1) % f1.size()] == o && f1[(k + f1.size() - 1) % f1.size()] == o2) c = cen(m.facePts(f1)); R.push_back(c); }
                if (E1.size() > 1) x.cell = scaled(scaled(R, cen(R), f), x.at, f); w.push_back(x);
            }
            return w;
        }
    };
    // the value of a method over samples; NaN stands for missing
    double combine(int method, P at, const std::vector<int>& S, const std::vector<P>& sp, const std::vector<double>& sv, int mn, const std::function<double(P, P)>& D)
    {
        if (S.empty()) return MISS; double v = 0;
        switch (method)
        {
        case 1: if ((int)S.size() < mn) return MISS; for (int i : S) v += sv[i]; return v / S.size();
        case 2: { double b = 1e300; for (int i : S) { double d = D(at, sp[i]); if (d < b) { b = d; v = sv[i]; } } return v; }
        case 3: v = -1e300; for (int i : S) v = std::max(v, sv[i]); return v;
        case 4: v = 1e300; for (int i : S) v = std::min(v, sv[i]); return v;
        case 5: { if ((int)S.size() < mn) return MISS; double w = 0; for (int i : S) { double q = 1 / std::max(0.01, D(at, sp[i])); w += q; v += q * sv[i]; } return v / w; }
        default: v = 1e300; for (int i : S) v = std::min(v, std::fabs(sv[i])); return v;
        }
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario"), mesh = r.choose(4, "mesh"), proj = r.choose(2, "projection"), loc = r.choose(3, "location"); std::string key;
        MeshIn in = mesh == 1 ? trigrid(3, 3, 10, 10, 0, 0, true) : grid(3, 3, 10, 10); if (mesh != 1) for (auto& p : in.n) p = P{p.x + 0.13 * p.y + 0.4, p.y - 0.06 * p.x + 1.2}; else for (auto& p : in.n) p = P{1.02 * p.x + 0.3, 0.97 * p.y + 0.9}; if (mesh == 2) in.n[5] = in.n[5] + P{1.5, -1.1};
        double s = proj ? 1e-4 : 1; P off = proj ? P{4, 52} : P{0, 0}; for (auto& p : in.n) p = off + s * p;
        auto world = [&] { reset(); World w; w.id = alloc(proj); setMesh2(w.id, in); if (mesh == 3) api::mkernel_mesh2d_delete_node(w.id, 10); getM2(w.id, w.m); w.s = s; w.off = off; w.proj = proj; return w; };
        auto D = [&](P a, P b) { P d = b - a; if (!proj) return std::hypot(d.x, d.y); double k = M_PI / 180 * 6378137.0; return std::hypot(d.x * k * std::cos(0.5 * (a.y + b.y) * M_PI / 180), d.y * k); };
        if (sc == 0)
        { // averaging: all subsets of the candidate samples
            int method = 1 + r.choose(6, "method"), f = r.choose(3, "search size"), mn = 1 + r.choose(method == 1 || method == 5 ? 3 : 1, "minimum number"), NC = r.thorough() ? 12 : 8, sub = r.choose(1 << NC, "samples"), ms = r.choose(2, "one missing"); r.shard(); if (!sub || (ms && sub % 3)) throw mc::Skip{};
            if (proj && sub % 5) throw mc::Skip{};
            World w = world(); key = fmt("averaging%d;location%d", method, loc); double ff = f == 2 ? 0.7 : f ? 1.4 : 1; if (f == 2 && !r.thorough() && sub % 2) throw mc::Skip{}; std::vector<P> sp; std::vector<double> sv; Geo g; for (int i = 0; i < NC; i++) if (sub >> i & 1) { sp.push_back(off + s * CAND[i]); sv.push_back(VAL[i]); if (ms && sv.size() == 2) sv.back() = MISS; g.add(sp.back().x, sp.back().y, sv.back()); }
            if (ms && sv.size() < 2) throw mc::Skip{}; int n = loc == 0 ? w.m.nf() : loc == 1 ? w.m.nn() : w.m.ne(); Geo out = Geo::sized(n); int rc = api::mkernel_mesh2d_averaging_interpolation(w.id, g, loc, method, ff, mn, out); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); r.validated++; mc::Hash h; h.vd(out.v); r.state(h.h);
            int nj = 0; auto W = w.where(loc == 2 ? 1 : loc, ff);
            // lower and upper bound of the value at each face or node
            struct B { double lo, hi; bool missing, maybe; }; std::vector<B> b;
            for (auto& x : W)
            {
                if (!x.valid) { b.push_back({0, 0, true, false}); continue; }
                std::vector<int> S; bool shaky = x.cell.empty(); if (!shaky) for (size_t i = 0; i < sp.size(); i++) { if (sv[i] == MISS) continue; if (ringDist(x.cell, sp[i]) < 1e-3 * s) shaky = true; if (inRing(x.cell, sp[i])) S.push_back((int)i); }
                if (shaky) { b.push_back({-1e300, 1e300, false, true}); continue; }
                double a = combine(method, x.at, S, sp, sv, mn, D); b.push_back({a, a, a == MISS, false}); nj++;
            }
            auto judge = [&](int i, B x, double v) { if (v == MISS) r.checkf(x.missing || x.maybe, "missing:" + key, [&] { return fmt("no value at location %d, expected %g..%g", i, x.lo, x.hi); }); else r.checkf(!x.missing && v >= x.lo - 1e-4 * (1 + std::fabs(x.lo)) && v <= x.hi + 1e-4 * (1 + std::fabs(x.hi)), key, [&] { return x.missing ? fmt("value %g at location %d, expected none", v, i) : fmt("value %g at location %d, expected %g..%g", v, i, x.lo, x.hi); }); };
            if (loc < 2) { for (int i = 0; i < n; i++) { judge(i, b[i], out.v[i]); if (W[i].valid) r.checkf(dist({out.x[i], out.y[i]}, W[i].at) < 1e-3 * s, "location:" + key, [&] { return fmt("location %d is reported at (%.9g,%.9g), expected (%.9g,%.9g)", i, out.x[i], out.y[i], W[i].at.x, W[i].at.y); }); } }
            else for (int e = 0; e < n; e++) { int u = w.m.en[2 * e], v = w.m.en[2 * e + 1]; if (u < 0 || v < 0) { judge(e, {0, 0, true, false}, out.v[e]); continue; } B x{0.5 * (b[u].lo + b[v].lo), 0.5 * (b[u].hi + b[v].hi), b[u].missing || b[v].missing, b[u].maybe || b[v].maybe}; judge(e, x, out.v[e]); P c = 0.5 * (w.m.node(u) + w.m.node(v)); r.check(dist({out.x[e], out.y[e]}, c) < 1e-3 * s, "location:" + key, "the middle of an edge is elsewhere"); }
            int nv = 0; for (double v : out.v) nv += v != MISS; r.outcome(nv); r.note(nj == (int)W.size() ? "all locations judged" : "a sample on the border of a search cell");
        }
        else
        { // triangulation: all subsets of the candidate samples, in several orders
            int NC = r.thorough() ? 12 : 9, sub = r.choose(1 << NC, "samples"), ord = r.choose(3, "order"), lin = sc == 2; r.shard(); if (lin && ord) throw mc::Skip{}; std::vector<int> ix; for (int i = 0; i < NC; i++) if (sub >> i & 1) ix.push_back(i); if (ix.size() < 3) throw mc::Skip{}; if (ord == 1) std::reverse(ix.begin(), ix.end()); if (ord == 2) std::rotate(ix.begin(), ix.begin() + 1, ix.end());
            World w = world(); key = fmt("triangulation;location%d", loc); static const P WIDE[] = {{-9, -8}, {41, -6}, {44, 39}, {-7, 42}, {13, 12}, {21, 7}, {5, 26}, {29, 21}, {16, -5}, {37, 14}, {2, 11}, {18, 33}}; std::vector<P> sp; std::vector<double> sv; Geo g; for (int i : ix) { sp.push_back(off + s * WIDE[i]); sv.push_back(lin ? 3 + 0.5 * WIDE[i].x - 0.25 * WIDE[i].y : VAL[i]); g.add(sp.back().x, sp.back().y, sv.back()); }
            int n = loc == 0 ? w.m.nf() : loc == 1 ? w.m.nn() : w.m.ne(), N = (int)sp.size(); Geo out = Geo::sized(n); int rc = api::mkernel_mesh2d_triangulation_interpolation(w.id, g, loc, out); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); r.validated++; mc::Hash h; h.vd(out.v); r.state(h.h); int nv = 0;
            std::vector<std::array<int, 3>> T; for (int a = 0; a < N; a++) for (int b = a + 1; b < N; b++) for (int c = b + 1; c < N; c++)
            {
                P A = (1 / s) * (sp[a] - off), Bp = (1 / s) * (sp[b] - off), C = (1 / s) * (sp[c] - off); double det = (Bp.x - A.x) * (C.y - A.y) - (Bp.y - A.y) * (C.x - A.x); if (std::fabs(det) < 1e-9) continue; bool empty = true;
                P u = Bp - A, v = C - A; double d = 2 * det, uu = u.x * u.x + u.y * u.y, vv = v.x * v.x + v.y * v.y; P cc = A + P{(v.y * uu - u.y * vv) / d, (u.x * vv - v.x * uu) / d}; double rr = dist(cc, A); for (int k = 0; k < N && empty; k++) if (k != a && k != b && k != c && dist((1 / s) * (sp[k] - off), cc) < rr * (1 - 1e-9)) empty = false; if (empty) T.push_back({a, b, c});
            }
            for (int i = 0; i < n; i++)
            {
                P p; bool valid = true; if (loc == 0) p = cen(w.m.facePts(w.m.faces()[i])); else if (loc == 1) { p = w.m.node(i); valid = w.m.nx[i] != MISS; } else { valid = w.m.en[2 * i] >= 0; if (valid) p = 0.5 * (w.m.node(w.m.en[2 * i]) + w.m.node(w.m.en[2 * i + 1])); } double v = out.v[i]; nv += v != MISS;
                if (!valid) { r.checkf(v == MISS, "deleted:" + key, [&] { return fmt("value %g at deleted location %d", v, i); }); continue; } r.checkf(dist(p, {out.x[i], out.y[i]}) < 1e-3 * s, "location:" + key, [&] { return fmt("location %d is reported elsewhere", i); });
                double lo = 1e300, hi = -1e300, tol = proj ? 0.15 : 1e-6; bool in = false, shaky = false; for (auto& t : T) { std::vector<P> R{sp[t[0]], sp[t[1]], sp[t[2]]}; if (ringDist(R, p) < 1e-3 * s) shaky = true; if (!inRing(R, p)) continue; in = true; P u = R[1] - R[0], q = R[2] - R[0], d = p - R[0]; double det = u.x * q.y - u.y * q.x, x = (d.x * q.y - d.y * q.x) / det, y = (u.x * d.y - u.y * d.x) / det, z = sv[t[0]] + x * (sv[t[1]] - sv[t[0]]) + y * (sv[t[2]] - sv[t[0]]); lo = std::min(lo, z); hi = std::max(hi, z); }
                if (shaky && !lin) continue; if (shaky) { if (v != MISS) r.checkf(std::fabs(v - (3 + (0.5 * (p.x - off.x) - 0.25 * (p.y - off.y)) / s)) < 1e-3, "linear:" + key, [&] { return fmt("value %g at location %d on an edge", v, i); }); continue; }
                if (!in) { r.checkf(v == MISS, "outside:" + key, [&] { return fmt("value %g at location %d outside all samples", v, i); }); continue; }
                // in spherical coordinates the Delaunay triangles are those of the longitudes and latitudes
                r.checkf(v != MISS && v >= lo - tol * (proj ? 1 : 1 + std::fabs(lo)) && v <= hi + tol * (proj ? 1 : 1 + std::fabs(hi)), (lin ? "linear:" : "value:") + key, [&] { return fmt("value %g at location %d (%g,%g), expected %g", v, i, p.x, p.y, lo); });
            }
            r.outcome(nv);
        }
    }
}
MC_MAIN(body)
