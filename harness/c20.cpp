// C20: a network of polylines becomes the 1D mesh that its chainages prescribe.
#include "ops.hpp"
#include "ref.hpp"
#include <map>
#include <set>
using namespace mk;
namespace
{
    const double RAD = 6378137.0, SC = 1e-4; // one unit in spherical coordinates
    struct Net
    {
        std::vector<std::vector<P>> L; std::vector<std::vector<double>> cum, ch; int proj;
        double len(P a, P b) const { if (!proj) return dist(a, b); double dy = (b.y - a.y) * M_PI / 180, dx = (b.x - a.x) * M_PI / 180 * std::cos((a.y + b.y) / 2 * M_PI / 180); return RAD * std::hypot(dx, dy); }
        void init() { for (auto& l : L) { std::vector<double> c{0}; for (size_t i = 1; i < l.size(); i++) c.push_back(c.back() + len(l[i - 1], l[i])); cum.push_back(c); ch.push_back({0, c.back()}); } }
        // the chainages around each fixed point; overlapping ones give one in the middle
        void fixed(const std::vector<std::vector<double>>& F, double minf, double off)
        {
            for (size_t p = 0; p < L.size(); p++)
            {
                double end = cum[p].back(), prev = 0; std::vector<double> add;
                for (double f : F[p]) { double b = f - off, a = f + off; if (a <= 0 || b >= end) continue; if (b - prev >= minf && b > 0) { add.push_back(b); prev = b; } else if (!add.empty()) { prev = add.back() = (b + prev) / 2; } if (a - prev >= minf && a < end) { add.push_back(a); prev = a; } }
                for (double c : add) ch[p].push_back(c);
            }
        }
        void offset(double o) { for (auto& c : ch) { std::sort(c.begin(), c.end()); std::vector<double> add; for (size_t i = 1; i < c.size(); i++) { double s = c[i] - c[i - 1]; int k = (int)std::ceil(s / o); for (int j = 1; j < k; j++) add.push_back(c[i - 1] + j * s / k); } for (double v : add) c.push_back(v); std::sort(c.begin(), c.end()); } }
        P at(int p, double c) const { size_t k = 0; while (k + 2 < cum[p].size() && c > cum[p][k + 1]) k++; double t = (c - cum[p][k]) / (cum[p][k + 1] - cum[p][k]); return L[p][k] + t * (L[p][k + 1] - L[p][k]); }
    };
    void body(Run& r)
    {
        int proj = r.choose(2, "projection"), nl = 1 + r.choose(r.thorough() ? 4 : 3, "lines");
        // straight with three points, many short segments, crossing in a shared point, starting where the first ends, two points, back and forth
        static const std::vector<std::vector<P>> ALL = {{{0, 0}, {10.3, 0}, {21.7, 0}}, {{0, 20}, {1, 21.3}, {2.2, 20.1}, {3.1, 22}, {4, 20}, {9.7, 20.4}, {10.1, 21}, {30.3, 21}}, {{10.3, -9.9}, {10.3, 0}, {10.3, 12.6}}, {{21.7, 0}, {25.2, 5.5}, {37.3, 6.1}}, {{-8, -8}, {0, 0}}, {{21.7, 0}, {22.1, -13.3}, {10.3, -9.9}}};
        std::vector<int> pick; for (int i = 0; i < nl; i++) { int k = r.choose(6, "line"); for (int q : pick) if (q == k) throw mc::Skip{}; pick.push_back(k); }
        int nops = r.choose(4, "ops"); std::vector<int> ops; for (int i = 0; i < nops; i++) ops.push_back(r.choose(9, "op")); if (nops == 3 && nl >= 3 && !r.thorough()) throw mc::Skip{}; int mf = r.choose(3, "min face"), prior = r.choose(3, "existing mesh"); r.shard();
        if (!r.thorough() && nl == 3 && (prior || mf == 2) && nops > 1) throw mc::Skip{}; if (!r.thorough() && proj && nl >= 2 && nops == 3) throw mc::Skip{};
        double unit = proj ? SC * M_PI / 180 * RAD : 1, minf = (mf == 0 ? 0.01 : mf == 1 ? 0.45 : 1.7) * unit; Net N; N.proj = proj; for (int k : pick) { auto l = ALL[k]; if (proj) for (auto& p : l) p = P{4 + SC * p.x, 52 + SC * p.y}; N.L.push_back(l); } N.init();
        reset(); int id = alloc(proj); std::vector<P> n0; std::vector<std::array<int, 2>> e0; if (prior) { for (P p : {P{50, 50}, P{55, 51}, P{10.3, 0}}) n0.push_back(proj ? P{4 + SC * p.x, 52 + SC * p.y} : p); e0 = {{0, 1}, {2, 1}}; setMesh1(id, n0, e0); }
        Geo g; for (auto& l : N.L) { if (!g.x.empty()) g.sep(); for (P p : l) g.add(p.x, p.y); }
        r.check(api::mkernel_network1d_set(id, g) == 0, "set", "fails: " + lastError()); r.step(); std::string key = fmt("ops");
        auto build = [&] {
            for (int o : ops)
            {
                r.step();
                if (o < 4) { static const double OFF[] = {3.7, 1.3, 50, 7.77}; N.offset(OFF[o] * unit); r.check(api::mkernel_network1d_compute_offsetted_chainages(id, OFF[o] * unit) == 0, "offset", "fails: " + lastError()); key += "o"; }
                else
                { // several fixed points: one; close together; at the start, at and beyond the end; alternating between the lines
                    static const std::vector<std::vector<double>> FX = {{6.2}, {4, 4.9, 5.1, 9}, {0, 2.1, 400}, {3.3, 10.7}}; double off = (o == 5 ? 1.1 : 0.8) * unit, mfs = (o == 7 ? 3.0 : 0.2) * unit; std::vector<std::vector<double>> F; std::vector<double> flat;
                    for (size_t p = 0; p < N.L.size(); p++) { std::vector<double> f; for (double v : FX[(o - 4 + (o == 7 ? p : 0)) % 4]) f.push_back(v * unit); if (o == 6) f.insert(f.begin() + 2, N.cum[p].back()); if (o == 8) { f = {off + 0.1 * unit, N.cum[p].back() - off - 0.1 * unit}; } F.push_back(f); if (p) flat.push_back(-999.0); for (double v : f) flat.push_back(v); }
                    N.fixed(F, mfs, off); r.check(api::mkernel_network1d_compute_fixed_chainages(id, flat.data(), (int)flat.size(), mfs, off) == 0, "fixed", "fails: " + lastError()); key += "f";
                }
            }
        };
        build(); for (auto& c : N.ch) std::sort(c.begin(), c.end());
        std::vector<P> n; std::vector<std::array<int, 2>> e; for (size_t p = 0; p < N.L.size(); p++) for (size_t i = 0; i < N.ch[p].size(); i++) { if (i) e.push_back({(int)n.size() - 1, (int)n.size()}); n.push_back(N.at((int)p, N.ch[p][i])); }
        // merge: groups in which every pair is close
        int K = (int)n.size(); std::vector<int> grp(K); for (int i = 0; i < K; i++) grp[i] = i; bool shaky = false, tie = false; for (int i = 0; i < K; i++) for (int j = i + 1; j < K; j++) { double d = N.len(n[i], n[j]); if (std::fabs(d - minf) < 1e-3 * unit) shaky = tie = true; if (d < minf) { int a = grp[i], b = grp[j]; if (a != b) for (auto& v : grp) if (v == b) v = a; } } for (int i = 0; i < K; i++) for (int j = i + 1; j < K; j++) if (grp[i] == grp[j] && N.len(n[i], n[j]) >= minf) shaky = true;
        M1 before; getM1(id, before); Snap s0 = snap(id); r.check(api::mkernel_network1d_to_mesh1d(id, minf) == 0, "convert", "fails: " + lastError()); r.step(); M1 m; getM1(id, m);
        auto V = [&](int i) { return i >= 0 && i < (int)m.nx.size() && m.nx[i] != MISS; }; r.note(shaky ? "merging not judged: chains of close nodes" : "judged"); mc::Hash h; h.vd(m.nx); h.vd(m.ny); h.vi(m.en); r.state(h.h);
        // what was there stays, at the front
        for (size_t i = 0; i < n0.size(); i++) r.checkf(V((int)i) && m.nx[i] == n0[i].x && m.ny[i] == n0[i].y, "existing:" + key, [&] { return fmt("node %d of the existing mesh changed", (int)i); });
        int nv = 0; for (size_t i = n0.size(); i < m.nx.size(); i++) nv += V((int)i); std::vector<int> to(m.nx.size(), -1);
        // every node lies on the network where a chainage is
        for (size_t i = n0.size(); i < m.nx.size(); i++) if (V((int)i)) { double b = 1e300; for (int k = 0; k < K; k++) { double d = N.len({m.nx[i], m.ny[i]}, n[k]); if (d < b) { b = d; to[i] = k; } } r.checkf(b < 1e-6 * unit + (proj ? 2e-5 * unit : 0), "place:" + key, [&] { return fmt("node %d is %g from the closest chainage", (int)i, b / unit); }); }
        for (size_t k = 0; k + 1 < m.en.size(); k += 2) if (m.en[k] >= 0) r.checkf(V(m.en[k]) && V(m.en[k + 1]) && m.en[k] != m.en[k + 1], "edge:" + key, [&] { return fmt("edge %d joins %d and %d", (int)k / 2, m.en[k], m.en[k + 1]); });
        std::set<std::pair<int, int>> got, want; for (size_t k = 0; k + 1 < m.en.size(); k += 2) { int a = m.en[k], b = m.en[k + 1]; if (a < 0 || b < 0) continue; if (a < (int)n0.size() || b < (int)n0.size()) continue; a = grp[to[a]]; b = grp[to[b]]; got.insert({std::min(a, b), std::max(a, b)}); } for (auto& x : e) { int a = grp[x[0]], b = grp[x[1]]; if (a != b) want.insert({std::min(a, b), std::max(a, b)}); }
        if (!shaky)
        {
            std::set<int> gs(grp.begin(), grp.end()); std::set<int> seen; for (size_t i = n0.size(); i < m.nx.size(); i++) if (V((int)i)) r.checkf(seen.insert(grp[to[i]]).second, "twice:" + key, [&] { return fmt("two nodes within the merging distance at chainage node %d", to[i]); });
            r.checkf((int)seen.size() == (int)gs.size(), "nodes:" + key, [&] { return fmt("%d nodes, the chainages prescribe %d", nv, (int)gs.size()); });
            r.checkf(got == want, "edges:" + key, [&] { return fmt("%d edges, the lines prescribe %d", (int)got.size(), (int)want.size()); }); r.validated++;
        }
        else if (!tie) for (auto& x : got) if (x.first != x.second) r.checkf(want.count(x), "edges:" + key, [&] { return fmt("edge of chainage nodes %d and %d", x.first, x.second); });
        size_t eo = 0; for (size_t k = 0; k + 1 < m.en.size(); k += 2) if (m.en[k] >= 0 && m.en[k] < (int)n0.size()) eo++; r.checkf(eo == e0.size(), "existing:" + key, [&] { return fmt("%d edges at existing nodes, %d before", (int)eo, (int)e0.size()); });
        // undo and redo of the conversion
        bool un = false; int ui = -1; if (api::mkernel_undo_state(un, ui) == 0 && un) { Snap u = snap(id); std::string d = diff(s0, u); r.checkf(d.empty(), "undo", [&] { return d; }); bool re = false; api::mkernel_redo_state(re, ui); M1 q; getM1(id, q); r.checkf(re && q.nx == m.nx && q.ny == m.ny && q.en == m.en, "redo", [&] { return std::string("another mesh after undoing and redoing"); }); }
        // the second conversion adds the same again
        if (prior == 2) { api::mkernel_network1d_to_mesh1d(id, minf); M1 q; getM1(id, q); int v2 = 0; for (double x : q.nx) v2 += x != MISS; int e2 = 0, e1 = 0; for (size_t k = 0; k < q.en.size(); k += 2) e2 += q.en[k] >= 0; for (size_t k = 0; k < m.en.size(); k += 2) e1 += m.en[k] >= 0; r.checkf(v2 == (int)n0.size() + 2 * nv && e2 == (int)e0.size() + 2 * (e1 - (int)e0.size()), "again", [&] { return fmt("%d nodes and %d edges after converting twice, %d and %d once", v2, e2, nv, e1); }); }
        r.outcome(nv);
    }
}
MC_MAIN(body)
