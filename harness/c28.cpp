// C28: the parallel loops give the same results for every number of threads and every schedule.
#include "omp_rt.hpp"
#include "ops.hpp"
#include <algorithm>
#include <numeric>
using namespace mk;

namespace
{
    struct Obs { Snap s; std::vector<int> rc; std::vector<double> q; };
    void measure(int id, Obs& o)
    {
        o.s = snap(id);
        if (o.s.m2.ne() > 0)
        {
            Geo g = Geo::sized(o.s.m2.ne()); o.rc.push_back(api::mkernel_mesh2d_get_orthogonality(id, g)); o.q.insert(o.q.end(), g.v.begin(), g.v.end());
            Geo h = Geo::sized(o.s.m2.ne()); o.rc.push_back(api::mkernel_mesh2d_get_smoothness(id, h)); o.q.insert(o.q.end(), h.v.begin(), h.v.end());
        }
    }
    std::string cmp(const Obs& a, const Obs& b)
    {
        if (a.rc != b.rc) return "the exit codes differ";
        std::string d = diff(a.s, b.s, 1e-9); if (!d.empty()) return d;
        if (a.q.size() != b.q.size()) return "the number of quality values differs";
        for (size_t i = 0; i < a.q.size(); i++) if (!(std::fabs(a.q[i] - b.q[i]) <= 1e-9 * (1 + std::fabs(a.q[i])))) return fmt("quality value %zu is %.17g, %.17g with one thread", i, b.q[i], a.q[i]);
        return "";
    }
    // runs the work with one thread and then with every team and order
    void explore(Run& r, const std::string& name, const std::function<void(int, Obs&)>& work, int proj, int maxTeam)
    {
        auto run = [&](int team, const std::vector<int>& ord, bool spread) { reset(); omprt::team = 1; Obs o; int id = alloc(proj); omprt::team = team; omprt::order = ord; omprt::spread = spread; omprt::report.clear(); work(id, o); omprt::team = 1; return o; };
        Obs base = run(1, {0}, false); r.step(); unsigned long long reg0 = omprt::regions; int n = 0;
        for (int t = 2; t <= maxTeam; t++)
        {
            std::vector<int> ord(t); std::iota(ord.begin(), ord.end(), 0);
            do
            {
                for (int sp = 0; sp < (t == 2 ? 2 : 1); sp++)
                {
                    if (t >= 5 && !(std::is_sorted(ord.begin(), ord.end()) || std::is_sorted(ord.rbegin(), ord.rend()))) continue;
                    Obs o = run(t, ord, sp); r.step(); n++; r.validated++;
                    r.check(omprt::report.empty(), "race:" + name, omprt::report);
                    std::string d = cmp(base, o); r.check(d.empty(), "schedule:" + name, fmt("with %d threads in another order: ", t) + d);
                }
            } while (std::next_permutation(ord.begin(), ord.end()));
        }
        r.state(hash(base.s)); r.outcome((int)std::min<unsigned long long>(50, (omprt::regions - reg0) / std::max(1, n)));
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        if (sc == 0)
        { // every division of the cells of a small grid, transformations
            int cells = r.choose(4, "grid"), code = r.choose(256, "cells"), op = r.choose(6, "call"), proj = r.choose(2, "projection"); r.shard();
            static const int NX[4] = {2, 4, 1, 3}, NY[4] = {2, 1, 4, 2}; int nx = NX[cells], ny = NY[cells]; double u = proj ? 0.1 : 10; if (op >= 4 && proj) throw mc::Skip{}; if (!r.thorough() && cells && (code + op) % 4) throw mc::Skip{};
            MeshIn m = grid(nx, ny, u, u); for (size_t i = 0; i < m.n.size(); i++) m.n[i] = m.n[i] + u * P{0.11 * ((i * 7) % 5 - 2.0) / 3, 0.13 * ((i * 3) % 7 - 3.0) / 3};
            auto ed = [&](int a, int b) { for (size_t i = 0; i < m.e.size(); i++) if (std::min(m.e[i][0], m.e[i][1]) == std::min(a, b) && std::max(m.e[i][0], m.e[i][1]) == std::max(a, b)) { m.e.erase(m.e.begin() + i); return; } };
            int k = code; for (int c = 0; c < 4; c++, k /= 4) { int a = c % nx + (nx + 1) * (c / nx); if (k % 4 == 1) m.e.push_back({a, a + nx + 2}); if (k % 4 == 2) m.e.push_back({a + 1, a + nx + 1}); if (k % 4 == 3) ed(a, a + 1); }
            static const char* N[6] = {"read", "translate", "rotate", "edit", "to spherical", "there and back"};
            explore(r, N[op], [&](int id, Obs& o) {
                o.rc.push_back(setMesh2(id, m)); if (op == 1) o.rc.push_back(api::mkernel_mesh2d_translate(id, 0.3 * u, -0.7 * u)); if (op == 2) o.rc.push_back(api::mkernel_mesh2d_rotate(id, u, 0.5 * u, 33));
                if (op == 3) { o.rc.push_back(api::mkernel_mesh2d_delete_node(id, 1)); o.rc.push_back(api::mkernel_mesh2d_translate(id, u, u)); }
                if (op >= 4) o.rc.push_back(api::mkernel_mesh2d_convert_projection(id, 1, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31")); if (op == 5) o.rc.push_back(api::mkernel_mesh2d_convert_projection(id, 0, "+proj=utm +lat_1=0.5 +lat_2=2 +n=0.5 +zone=31"));
                measure(id, o); }, proj, r.thorough() ? 4 : 3);
        }
        else if (sc == 1)
        { // orthogonalization and smoothing
            int tri = r.choose(81, "diagonals"), par = r.choose(4, "parameters"), opt = r.choose(2, "option"), pol = r.choose(2, "selection"), proj = r.choose(2, "projection"); r.shard();
            double u = proj ? 0.1 : 10; MeshIn m = grid(3, 3, u, u); for (size_t i = 0; i < m.n.size(); i++) m.n[i] = m.n[i] + u * P{0.11 * ((i * 7) % 5 - 2.0) / 3, 0.13 * ((i * 3) % 7 - 3.0) / 3};
            static const int C4[4] = {0, 4, 8, 2}; int k = tri; for (int c = 0; c < 4; c++, k /= 3) { int a = C4[c] % 3 + 4 * (C4[c] / 3); if (k % 3 == 1) m.e.push_back({a, a + 5}); if (k % 3 == 2) m.e.push_back({a + 1, a + 4}); }
            meshkernel::OrthogonalizationParameters p; p.outer_iterations = 1; p.boundary_iterations = 2; p.inner_iterations = 2; static const double A[4] = {0.975, 1, 0, 0.5}; p.orthogonalization_to_smoothing_factor = A[par]; p.orthogonalization_to_smoothing_factor_at_boundary = par == 3 ? 0.9 : 1; p.areal_to_angle_smoothing_factor = par == 3 ? 0.5 : 1;
            explore(r, "orthogonalization", [&](int id, Obs& o) {
                o.rc.push_back(setMesh2(id, m)); Geo g, none; if (pol) g = ops::rect(-0.5 * u, -0.5 * u, 2.2 * u, 1.4 * u); o.rc.push_back(api::mkernel_mesh2d_compute_orthogonalization(id, opt, p, g, none)); measure(id, o); }, proj, 3);
        }
        else
        { // every call of the alphabet, and pairs of calls
            static const auto all = ops::all(); int a = r.choose((int)all.size(), "first"), b = r.choose((int)all.size() + 1, "second"); r.shard();
            if (!r.thorough() && b && (a * 7 + b) % 12) throw mc::Skip{};
            auto nm = [](const std::string& s) { return s; };
            explore(r, nm(all[a].fam), [&](int id, Obs& o) { omprt::team = omprt::team; o.rc.push_back(ops::buildBase(id)); o.rc.push_back(all[a].run(id)); if (b) o.rc.push_back(all[b - 1].run(id)); measure(id, o); }, 0, r.thorough() ? 3 : 2);
        }
    }
}
MC_MAIN(body)
