// C21: refining and derefining a curvilinear grid adds or removes exactly the lines asked for.
#include "cg.hpp"
using namespace mk;
namespace
{
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario"), k = r.choose(5, "grid"), proj = r.choose(3, "projection"); CG g = cg::base(k); double sc0 = proj ? 0.002 : 1; P off0 = proj ? P{3, 51} : P{0, 0}; for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (cg::ok(g, i, j)) cg::setNode(g, i, j, off0 + sc0 * g.at(i, j)); std::string key; int rc = -1; CG w, got; double tol = 1e-7; std::vector<int> oi, oj; // old line numbers kept, and where they are in the new grid
        reset(); int id = alloc(proj); 
        auto lines = [&](int n, int a, int b, int f) { std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i + (f - 1) * (std::min(i, b) - std::min(i, a)); return p; };
        auto judge = [&](const std::vector<int>& pi, const std::vector<int>& pj)
        {
            r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); getCG(id, got); r.validated++; mc::Hash h; cg::hash(h, got); r.state(h.h); r.outcome(got.n * got.m);
            int N = pi.back() + 1, M = pj.back() + 1; r.checkf(got.n == N && got.m == M, "size:" + key, [&] { return fmt("%d x %d nodes, expected %d x %d", got.n, got.m, N, M); });
            for (int i = 0; i < g.n; i++) for (int j = 0; j < g.m; j++) if (cg::ok(g, i, j)) r.checkf(cg::ok(got, pi[i], pj[j]) && dist(got.at(pi[i], pj[j]), g.at(i, j)) < 1e-6 * sc0, "old node:" + key, [&] { return fmt("node (%d,%d) at (%g,%g) is now at (%g,%g)", i, j, g.at(i, j).x, g.at(i, j).y, got.at(pi[i], pj[j]).x, got.at(pi[i], pj[j]).y); });
            std::vector<char> valid((size_t)N * M, 0);
            for (int i = 0; i + 1 < g.n; i++) for (int j = 0; j + 1 < g.m; j++) if (cg::face(g, i, j)) for (int a = pi[i]; a <= pi[i + 1]; a++) for (int b = pj[j]; b <= pj[j + 1]; b++)
            {
                valid[(size_t)a * M + b] = 1; r.checkf(cg::ok(got, a, b), "missing:" + key, [&] { return fmt("node (%d,%d) is missing", a, b); });
                double s = (double)(a - pi[i]) / (pi[i + 1] - pi[i]), t = (double)(b - pj[j]) / (pj[j + 1] - pj[j]); P p;
                if (k == 1) p = off0 + sc0 * cg::bow(j + t, i + s); else p = (1 - s) * ((1 - t) * g.at(i, j) + t * g.at(i, j + 1)) + s * ((1 - t) * g.at(i + 1, j) + t * g.at(i + 1, j + 1));
                double lim = sc0 * (k == 1 ? 0.12 : k == 4 ? 1.6 : proj ? 0.1 : 1e-6); r.checkf(dist(got.at(a, b), p) < lim, "position:" + key, [&] { return fmt("new node (%d,%d) is at (%.8g,%.8g), about (%.8g,%.8g) expected", a, b, got.at(a, b).x, got.at(a, b).y, p.x, p.y); });
            }
            for (int a = 0; a < N; a++) for (int b = 0; b < M; b++) if (!valid[(size_t)a * M + b]) r.checkf(!cg::ok(got, a, b), "extra:" + key, [&] { return fmt("node (%d,%d) should not exist", a, b); });
            for (int a = 0; a + 1 < N; a++) for (int b = 0; b + 1 < M; b++) if (cg::face(got, a, b)) r.check(std::fabs(area({got.at(a, b), got.at(a, b + 1), got.at(a + 1, b + 1), got.at(a + 1, b)})) > 1e-3 * sc0 * sc0, "folded:" + key, "a face has no area");
            if (N == g.n && M == g.m) return; // nothing happened
            // undo and redo
            bool u; int uid; CG o; api::mkernel_undo_state(u, uid); getCG(id, o); std::string d = cg::diff(g, o, 0); r.check(u && d.empty(), "undo:" + key, "undoing: " + d); api::mkernel_redo_state(u, uid); getCG(id, o); d = cg::diff(got, o, 0); r.check(u && d.empty(), "redo:" + key, "redoing: " + d);
        };
        if (sc == 0)
        { // along every line, between every two nodes
            int dir = r.choose(2, "direction"), at = r.choose(dir ? g.n : g.m, "line"), a = r.choose(dir ? g.m : g.n, "first"), b = r.choose(dir ? g.m : g.n, "second"), f = 1 + r.choose(r.thorough() ? 6 : 4, "factor"); bool off = r.flag("near the node"); r.shard();
            P p = dir ? g.at(at, a) : g.at(a, at), q = dir ? g.at(at, b) : g.at(b, at); if (p.x == MISS || q.x == MISS || a == b) throw mc::Skip{}; if (off) { p = p + sc0 * P{0.7, -0.6}; q = q + sc0 * P{-0.5, 0.8}; }
            cg::put(id, g); key = fmt("refine;grid%d", k); rc = api::mkernel_curvilinear_refine(id, p.x, p.y, q.x, q.y, f);
            auto pi = lines(g.n, dir ? 0 : std::min(a, b), dir ? 0 : std::max(a, b), f), pj = lines(g.m, dir ? std::min(a, b) : 0, dir ? std::max(a, b) : 0, f); judge(pi, pj);
        }
        else if (sc == 1)
        {
            int fm = 1 + r.choose(r.thorough() ? 6 : 4, "factor m"), fn = 1 + r.choose(r.thorough() ? 6 : 4, "factor n"); r.shard(); cg::put(id, g); key = fmt("full;grid%d", k); rc = api::mkernel_curvilinear_full_refine(id, fm, fn);
            judge(lines(g.n, 0, g.n, fn), lines(g.m, 0, g.m, fm));
        }
        else
        { // derefinement keeps the two end lines and removes those in between
            int dir = r.choose(2, "direction"), at = r.choose(dir ? g.n : g.m, "line"), a = r.choose(dir ? g.m : g.n, "first"), b = r.choose(dir ? g.m : g.n, "second"), again = r.choose(2, "history"); r.shard(); key = fmt("derefine;grid%d", k);
            P p = dir ? g.at(at, a) : g.at(a, at), q = dir ? g.at(at, b) : g.at(b, at); if (p.x == MISS || q.x == MISS || a == b) throw mc::Skip{}; int lo = std::min(a, b), hi = std::max(a, b);
            CG before = g; cg::put(id, g);
            if (again) { if (k == 2 || k == 3) throw mc::Skip{}; api::mkernel_curvilinear_full_refine(id, dir ? 3 : 1, dir ? 1 : 3); getCG(id, before); lo *= 3; hi *= 3; r.step(); } // refined before
            rc = api::mkernel_curvilinear_derefine(id, p.x, p.y, q.x, q.y); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError());
            CG e = before; std::vector<int> I, J; for (int i = 0; i < before.n; i++) if (dir || i <= lo || i >= hi) I.push_back(i); for (int j = 0; j < before.m; j++) if (!dir || j <= lo || j >= hi) J.push_back(j);
            e.n = (int)I.size(); e.m = (int)J.size(); e.x.resize((size_t)e.n * e.m); e.y = e.x; for (int i = 0; i < e.n; i++) for (int j = 0; j < e.m; j++) cg::setNode(e, i, j, before.at(I[i], J[j])); cg::close(e);
            getCG(id, got); r.validated++; mc::Hash h; cg::hash(h, got); r.state(h.h); std::string d = cg::diff(e, got, 0); r.check(d.empty(), key, "derefined grid: " + d);
            bool u; int uid; CG o; api::mkernel_undo_state(u, uid); getCG(id, o); d = cg::diff(before, o, 0); r.check(u && d.empty(), "undo:" + key, "undoing: " + d); api::mkernel_redo_state(u, uid); getCG(id, o); d = cg::diff(got, o, 0); r.check(u && d.empty(), "redo:" + key, "redoing: " + d);
        }
    }
}
MC_MAIN(body)
