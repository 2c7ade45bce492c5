// C30: a global mesh closes around the globe, row by row, and is the same in the north and in the south.
#include "ops.hpp"
using namespace mk;
namespace
{
    const double D2R = M_PI / 180;
    // height of the row that starts at lat: as high as wide half way up
    double height(double lat, double dl) { double lo = 0, hi = dl; for (int i = 0; i < 80; i++) { double d = 0.5 * (lo + hi); (d < dl * std::cos(D2R * (lat + 0.5 * d)) ? lo : hi) = d; } return lo; }
    double mod(double x) { x = std::fmod(x + 180, 360); if (x < 0) x += 360; return x > 360 - 1e-7 ? x - 360 : x; } // degrees east of the date line
    void body(Run& r)
    {
        const int top = r.thorough() ? 260 : 130;
        int nl = 3 + r.choose(top - 2, "columns"), na = 1 + r.choose(r.thorough() ? 14 : 7, "rows"), proj = 1 + r.choose(2, "projection"), had = r.choose(3, "existing mesh"); r.shard();
        if (had && (nl > 20 || proj == 2)) throw mc::Skip{};
        if (!r.thorough() && nl > 40 && na > 2 && (nl + na) % 5) throw mc::Skip{};
        reset(); int id = alloc(proj); M2 none, m; std::string key = had == 1 ? "joined" : "global";
        double dl = 360.0 / nl; const double far = 3;
        if (had == 1) { setMesh2(id, grid(2, 2, 0.05, 0.05, 0.1 * dl, 0.2)); } // inside one cell of the first row
        if (had == 2) api::mkernel_mesh2d_make_global(id, 4, 1), api::mkernel_mesh2d_delete(id, Geo(), 1, 0);
        getM2(id, none);
        int rc = api::mkernel_mesh2d_make_global(id, nl, na); r.step(); r.check(rc == 0, "call", lastError()); r.check(getM2(id, m) == 0, "read", "cannot be read"); r.validated++;
        std::string d = validateM2(m); r.check(d.empty(), "valid:" + key, d);
        // the rows that are plain: below the part where columns are joined and not the one that reaches the pole
        std::vector<double> lat{0}; bool plain = true, clear = true; double q = 0;
        for (int i = 0; i < na && plain; i++)
        {
            double h = height(q, dl), km = h * D2R * 6378.137; if (std::fabs(q + 1.5 * h - 90) < 1e-2 || std::fabs(km - 30) < 0.05) clear = false;
            if (q + 1.5 * h > 90 || km < 30) plain = false; else lat.push_back(q += h);
        }
        if (!clear) throw mc::Skip{};
        // old nodes stay
        std::vector<char> old(m.nn(), 0);
        if (had == 1) for (int i = 0; i < none.nn(); i++) { bool ok = false; for (int k = 0; k < m.nn() && !ok; k++) if (m.nodeOk(k) && dist(m.node(k), none.node(i)) < 1e-9) ok = old[k] = true; r.check(ok, "joined", fmt("node %d of the mesh that was there has gone", i)); }
        // every node has a place in the lattice of rows and columns; above it is only the part near the poles
        std::map<std::pair<int, int>, int> at; std::vector<std::pair<int, int>> where(m.nn(), {1000000, 0}); std::map<std::pair<long, long>, int> all; int beyond = 0;
        for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && !old[i])
        {
            double x = mod(m.nx[i]), y = m.ny[i]; r.check(std::fabs(y) < 90 + 1e-9 && m.nx[i] > -180 - 1e-9 && m.nx[i] < 180 + 1e-9, key, fmt("node %d at (%.9g,%.9g) is not on the globe", i, m.nx[i], y));
            if (std::fabs(y) < 90 - 1e-6) r.check(all.emplace(std::make_pair(std::lround(x * 1e5) % 36000000, std::lround(y * 1e5)), i).second, key, fmt("two nodes at (%.9g,%.9g)", m.nx[i], y));
            if (std::fabs(y) > lat.back() + 1e-3) { beyond++; r.check(!plain, key, fmt("node %d at latitude %.9g, beyond the %d rows asked for, which reach %.9g", i, y, na, lat.back())); continue; }
            int row = -1; for (size_t k = 0; k < lat.size(); k++) if (std::fabs(std::fabs(y) - lat[k]) < 1e-4 * (k + 1)) row = (int)k;
            int col = (int)std::lround(x / dl) % nl; double off = std::fabs(x - std::lround(x / dl) * dl);
            r.check(row >= 0 && off < 1e-6, key, fmt("node %d at (%.9g,%.9g) is not on a row and column of the mesh", i, m.nx[i], y));
            where[i] = {y < 0 ? -row : row, col}; at[where[i]] = i;
        }
        int R = (int)lat.size() - 1;
        for (int j = -R; j <= R; j++) for (int c = 0; c < nl; c++) r.check(at.count({j, c}), key, fmt("no node at row %d, column %d of %d (latitude %.6g, %.6g degrees east of the date line)", j, c, nl, lat[std::abs(j)], c * dl));
        r.check(plain || beyond > 0, key, fmt("the mesh stops at row %d of %d, before the poles", R, na));
        auto E = [&](int a, int b) { for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e) && ((m.en[2 * e] == a && m.en[2 * e + 1] == b) || (m.en[2 * e] == b && m.en[2 * e + 1] == a))) return e; return -1; }; (void)E;
        std::set<std::pair<std::pair<int, int>, std::pair<int, int>>> S; int edges = 0;
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { auto a = where[m.en[2 * e]], b = where[m.en[2 * e + 1]]; if (a.first > 999999 || b.first > 999999) continue; edges++; S.insert(std::minmax(a, b)); }
        for (int j = -R; j <= R; j++) for (int c = 0; c < nl; c++)
        {
            std::pair<int, int> a{j, c}, right{j, (c + 1) % nl}, up{j + 1, c};
            r.check(S.count(std::minmax(a, right)), key, fmt("row %d has no edge from column %d to column %d", j, c, (c + 1) % nl)); if (j < R) r.check(S.count(std::minmax(a, up)), key, fmt("no edge up from row %d, column %d", j, c));
        }
        r.check(edges == (2 * R + 1) * nl + 2 * R * nl, key, fmt("%d edges below latitude %.6g, expected %d", edges, lat.back(), (2 * R + 1) * nl + 2 * R * nl));
        // the cells: all of them, four nodes each
        auto F = m.faces(); std::map<std::pair<int, int>, int> cell; int more = 0;
        for (size_t f = 0; f < F.size(); f++)
        {
            int lo = 1000000, hi = -1000000; bool in = true; std::set<int> cols; for (int i : F[f]) { if (where[i].first > 999999) in = false; lo = std::min(lo, where[i].first); hi = std::max(hi, where[i].first); cols.insert(where[i].second); }
            if (!in) { bool o = true; for (int i : F[f]) o &= old[i] != 0; more += !o; continue; }
            r.check(F[f].size() == 4 && hi == lo + 1 && cols.size() == 2, key, fmt("face %zu has %zu nodes in rows %d to %d", f, F[f].size(), lo, hi)); int c = *cols.begin(), e = *cols.rbegin(); if (e - c != 1) { r.check(c == 0 && e == nl - 1, key, "a cell spans several columns"); c = e; }
            cell[{lo, c}]++;
        }
        for (int j = -R; j < R; j++) for (int c = 0; c < nl; c++) r.check(cell[{j, c}] == 1, key, fmt("%d cells between rows %d and %d in column %d of %d", cell[{j, c}], j, j + 1, c, nl));
        if (plain) r.check(more == 0, key, fmt("%d cells beyond the last row", more));
        // the south is the mirror image of the north, also near the poles
        auto has = [&](P p) { for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && !old[i] && std::fabs(m.ny[i] - p.y) < 1e-6 && std::fabs(m.nx[i] - p.x) < 1e-6) return true; return false; };
        if (!plain) for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && !old[i] && std::fabs(m.ny[i]) > lat.back() + 1e-3) r.check(has({m.nx[i], -m.ny[i]}), key, fmt("node (%.9g,%.9g) has no mirror image", m.nx[i], m.ny[i]));
        if (getenv("DUMP")) { std::map<long, int> rows; int b = 0; for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i) && m.ny[i] >= 0) rows[std::lround(m.ny[i] * 1e4)]++; for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) b += m.ef[2 * e] < 0 || m.ef[2 * e + 1] < 0; printf("faces %d outline %d:", m.nf(), b); for (auto& [y, c] : rows) printf(" %g:%d", y / 1e4, c); puts(""); }
        mc::Hash h; hash(h, m); r.state(h.h); r.outcome(m.nf());
        bool u; int uid; api::mkernel_undo_state(u, uid); M2 o; getM2(id, o); canon(o); canon(none); std::string dd = diff(none, o, 0); r.check(u && dd.empty(), "undo:" + key, dd);
        api::mkernel_redo_state(u, uid); getM2(id, o); canon(o); M2 w = m; canon(w); dd = diff(w, o, 0); r.check(u && dd.empty(), "redo:" + key, dd); (void)far;
    }
}
MC_MAIN(body)
