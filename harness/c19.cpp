// C19: contacts connect exactly the 1D nodes and 2D faces that the chosen method says.
#include "ops.hpp"
#include "ref.hpp"
#include <map>
#include <set>
using namespace mk;
namespace
{
    bool inRing(const std::vector<P>& R, P p) { bool in = false; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) if ((R[i].y > p.y) != (R[j].y > p.y) && p.x < (R[j].x - R[i].x) * (p.y - R[i].y) / (R[j].y - R[i].y) + R[i].x) in = !in; return in; }
    double ringDist(const std::vector<P>& R, P p) { double d = 1e300; for (size_t i = 0, j = R.size() - 1; i < R.size(); j = i++) { P u = R[i] - R[j]; double l = u.x * u.x + u.y * u.y, t = l > 0 ? std::clamp(((p.x - R[j].x) * u.x + (p.y - R[j].y) * u.y) / l, 0.0, 1.0) : 0; d = std::min(d, dist(p, R[j] + t * u)); } return d; }
    double crs(P a, P b) { return a.x * b.y - a.y * b.x; }
    // crossing of a-b with c-d: parameters; false when parallel
    bool cross2(P a, P b, P c, P d, double& t, double& u) { P p = b - a, q = d - c; double k = crs(p, q); if (std::fabs(k) < 1e-12) return false; t = crs(c - a, q) / k; u = crs(c - a, p) / k; return true; }
    typedef std::set<std::pair<int, int>> S;
    std::string show(const S& s) { std::string o; for (auto& p : s) o += fmt("(%d,%d)", p.first, p.second); return o; }
    void body(Run& r)
    {
        int sc = r.choose(6, "method"), mesh = r.choose(5, "mesh"), line = r.choose(sc >= 4 ? 81 : 243, "line"), shape = r.choose(3, "shape"), pol = r.choose(3, "polygons"), nm = r.choose(6, "mask"), proj = sc == 2 || sc == 3 || sc == 4 ? r.choose(2, "projection") : 0, opt = r.choose(2, "option"); r.shard();
        if (sc == 1 && pol) throw mc::Skip{}; if (sc == 2 && !pol) throw mc::Skip{}; if ((sc == 1 || sc == 2) && opt) throw mc::Skip{}; if ((mesh == 1 || mesh == 4) && proj) throw mc::Skip{}; if (sc == 5) throw mc::Skip{};
        if (!r.thorough() && line % 3 && (nm > 1 || shape == 2)) throw mc::Skip{};
        // the 2D mesh: rectangles, acute triangles (also with circumcentres far from the mass centres), rectangles with an opening, rectangles of which a face was deleted
        MeshIn in = mesh == 1 || mesh == 4 ? trigrid(5, 4, 10, 10) : grid(5, 4, 10, 10); if (mesh == 4) for (auto& p : in.n) p = P{1.3 * p.x - 0.19 * p.y - 2, 1.17 * p.y + 0.7}; if (mesh == 1) for (auto& p : in.n) p = P{p.x - 0.45 * p.y + 12, 0.9 * p.y}; double s = proj ? 1e-4 : 1; P off = proj ? P{4, 52} : P{0, 0}; for (auto& p : in.n) p = off + s * p; reset(); int id = alloc(proj); setMesh2(id, in);
        if (mesh == 2 || mesh == 3) { Geo g; double a = mesh == 2 ? 15 : 27; for (P p : {P{a, -3}, P{a + 14, -3}, P{a + 14, mesh == 2 ? 43.0 : 12.0}, P{a, mesh == 2 ? 43.0 : 12.0}, P{a, -3}}) g.add((off + s * p).x, (off + s * p).y); api::mkernel_mesh2d_delete(id, g, 1, 0); }
        M2 m; getM2(id, m); auto F = m.faces(); std::vector<P> cc, mc; for (auto& f : F) { auto R = m.facePts(f); P c{0, 0}; for (P p : R) c = c + (1.0 / R.size()) * p; mc.push_back(c); if (R.size() == 3) { P u = R[1] - R[0], v = R[2] - R[0]; double d = 2 * crs(u, v), uu = u.x * u.x + u.y * u.y, vv = v.x * v.x + v.y * v.y; c = R[0] + P{(v.y * uu - u.y * vv) / d, (u.x * vv - v.x * uu) / d}; } cc.push_back(c); }
        // the 1D mesh: five nodes, each at one of three heights
        std::vector<P> n1; std::vector<std::array<int, 2>> e1; int l = line; for (int i = 0; i < 5; i++, l /= 3) { static const double H[3][3] = {{-6.3, 14.7, 33.1}, {3.3, 21.4, 47.2}, {-4.1, 6.2, 18.8}}; n1.push_back(off + s * P{-8.6 + 16.3 * i + (shape == 1 ? -3.7 : 0), H[shape][sc >= 4 && i == 4 ? 0 : l % 3]}); }
        if (shape == 2) e1 = {{1, 0}, {1, 2}, {3, 2}, {1, 4}}; else e1 = {{0, 1}, {1, 2}, {2, 3}, {3, 4}}; setMesh1(id, n1, e1); static const int MASK[] = {31, 21, 10, 27, 4, 0}; std::vector<int> mask(5); for (int i = 0; i < 5; i++) mask[i] = MASK[nm] >> i & 1;
        std::vector<std::vector<P>> pols; if (pol == 1) pols = {{{2.2, 1.9}, {33.3, 1.7}, {31.8, 28.6}, {1.4, 27.7}}}; if (pol == 2) pols = {{{-11, -9}, {22.3, -8}, {22.1, 19.3}, {-11, 18.4}}, {{27.7, 8.1}, {69.2, 9.3}, {66.1, 55.7}, {24.4, 52.3}}, {{90, 90}, {95, 90}, {95, 96}}}; if (pol == 2 && sc != 2) pols.pop_back(); else if (pol == 2) std::rotate(pols.begin(), pols.begin() + line % 3, pols.end()); Geo pg; for (auto& R : pols) { for (auto& p : R) p = off + s * p; if (!pg.x.empty()) pg.sep(); for (size_t i = 0; i <= R.size(); i++) pg.add(R[i % R.size()].x, R[i % R.size()].y); }
        auto D = [&](P a, P b) { P d = (1 / s) * (b - a); return proj ? std::hypot(d.x * std::cos(52 * M_PI / 180), d.y) : std::hypot(d.x, d.y); }; bool shaky = false; auto sel = [&](P p) { if (pols.empty()) return true; bool in2 = false; for (auto& R : pols) { if (ringDist(R, p) < 1e-6 * s) shaky = true; in2 |= inRing(R, p); } return in2; };
        auto faceAt = [&](P p) { int k = -1; for (size_t f = 0; f < F.size(); f++) { auto R = m.facePts(F[f]); if (ringDist(R, p) < 1e-6 * s) shaky = true; if (inRing(R, p)) k = (int)f; } return k; };
        std::map<std::pair<int, int>, int> deg; for (auto& f : F) for (size_t k = 0; k < f.size(); k++) { int a = f[k], b = f[(k + 1) % f.size()]; deg[{std::min(a, b), std::max(a, b)}]++; } auto bnd = [&](int f) { for (size_t k = 0; k < F[f].size(); k++) { int a = F[f][k], b = F[f][(k + 1) % F[f].size()]; if (deg[{std::min(a, b), std::max(a, b)}] == 1) return true; } return false; };
        auto maxLen = [&](int n) { double q = 0; for (auto& e : e1) if (e[0] == n || e[1] == n) q = std::max(q, D(n1[e[0]], n1[e[1]])); return q; };
        S must, may; int rc = 0; static const char* N[] = {"single", "multiple", "polygons", "points", "boundary"}; std::string key = fmt("%s;mesh%d", N[sc], mesh); std::vector<int> a, b; bool multi = false; 
        auto get = [&] { getContacts(id, a, b); S g; for (size_t i = 0; i < a.size(); i++) { r.checkf(a[i] >= 0 && a[i] < 5 && b[i] >= 0 && b[i] < (int)F.size(), "range:" + key, [&] { return fmt("contact %d connects node %d and face %d", (int)i, a[i], b[i]); }); r.checkf(g.insert({a[i], b[i]}).second || multi, "double:" + key, [&] { return fmt("nodes %d and face %d are connected twice", a[i], b[i]); }); } return g; };
        if (sc == 0)
        { // the face containing the node, or the first boundary face on either side of the line
            double pf = opt ? 1.5 : 0.4; rc = api::mkernel_contacts_compute_single(id, mask.data(), pg, pf); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); S got = get(); std::vector<std::pair<int, int>> order; for (size_t i = 0; i < a.size(); i++) order.push_back({a[i], b[i]});
            auto crosses = [&](P p, P q, P u, P v) { double t, w; return cross2(p, q, u, v, t, w) && t > 1e-9 && t < 1 - 1e-9 && w > 1e-9 && w < 1 - 1e-9; }; std::vector<std::pair<int, int>> want;
            for (int n = 0; n < 5; n++)
            {
                if (!mask[n] || !sel(n1[n])) continue; int f = faceAt(n1[n]); if (f >= 0) { want.push_back({n, f}); continue; }
                std::vector<int> nb; for (auto& e : e1) { if (e[0] == n) nb.push_back(e[1]); if (e[1] == n) nb.push_back(e[0]); } if (nb.size() > 2) { r.note("not judged: branching node outside the mesh"); return; } P u = nb.size() == 1 ? n1[nb[0]] - n1[n] : n1[nb[1]] - n1[nb[0]]; P nv = P{u.y, -u.x}; std::vector<std::pair<int, int>> side;
                bool okOrder = false; for (int flip : {1, -1}) { P tip = n1[n] + (flip * pf) * nv; double best = 1e300; int bf = -1; for (size_t ff = 0; ff < F.size(); ff++) for (size_t k = 0; k < F[ff].size(); k++) { int x = F[ff][k], y = F[ff][(k + 1) % F[ff].size()]; if (deg[{std::min(x, y), std::max(x, y)}] != 1) continue; double t, w; if (!cross2(n1[n], tip, m.node(x), m.node(y), t, w)) continue; if (t > -1e-6 && t < 1 + 1e-6 && w > -1e-6 && w < 1 + 1e-6) { if (t < 1e-6 || t > 1 - 1e-6 || w < 1e-6 || w > 1 - 1e-6) shaky = true; if (t < best) { best = t; bf = (int)ff; } } } if (bf < 0) continue; bool hit = false; for (auto& e : e1) hit |= e[0] != n && e[1] != n && crosses(n1[n], cc[bf], n1[e[0]], n1[e[1]]); if (hit) continue; side.push_back({n, bf}); } (void)okOrder;
                // a contact that crosses an earlier one is left out; both orders of the two sides are accepted
                auto blocked = [&](std::pair<int, int> c) { for (auto& w : want) if (crosses(n1[c.first], cc[c.second], n1[w.first], cc[w.second])) return true; return false; }; for (auto& c : side) if (!blocked(c)) want.push_back(c);
                multi = multi || (side.size() == 2 && side[0] == side[1]);
            }
            must = S(want.begin(), want.end()); may = must; if (shaky) { r.note("not judged: a node, ray or polygon on an edge"); return; }
            r.checkf(got == must, key, [&] { return "contacts " + show(got) + ", expected " + show(must); });
        }
        else if (sc == 1)
        { // faces crossed by an edge of the line, each with the closer of its ends
            rc = api::mkernel_contacts_compute_multiple(id, mask.data()); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); S got = get(); std::set<int> once; for (auto& c : got) r.checkf(once.insert(c.second).second, "face twice:" + key, [&] { return fmt("face %d has two contacts", c.second); });
            for (size_t f = 0; f < F.size(); f++)
            {
                auto R = m.facePts(F[f]); S cand; bool sure = false; for (auto& e : e1) { bool x = false; for (size_t k = 0; k < R.size(); k++) { double t, w; if (cross2(n1[e[0]], n1[e[1]], R[k], R[(k + 1) % R.size()], t, w) && t > -1e-6 && t < 1 + 1e-6 && w > -1e-6 && w < 1 + 1e-6) { if (t < 1e-6 || t > 1 - 1e-6 || w < 1e-6 || w > 1 - 1e-6) shaky = true; x = true; } } if (!x) continue; double d0 = D(n1[e[0]], cc[f]), d1 = D(n1[e[1]], cc[f]); if (std::fabs(d0 - d1) < 1e-6) shaky = true; int n = d0 <= d1 ? e[0] : e[1]; if (!mask[n] || faceAt(n1[n]) < 0) continue; cand.insert({n, (int)f}); if (d0 < 0.999 * maxLen(e[0])) sure = true; }
                for (auto& c : got) if (c.second == (int)f) { if (!shaky) r.checkf(cand.count(c), "unexpected:" + key, [&] { return fmt("contact of node %d and face %d", c.first, c.second); }); } if (shaky) continue; if (sure) { bool has = false; for (auto& c : cand) has |= got.count(c) > 0; r.checkf(has, "missing:" + key, [&] { return fmt("face %d crossed by the line has no contact; %d contacts", (int)f, (int)got.size()); }); }
            }
            may = got;
        }
        else if (sc == 2)
        { // per polygon the closest pair
            rc = api::mkernel_contacts_compute_with_polygons(id, mask.data(), pg); r.step(); if (nm == 5) { r.outcome(rc); return; } r.check(rc == 0, "call:" + key, "fails: " + lastError()); multi = true; S got = get(); 
            for (auto& R : pols) { double best = 1e300, second = 1e300; std::pair<int, int> c{-1, -1}; for (size_t f = 0; f < F.size(); f++) { if (ringDist(R, mc[f]) < 1e-3 * s) shaky = true; if (!inRing(R, mc[f])) continue; for (int n = 0; n < 5; n++) if (mask[n]) { double d = D(mc[f], n1[n]); if (d < best) { second = best; best = d; c = {n, (int)f}; } else second = std::min(second, d); } } if (second - best < (proj ? 0.2 : 1e-6)) shaky = true; if (c.first >= 0) must.insert(c); } if (shaky) { r.note("not judged: ties"); return; }
            r.checkf(got == must, key, [&] { return "contacts " + show(got) + ", expected " + show(must); });
        }
        else if (sc == 3)
        { // the faces containing the points, with the node closest to the point
            static const P PT[] = {{3.1, 4.2}, {17.3, 12.4}, {44.2, 31.3}, {36.6, 3.3}, {60.2, 11}, {26.8, 26.1}, {8.8, 33.9}}; std::vector<P> pts; for (int i = 0; i < 7; i++) if (pol == 0 || (pol == 1 && i % 2) || (pol == 2 && i < 3)) pts.push_back(off + s * PT[opt ? 6 - i : i]); Geo g(pts); rc = api::mkernel_contacts_compute_with_points(id, mask.data(), g); r.step(); if (nm == 5) { r.outcome(rc); return; } r.check(rc == 0, "call:" + key, "fails: " + lastError()); multi = true; S got = get();
            for (P p : pts) { int f = faceAt(p); if (f < 0) continue; double best = 1e300, second = 1e300; int c = -1; for (int n = 0; n < 5; n++) if (mask[n]) { double d = D(p, n1[n]); if (d < best) { second = best; best = d; c = n; } else second = std::min(second, d); } if (second - best < (proj ? 0.2 : 1e-6)) shaky = true; if (c >= 0) must.insert({c, f}); } if (shaky) { r.note("not judged: ties"); return; }
            r.checkf(got == must, key, [&] { return "contacts " + show(got) + ", expected " + show(must); });
        }
        else
        { // boundary faces in the polygons within the radius, with the closest node
            double rad = opt ? 14.2 : -1; double unit = proj ? 1e-4 * M_PI / 180 * 6378137.0 : 1; rc = api::mkernel_contacts_compute_boundary(id, mask.data(), pg, opt ? rad * unit : MISS); r.step(); r.check(rc == 0, "call:" + key, "fails: " + lastError()); S got = get();
            for (size_t f = 0; f < F.size(); f++) { if (!bnd((int)f) || !sel(cc[f])) continue; double best = 1e300, second = 1e300; int c = -1; for (int n = 0; n < 5; n++) if (mask[n]) { double d = D(cc[f], n1[n]), q = opt ? rad : maxLen(n); if (std::fabs(d - q) < (proj ? 0.3 : 1e-6)) shaky = true; if (d > q) continue; if (d < best) { second = best; best = d; c = n; } else second = std::min(second, d); } if (second - best < (proj ? 0.2 : 1e-6)) shaky = true; if (c >= 0) must.insert({c, (int)f}); } if (shaky) { r.note("not judged: ties"); return; }
            r.checkf(got == must, key, [&] { return "contacts " + show(got) + ", expected " + show(must); });
        }
        r.validated++; mc::Hash h; h.vi(a); h.vi(b); r.state(h.h); r.outcome((int)a.size()); 
        // computing again gives the same, and undoing brings the previous contacts back
        std::vector<int> a0 = a, b0 = b; S g1(must); if (sc == 0) rc = api::mkernel_contacts_compute_single(id, mask.data(), pg, opt ? 1.5 : 0.4); else if (sc == 1) rc = api::mkernel_contacts_compute_multiple(id, mask.data()); else return; multi = true; get(); r.checkf(a == a0 && b == b0, "again:" + key, [&] { return fmt("%d contacts the second time, %d the first", (int)a.size(), (int)a0.size()); });
    }
}
MC_MAIN(body)
