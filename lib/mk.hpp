// Thin helpers over the MeshKernel C API (the only interface the harnesses drive) and small reference geometry.
#pragma once
#include "mc.hpp"
#include <MeshKernel/Parameters.hpp>
#include <MeshKernelApi/BoundingBox.hpp>
#include <MeshKernelApi/Contacts.hpp>
#include <MeshKernelApi/CurvilinearGrid.hpp>
#include <MeshKernelApi/GeometryList.hpp>
#include <MeshKernelApi/GriddedSamples.hpp>
#include <MeshKernelApi/Mesh1D.hpp>
#include <MeshKernelApi/Mesh2D.hpp>
#include <MeshKernelApi/MeshKernel.hpp>
#include <algorithm>
#include <array>
#include <limits>
#include <memory>
#include <numeric>

namespace api = meshkernelapi;
using mc::fmt;
using mc::Run;

namespace mk
{
    constexpr double MISS = -999.0;
    constexpr double HOLE = -998.0;
    struct P { double x, y; };
    inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
    inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
    inline P operator*(double s, P b) { return {s * b.x, s * b.y}; }
    inline double cross(P a, P b) { return a.x * b.y - a.y * b.x; }
    inline double dot(P a, P b) { return a.x * b.x + a.y * b.y; }
    inline double norm(P a) { return std::hypot(a.x, a.y); }
    inline double dist(P a, P b) { return norm(a - b); }
    inline bool valid(P p) { return p.x != MISS && p.y != MISS; }

    // An owned GeometryList
    struct Geo
    {
        std::vector<double> x, y, v;
        api::GeometryList g{};
        Geo() { fix(); }
        explicit Geo(const std::vector<P>& pts) { for (auto p : pts) { x.push_back(p.x); y.push_back(p.y); v.push_back(0.0); } fix(); }
        Geo(const Geo& o) : x(o.x), y(o.y), v(o.v) { fix(); }
        Geo& operator=(const Geo& o) { x = o.x; y = o.y; v = o.v; fix(); return *this; }
        void add(double a, double b, double c = 0) { x.push_back(a); y.push_back(b); v.push_back(c); fix(); }
        void sep() { add(MISS, MISS, MISS); }
        static Geo sized(size_t n) { Geo r; r.x.assign(n, -7777.25); r.y.assign(n, -7777.25); r.v.assign(n, -7777.25); r.fix(); return r; }
        void fix()
        {
            g.geometry_separator = MISS; g.inner_outer_separator = HOLE; g.num_coordinates = (int)x.size();
            g.coordinates_x = x.data(); g.coordinates_y = y.data(); g.values = v.data();
        }
        operator api::GeometryList&() { fix(); return g; }
        operator const api::GeometryList&() const { return g; }
        std::vector<P> pts() const { std::vector<P> r; for (size_t i = 0; i < x.size(); i++) r.push_back({x[i], y[i]}); return r; }
    };

    struct M2
    {
        std::vector<double> nx, ny, ex, ey, fx, fy;
        std::vector<int> en, ef, fn, npf, fe;
        int nvn = 0, nve = 0;
        int nn() const { return (int)nx.size(); }
        int ne() const { return (int)en.size() / 2; }
        int nf() const { return (int)npf.size(); }
        P node(int i) const { return {nx[i], ny[i]}; }
        bool nodeOk(int i) const { return i >= 0 && i < nn() && nx[i] != MISS && ny[i] != MISS; }
        bool edgeOk(int e) const { return en[2 * e] >= 0 && en[2 * e + 1] >= 0; }
        std::vector<std::vector<int>> faces() const
        {
            std::vector<std::vector<int>> r; size_t o = 0;
            for (int n : npf) { r.emplace_back(fn.begin() + o, fn.begin() + o + n); o += n; }
            return r;
        }
        std::vector<std::vector<int>> faceEdges() const
        {
            std::vector<std::vector<int>> r; size_t o = 0;
            for (int n : npf) { r.emplace_back(fe.begin() + o, fe.begin() + o + n); o += n; }
            return r;
        }
        std::vector<P> facePts(const std::vector<int>& f) const { std::vector<P> r; for (int i : f) r.push_back(node(i)); return r; }
    };
    struct M1 { std::vector<double> nx, ny; std::vector<int> en; };
    struct CG { int n = 0, m = 0; std::vector<double> x, y; P at(int i, int j) const { return {x[(size_t)i * m + j], y[(size_t)i * m + j]}; } };
    struct Snap
    {
        M2 m2; M1 m1; CG cg; std::vector<int> c1, c2; int proj = -1;
        std::string err;
    };

    inline int alloc(int projection = 0) { int id = -1; api::mkernel_allocate_state(projection, id); return id; }
    // fresh world: no states, empty undo stack with the default capacity
    inline void reset()
    {
        api::mkernel_clear_state();
        api::mkernel_set_undo_size(50);
        api::mkernel_clear_undo_state();
    }
    inline std::string lastError() { char b[2048] = {0}; api::mkernel_get_error(b); return b; }

    inline int setMesh2(int id, const std::vector<P>& nodes, const std::vector<std::array<int, 2>>& edges)
    {
        std::vector<double> x, y; std::vector<int> e;
        for (auto& p : nodes) { x.push_back(p.x); y.push_back(p.y); }
        for (auto& a : edges) { e.push_back(a[0]); e.push_back(a[1]); }
        api::Mesh2D m;
        m.node_x = x.data(); m.node_y = y.data(); m.num_nodes = (int)nodes.size(); m.num_edges = (int)edges.size(); m.edge_nodes = e.data();
        return api::mkernel_mesh2d_set(id, m);
    }
    struct MeshIn
    {
        std::vector<P> n; std::vector<std::array<int, 2>> e;
        std::string name;
    };
    inline int setMesh2(int id, const MeshIn& m) { return setMesh2(id, m.n, m.e); }
    inline int addMesh2(int id, const MeshIn& mi)
    {
        std::vector<double> x, y; std::vector<int> e;
        for (auto& p : mi.n) { x.push_back(p.x); y.push_back(p.y); }
        for (auto& a : mi.e) { e.push_back(a[0]); e.push_back(a[1]); }
        api::Mesh2D m;
        m.node_x = x.data(); m.node_y = y.data(); m.num_nodes = (int)mi.n.size(); m.num_edges = (int)mi.e.size(); m.edge_nodes = e.data();
        return api::mkernel_mesh2d_add(id, m);
    }
    inline int connectMesh2(int id, const MeshIn& mi, double frac)
    {
        std::vector<double> x, y; std::vector<int> e;
        for (auto& p : mi.n) { x.push_back(p.x); y.push_back(p.y); }
        for (auto& a : mi.e) { e.push_back(a[0]); e.push_back(a[1]); }
        api::Mesh2D m;
        m.node_x = x.data(); m.node_y = y.data(); m.num_nodes = (int)mi.n.size(); m.num_edges = (int)mi.e.size(); m.edge_nodes = e.data();
        return api::mkernel_mesh2d_connect_meshes(id, m, frac);
    }
    inline int setMesh1(int id, const std::vector<P>& nodes, const std::vector<std::array<int, 2>>& edges, bool add = false)
    {
        std::vector<double> x, y; std::vector<int> e;
        for (auto& p : nodes) { x.push_back(p.x); y.push_back(p.y); }
        for (auto& a : edges) { e.push_back(a[0]); e.push_back(a[1]); }
        api::Mesh1D m;
        m.node_x = x.data(); m.node_y = y.data(); m.num_nodes = (int)nodes.size(); m.num_edges = (int)edges.size(); m.edge_nodes = e.data();
        m.num_valid_nodes = m.num_nodes; m.num_valid_edges = m.num_edges;
        return add ? api::mkernel_mesh1d_add(id, m) : api::mkernel_mesh1d_set(id, m);
    }
    inline int setCG(int id, int n, int m, const std::vector<P>& nodes)
    {
        std::vector<double> x, y;
        for (auto& p : nodes) { x.push_back(p.x); y.push_back(p.y); }
        api::CurvilinearGrid g; g.node_x = x.data(); g.node_y = y.data(); g.num_m = m; g.num_n = n;
        return api::mkernel_curvilinear_set(id, g);
    }

    // returns error code of the first failing call
    inline int getM2(int id, M2& r)
    {
        api::Mesh2D m;
        int rc = api::mkernel_mesh2d_get_dimensions(id, m);
        if (rc) return rc;
        auto z = [](int n) { return std::max(n, 0); };
        r.nx.assign(z(m.num_nodes), 0); r.ny = r.nx; r.ex.assign(z(m.num_edges), 0); r.ey = r.ex; r.fx.assign(z(m.num_faces), 0); r.fy = r.fx;
        r.en.assign(2 * z(m.num_edges), -5); r.ef = r.en; r.fn.assign(z(m.num_face_nodes), -5); r.fe = r.fn; r.npf.assign(z(m.num_faces), -5);
        m.node_x = r.nx.data(); m.node_y = r.ny.data(); m.edge_x = r.ex.data(); m.edge_y = r.ey.data(); m.face_x = r.fx.data(); m.face_y = r.fy.data();
        m.edge_nodes = r.en.data(); m.edge_faces = r.ef.data(); m.face_nodes = r.fn.data(); m.face_edges = r.fe.data(); m.nodes_per_face = r.npf.data();
        r.nvn = m.num_valid_nodes; r.nve = m.num_valid_edges;
        return api::mkernel_mesh2d_get_data(id, m);
    }
    inline int getM1(int id, M1& r)
    {
        api::Mesh1D m{}; int rc = api::mkernel_mesh1d_get_dimensions(id, m);
        if (rc) return rc;
        r.nx.assign(m.num_nodes, 0); r.ny = r.nx; r.en.assign(2 * m.num_edges, -5);
        m.node_x = r.nx.data(); m.node_y = r.ny.data(); m.edge_nodes = r.en.data();
        return api::mkernel_mesh1d_get_data(id, m);
    }
    inline int getCG(int id, CG& r)
    {
        api::CurvilinearGrid g; int rc = api::mkernel_curvilinear_get_dimensions(id, g);
        if (rc) return rc;
        r.n = g.num_n; r.m = g.num_m; r.x.assign((size_t)r.n * r.m, 0); r.y = r.x;
        g.node_x = r.x.data(); g.node_y = r.y.data();
        if (r.n * r.m == 0) return 0;
        return api::mkernel_curvilinear_get_data(id, g);
    }
    inline int getContacts(int id, std::vector<int>& a, std::vector<int>& b)
    {
        api::Contacts c{}; int rc = api::mkernel_contacts_get_dimensions(id, c);
        if (rc) return rc;
        a.assign(std::max(0, c.num_contacts), -5); b = a;
        c.mesh1d_indices = a.data(); c.mesh2d_indices = b.data();
        return api::mkernel_contacts_get_data(id, c);
    }
    inline Snap snap(int id)
    {
        Snap s;
        if (int rc = getM2(id, s.m2)) s.err += fmt("mesh2d:%d;", rc);
        if (int rc = getM1(id, s.m1)) s.err += fmt("mesh1d:%d;", rc);
        if (int rc = getCG(id, s.cg)) s.err += fmt("curvilinear:%d;", rc);
        if (int rc = getContacts(id, s.c1, s.c2)) s.err += fmt("contacts:%d;", rc);
        if (int rc = api::mkernel_get_projection(id, s.proj)) s.err += fmt("projection:%d;", rc);
        return s;
    }
    // Slots of deleted nodes/edges stay in the arrays; trailing ones carry no information.
    inline void canon(M2& m)
    {
        for (int i = 0; i < m.nn(); i++) if (m.nx[i] == MISS || m.ny[i] == MISS) m.nx[i] = m.ny[i] = MISS;
        while (m.nn() && m.nx.back() == MISS) { m.nx.pop_back(); m.ny.pop_back(); }
        for (int e = 0; e < m.ne(); e++) if (!m.edgeOk(e)) { m.en[2 * e] = m.en[2 * e + 1] = -1; m.ex[e] = m.ey[e] = 0; m.ef[2 * e] = m.ef[2 * e + 1] = -1; }
        while (m.ne() && m.en[m.en.size() - 1] == -1) { m.en.resize(m.en.size() - 2); m.ef.resize(m.ef.size() - 2); m.ex.pop_back(); m.ey.pop_back(); }
    }
    inline Snap csnap(int id) { Snap s = snap(id); canon(s.m2); return s; }

    inline bool deq(double a, double b, double tol) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
    inline std::string vdiff(const char* nm, const std::vector<double>& a, const std::vector<double>& b, double tol)
    {
        if (a.size() != b.size()) return fmt("%s: size %zu vs %zu", nm, a.size(), b.size());
        for (size_t i = 0; i < a.size(); i++) if (!deq(a[i], b[i], tol)) return fmt("%s[%zu]: %.17g vs %.17g", nm, i, a[i], b[i]);
        return "";
    }
    inline std::string vdiff(const char* nm, const std::vector<int>& a, const std::vector<int>& b)
    {
        if (a.size() != b.size()) return fmt("%s: size %zu vs %zu", nm, a.size(), b.size());
        for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return fmt("%s[%zu]: %d vs %d", nm, i, a[i], b[i]);
        return "";
    }
    inline std::string diff(const M2& a, const M2& b, double tol)
    {
        std::string s;
        if (!(s = vdiff("mesh2d node_x", a.nx, b.nx, tol)).empty()) return s;
        if (!(s = vdiff("mesh2d node_y", a.ny, b.ny, tol)).empty()) return s;
        if (!(s = vdiff("mesh2d edge_nodes", a.en, b.en)).empty()) return s;
        if (!(s = vdiff("mesh2d edge_faces", a.ef, b.ef)).empty()) return s;
        if (!(s = vdiff("mesh2d nodes_per_face", a.npf, b.npf)).empty()) return s;
        if (!(s = vdiff("mesh2d face_nodes", a.fn, b.fn)).empty()) return s;
        if (!(s = vdiff("mesh2d face_edges", a.fe, b.fe)).empty()) return s;
        if (!(s = vdiff("mesh2d edge_x", a.ex, b.ex, tol)).empty()) return s;
        if (!(s = vdiff("mesh2d edge_y", a.ey, b.ey, tol)).empty()) return s;
        if (!(s = vdiff("mesh2d face_x", a.fx, b.fx, tol)).empty()) return s;
        if (!(s = vdiff("mesh2d face_y", a.fy, b.fy, tol)).empty()) return s;
        if (a.nvn != b.nvn) return fmt("mesh2d valid nodes %d vs %d", a.nvn, b.nvn);
        if (a.nve != b.nve) return fmt("mesh2d valid edges %d vs %d", a.nve, b.nve);
        return "";
    }
    inline std::string diff(const CG& a, const CG& b, double tol)
    {
        if (a.n != b.n || a.m != b.m) return fmt("curvilinear dims %dx%d vs %dx%d", a.n, a.m, b.n, b.m);
        std::string s;
        if (!(s = vdiff("curvilinear node_x", a.x, b.x, tol)).empty()) return s;
        return vdiff("curvilinear node_y", a.y, b.y, tol);
    }
    inline std::string diff(const M1& a, const M1& b, double tol)
    {
        std::string s;
        if (!(s = vdiff("mesh1d node_x", a.nx, b.nx, tol)).empty()) return s;
        if (!(s = vdiff("mesh1d node_y", a.ny, b.ny, tol)).empty()) return s;
        return vdiff("mesh1d edge_nodes", a.en, b.en);
    }
    inline std::string diff(const Snap& a, const Snap& b, double tol = 0)
    {
        std::string s;
        if (a.err != b.err) return "errors: '" + a.err + "' vs '" + b.err + "'";
        if (!(s = diff(a.m2, b.m2, tol)).empty()) return s;
        if (!(s = diff(a.m1, b.m1, tol)).empty()) return s;
        if (!(s = diff(a.cg, b.cg, tol)).empty()) return s;
        if (!(s = vdiff("contacts 1d", a.c1, b.c1)).empty()) return s;
        if (!(s = vdiff("contacts 2d", a.c2, b.c2)).empty()) return s;
        if (a.proj != b.proj) return fmt("projection %d vs %d", a.proj, b.proj);
        return "";
    }
    inline void hash(mc::Hash& h, const M2& m) { h.vd(m.nx); h.vd(m.ny); h.vi(m.en); h.vi(m.fn); h.vi(m.npf); }
    inline uint64_t hash(const Snap& s)
    {
        mc::Hash h; hash(h, s.m2); h.vd(s.m1.nx); h.vd(s.m1.ny); h.vi(s.m1.en); h.i(s.cg.n); h.i(s.cg.m); h.vd(s.cg.x); h.vd(s.cg.y);
        h.vi(s.c1); h.vi(s.c2); h.i(s.proj); return h.h;
    }

    // ---------- mesh builders ----------
    inline MeshIn grid(int cols, int rows, double dx = 1, double dy = 1, double ox = 0, double oy = 0)
    {
        MeshIn m; m.name = fmt("grid%dx%d", cols, rows);
        for (int j = 0; j <= rows; j++) for (int i = 0; i <= cols; i++) m.n.push_back({ox + i * dx, oy + j * dy});
        int w = cols + 1;
        for (int j = 0; j <= rows; j++) for (int i = 0; i < cols; i++) m.e.push_back({j * w + i, j * w + i + 1});
        for (int j = 0; j < rows; j++) for (int i = 0; i <= cols; i++) m.e.push_back({j * w + i, (j + 1) * w + i});
        return m;
    }
    inline MeshIn trigrid(int cols, int rows, double dx = 1, double dy = 1, double ox = 0, double oy = 0, bool alternate = false)
    {
        MeshIn m = grid(cols, rows, dx, dy, ox, oy); m.name = fmt("tri%dx%d", cols, rows);
        int w = cols + 1;
        for (int j = 0; j < rows; j++) for (int i = 0; i < cols; i++)
            if (alternate && (i + j) % 2) m.e.push_back({j * w + i + 1, (j + 1) * w + i});
            else m.e.push_back({j * w + i, (j + 1) * w + i + 1});
        return m;
    }
    inline void shear(MeshIn& m, double a, double b) { for (auto& p : m.n) p = {p.x + a * p.y, p.y + b * p.x}; }

    // ---------- reference geometry ----------
    inline double area(const std::vector<P>& p)
    {
        double a = 0; size_t n = p.size();
        for (size_t i = 0; i < n; i++) a += cross(p[i], p[(i + 1) % n]);
        return a / 2;
    }
    inline P centroid(const std::vector<P>& p)
    {
        double a = 0, cx = 0, cy = 0; size_t n = p.size(); P o = p[0];
        for (size_t i = 0; i < n; i++) { P u = p[i] - o, v = p[(i + 1) % n] - o; double c = cross(u, v); a += c; cx += (u.x + v.x) * c; cy += (u.y + v.y) * c; }
        return {o.x + cx / (3 * a), o.y + cy / (3 * a)};
    }
    inline double segDist(P p, P a, P b)
    {
        P d = b - a; double l = dot(d, d);
        double t = l == 0 ? 0 : std::clamp(dot(p - a, d) / l, 0.0, 1.0);
        return dist(p, a + t * d);
    }
    // +1 inside, 0 on the boundary (within tol), -1 outside; ring given without repeated closing point or with
    inline int pip(P p, std::vector<P> r, double tol = 1e-9)
    {
        if (r.size() > 1 && r.front().x == r.back().x && r.front().y == r.back().y) r.pop_back();
        size_t n = r.size(); if (n < 3) return -1;
        for (size_t i = 0; i < n; i++) if (segDist(p, r[i], r[(i + 1) % n]) <= tol) return 0;
        bool in = false;
        for (size_t i = 0, j = n - 1; i < n; j = i++)
            if ((r[i].y > p.y) != (r[j].y > p.y) && p.x < (r[j].x - r[i].x) * (p.y - r[i].y) / (r[j].y - r[i].y) + r[i].x) in = !in;
        return in ? 1 : -1;
    }
    inline double meshArea(const M2& m) { double a = 0; for (auto& f : m.faces()) a += area(m.facePts(f)); return a; }
    inline std::vector<std::vector<P>> splitRings(const std::vector<P>& pts, double sep = MISS)
    {
        std::vector<std::vector<P>> r; std::vector<P> c;
        for (auto p : pts) { if (p.x == sep) { if (!c.empty()) r.push_back(c); c.clear(); } else c.push_back(p); }
        if (!c.empty()) r.push_back(c);
        return r;
    }

    // Structural validity of an observed Mesh2D, from definitions only. Empty string when valid.
    inline std::string validateM2(const M2& m, int maxEdges = 6)
    {
        int vn = 0, ve = 0;
        for (int i = 0; i < m.nn(); i++) if (m.nodeOk(i)) vn++;
        std::vector<int> deg(m.nn(), 0);
        std::set<std::pair<int, int>> es;
        for (int e = 0; e < m.ne(); e++)
        {
            if (!m.edgeOk(e))
            {
                if (m.ef[2 * e] != -1 || m.ef[2 * e + 1] != -1) return fmt("deleted edge %d has a face", e);
                continue;
            }
            ve++;
            int a = m.en[2 * e], b = m.en[2 * e + 1];
            if (!m.nodeOk(a) || !m.nodeOk(b)) return fmt("edge %d = (%d,%d) refers to a missing node", e, a, b);
            if (a == b) return fmt("edge %d is degenerate (%d,%d)", e, a, b);
            if (!es.insert({std::min(a, b), std::max(a, b)}).second) return fmt("edge %d duplicates (%d,%d)", e, a, b);
            deg[a]++; deg[b]++;
        }
        if (vn != m.nvn) return fmt("reported valid nodes %d, present %d", m.nvn, vn);
        if (ve != m.nve) return fmt("reported valid edges %d, present %d", m.nve, ve);
        size_t tot = 0;
        for (int k : m.npf) { if (k < 3) return fmt("face with %d nodes", k); tot += k; }
        if (tot != m.fn.size()) return fmt("num_face_nodes %zu but faces have %zu", m.fn.size(), tot);
        auto F = m.faces(), FE = m.faceEdges();
        std::vector<std::vector<int>> ef(m.ne());
        std::set<std::vector<int>> fs;
        for (int f = 0; f < m.nf(); f++)
        {
            auto s = F[f]; std::sort(s.begin(), s.end());
            if (std::adjacent_find(s.begin(), s.end()) != s.end()) return fmt("face %d repeats a node", f);
            if (!fs.insert(s).second) return fmt("face %d duplicates another face", f);
            for (size_t i = 0; i < F[f].size(); i++)
            {
                int a = F[f][i], b = F[f][(i + 1) % F[f].size()], e = FE[f][i];
                if (!m.nodeOk(a)) return fmt("face %d refers to missing node %d", f, a);
                if (e < 0 || e >= m.ne() || !m.edgeOk(e)) return fmt("face %d refers to missing edge %d", f, e);
                int p = m.en[2 * e], q = m.en[2 * e + 1];
                if (!((p == a && q == b) || (p == b && q == a))) return fmt("face %d: edge %zu (%d=(%d,%d)) does not join its nodes %d,%d", f, i, e, p, q, a, b);
                ef[e].push_back(f);
            }
        }
        for (int e = 0; e < m.ne(); e++)
        {
            std::vector<int> r; for (int k = 0; k < 2; k++) if (m.ef[2 * e + k] != -1) r.push_back(m.ef[2 * e + k]);
            auto w = ef[e]; std::sort(r.begin(), r.end()); std::sort(w.begin(), w.end());
            if (w.size() > 2) return fmt("edge %d is in %zu faces", e, w.size());
            if (r != w) return fmt("edge %d: reported faces differ from the faces that contain it", e);
        }
        return "";
    }
    // geometric part (Cartesian): faces counter-clockwise, centres right, minimal cells complete
    inline std::string validateGeom(const M2& m, double tol = 1e-8, int maxEdges = 6, bool complete = true)
    {
        auto F = m.faces();
        for (int f = 0; f < m.nf(); f++)
        {
            auto p = m.facePts(F[f]); double a = area(p);
            if (!(a > 0)) return fmt("face %d has area %g (not counter-clockwise)", f, a);
            P c = centroid(p); double sc = std::sqrt(a) + norm(c) * 1e-6 + 1;
            if (std::fabs(c.x - m.fx[f]) > tol * sc * 10 || std::fabs(c.y - m.fy[f]) > tol * sc * 10) return fmt("face %d mass centre (%.12g,%.12g), expected (%.12g,%.12g)", f, m.fx[f], m.fy[f], c.x, c.y);
        }
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e))
        {
            P c = 0.5 * (m.node(m.en[2 * e]) + m.node(m.en[2 * e + 1]));
            if (!deq(c.x, m.ex[e], tol) || !deq(c.y, m.ey[e], tol)) return fmt("edge %d centre (%.12g,%.12g), expected (%.12g,%.12g)", e, m.ex[e], m.ey[e], c.x, c.y);
        }
        if (!complete) return "";
        // planar half-edge traversal: every bounded cell with <= maxEdges edges must be a face
        std::vector<std::vector<std::pair<double, int>>> adj(m.nn());
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e))
        {
            int a = m.en[2 * e], b = m.en[2 * e + 1]; P d = m.node(b) - m.node(a);
            adj[a].push_back({std::atan2(d.y, d.x), b}); adj[b].push_back({std::atan2(-d.y, -d.x), a});
        }
        // edges that end in a node without further edges (after removing such edges) enclose nothing
        for (bool again = true; again;)
        {
            again = false;
            for (int a = 0; a < m.nn(); a++) if (adj[a].size() == 1)
            { int b = adj[a][0].second; adj[a].clear(); auto& L = adj[b]; for (size_t k = 0; k < L.size(); k++) if (L[k].second == a) { L.erase(L.begin() + k); break; } again = true; }
        }
        for (auto& v : adj) std::sort(v.begin(), v.end());
        std::map<std::set<int>, int> have;
        for (int f = 0; f < m.nf(); f++) have[std::set<int>(F[f].begin(), F[f].end())] = f;
        std::set<std::pair<int, int>> done;
        std::map<std::pair<int, int>, int> edgeOf;
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e)) { edgeOf[{m.en[2 * e], m.en[2 * e + 1]}] = e; edgeOf[{m.en[2 * e + 1], m.en[2 * e]}] = e; }
        for (int a = 0; a < m.nn(); a++) for (auto& ab : adj[a])
        {
            std::vector<int> cyc; int u = a, v = ab.second; bool ok = true;
            if (done.count({u, v})) continue;
            while (true)
            {
                if (!done.insert({u, v}).second) break;
                cyc.push_back(u);
                auto& L = adj[v]; size_t k = 0; while (k < L.size() && L[k].second != u) k++;
                int w = L[(k + L.size() - 1) % L.size()].second;
                u = v; v = w;
                if (cyc.size() > 4000) { ok = false; break; }
            }
            if (!ok || cyc.size() < 3 || (int)cyc.size() > maxEdges) continue;
            std::set<int> s(cyc.begin(), cyc.end());
            if (s.size() != cyc.size()) continue;
            double A = area(m.facePts(cyc));
            if (A <= 1e-12) continue;
            if (have.count(s)) { have.erase(s); continue; }
            // A cell bordering one neighbour along several edges is, by design, not recognised when enclosed.
            std::map<int, int> nb; bool shared = false;
            for (size_t i = 0; i < cyc.size(); i++) { int e = edgeOf[{cyc[i], cyc[(i + 1) % cyc.size()]}]; for (int k = 0; k < 2; k++) if (m.ef[2 * e + k] >= 0 && ++nb[m.ef[2 * e + k]] > 1) shared = true; }
            if (shared) continue;
            std::string l; for (int i : cyc) l += std::to_string(i) + " ";
            return "enclosed cell is not a face: nodes " + l;
        }
        if (!have.empty()) { std::string l; for (int i : have.begin()->first) l += std::to_string(i) + " "; return "face is not a minimal cell of the edge graph: nodes " + l; }
        return "";
    }
}
