// C06: whatever the edit history, the mesh read back is a consistent graph whose faces are the enclosed cells.
#include "ops.hpp"
#include "ref.hpp"
using namespace mk;
using ops::Op; using ops::rect;
namespace
{
    const std::vector<Op>& m2ops()
    {
        static std::vector<Op> v = [] { std::vector<Op> r; for (auto& o : ops::all()) if ((o.group == ops::MESH2D && o.name != "mesh2d_insert_node" && o.name != "mesh2d_convert_projection") || o.name == "curvilinear_convert_to_mesh2d") r.push_back(o); return r; }();
        return v;
    }
    MeshIn base(int k)
    {
        switch (k)
        {
        case 0: return ops::baseMesh();
        case 1: { auto m = trigrid(3, 3, 10, 10, 0, 0, true); shear(m, 0.05, 0.02); return m; }
        case 2: { auto m = grid(3, 3, 10, 10); m.e.erase(m.e.begin() + 4); m.e.push_back({5, 10}); return m; } // a hexagon and two triangles
        default: { auto m = grid(4, 2, 10, 12); for (auto& p : m.n) p = {p.x + 0.11 * p.y, p.y - 0.07 * p.x}; return m; }
        }
    }
    void look(Run& r, int id, const std::string& key, bool cart)
    {
        M2 m; r.check(getM2(id, m) == 0, "read:" + key, "the mesh cannot be read: " + lastError());
        bool p = false; std::string d = ref::sane(m, cart, &p);
        r.checkf(d.empty(), "inconsistent:" + key, [&] { return d; });
        if (p) r.outcome(1); else r.outcome(2);
        mc::Hash h; hash(h, m); r.state(h.h);
        if (p) r.validated++;
    }
    // Calls whose effect the documentation leaves open for this mesh.
    bool outside(int shadow, const Op& o, bool cart)
    {
        M2 m; if (getM2(shadow, m)) return false;
        if (o.name == "mesh2d_insert_edge/diag") { for (int e = 0; e < m.ne(); e++) if ((m.en[2 * e] == 0 && m.en[2 * e + 1] == 5) || (m.en[2 * e] == 5 && m.en[2 * e + 1] == 0)) return true; }
        static const char* simple[] = {"insert", "delete", "merge_two", "move_node", "translate", "rotate", "mesh2d_set", "mesh2d_add", "make_"};
        for (auto k : simple) if (o.name.find(k) != std::string::npos && o.name.find("small") == std::string::npos) return false;
        if (!cart) return false;
        if (!ref::planar(m)) return true; // the algorithms work on proper meshes: no overlaps, all cells recognised, no dangling corners
        std::map<int, int> bnd;
        for (int e = 0; e < m.ne(); e++) if (m.edgeOk(e) && m.ef[2 * e + 1] == -1) { bnd[m.en[2 * e]]++; bnd[m.en[2 * e + 1]]++; if (m.ef[2 * e] == -1) return true; }
        for (auto& x : bnd) if (x.second != 2) return true;
        for (auto& c : ref::cells(m)) if (c.size() > 6) return true;
        return false;
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        auto& O = m2ops(); int n = (int)O.size();
        if (sc == 0)
        { // every pair on every base mesh, also reading nothing in between
            int b = r.choose(4, "base"), a1 = r.choose(n, "first"), a2 = r.choose(n, "second"); bool seen = r.flag("read in between"); r.shard();
            std::string key = fmt("b%d;", b) + O[a1].name + ";" + O[a2].name; r.note(key);
            reset(); int id = alloc(0); ops::buildBase(id); setMesh2(id, base(b)); int sh = alloc(0); ops::buildBase(sh); setMesh2(sh, base(b)); if (outside(sh, O[a1], true)) throw mc::Skip{}; O[a1].run(sh); if (outside(sh, O[a2], true)) throw mc::Skip{}; if (seen) look(r, id, fmt("base%d", b), true);
            int rc = O[a1].run(id); r.step(); if (rc && !seen) throw mc::Skip{}; if (seen) look(r, id, key, true);
            rc = O[a2].run(id); r.step(); look(r, id, key, true);
        }
        else if (sc == 1)
        { // triples of the basic edits
            std::vector<int> c; for (int i = 0; i < n; i++) if (O[i].core) c.push_back(i);
            int b = r.choose(r.thorough() ? 4 : 2, "base"), a1 = r.choose((int)c.size(), "first"), a2 = r.choose((int)c.size(), "second"), a3 = r.choose((int)c.size(), "third"); r.shard();
            std::string key = fmt("b%d;", b) + O[c[a1]].name + ";" + O[c[a2]].name + ";" + O[c[a3]].name; r.note(key);
            reset(); int id = alloc(0); ops::buildBase(id); setMesh2(id, base(b)); int sh = alloc(0); ops::buildBase(sh); setMesh2(sh, base(b));
            for (int k : {c[a1], c[a2], c[a3]}) { if (outside(sh, O[k], true)) throw mc::Skip{}; O[k].run(sh); O[k].run(id); r.step(); }
            look(r, id, key, true);
        }
        else
        { // spherical states: combinatorial consistency
            int proj = 1 + r.choose(2, "projection"), a1 = r.choose(n, "first"), a2 = r.choose(n, "second"); r.shard();
            std::string key = fmt("p%d;", proj) + O[a1].name + ";" + O[a2].name; r.note(key);
            reset(); int id = alloc(proj); ops::buildBase(id); setMesh2(id, base(0));
            for (int k : {a1, a2}) { if (proj == 2 && k == a2 && O[a1].name.find("orthogonalization") != std::string::npos && O[k].name.find("casulli") != std::string::npos) throw mc::Skip{}; O[k].run(id); r.step(); look(r, id, key, false); }
        }
    }
}
MC_MAIN(body)
