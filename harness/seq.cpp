// debugging aid: run named calls in order on the base world
#include "ops.hpp"
using namespace mk;
int main(int argc, char** argv)
{
    auto v = ops::all();
    reset(); int P0 = getenv("PROJ") ? atoi(getenv("PROJ")) : 0; int id = alloc(P0); printf("base %d\n", ops::buildBase(id));
    Snap prev = csnap(id);
    for (int i = 1; i < argc; i++)
    {
        std::string n = argv[i];
        if (n == "b1") { auto m = trigrid(3, 3, 10, 10, 0, 0, true); shear(m, 0.05, 0.02); setMesh2(id, m); continue; }
        if (n == "b2") { auto m = grid(3, 3, 10, 10); m.e.erase(m.e.begin() + 4); m.e.push_back({5, 10}); setMesh2(id, m); continue; }
        if (n == "b3") { auto m = grid(4, 2, 10, 12); for (auto& p : m.n) p = {p.x + 0.11 * p.y, p.y - 0.07 * p.x}; setMesh2(id, m); continue; }
        if (n == "dump") { M2 m; getM2(id, m); for (int k = 0; k < m.nn(); k++) printf("n%d(%.4g,%.4g) ", k, m.nx[k], m.ny[k]); puts(""); for (int e = 0; e < m.ne(); e++) printf("e%d:%d-%d[%d,%d] ", e, m.en[2*e], m.en[2*e+1], m.ef[2*e], m.ef[2*e+1]); puts(""); auto F = m.faces(); for (auto& f : F) { printf("("); for (int k : f) printf("%d ", k); printf(") "); } puts(""); continue; }
        if (n == "cdump") { CG g; getCG(id, g); for (int i = 0; i < g.n; i++) { for (int j = 0; j < g.m; j++) printf("(%.5g,%.5g) ", g.at(i,j).x, g.at(i,j).y); puts(""); } continue; }
        if (n == "undo") { bool u; int x; int rc = api::mkernel_undo_state(u, x); printf("undo rc %d undone %d id %d\n", rc, u, x); }
        else if (n == "redo") { bool u; int x; int rc = api::mkernel_redo_state(u, x); printf("redo rc %d redone %d id %d\n", rc, u, x); }
        else if (n == "noobs") { continue; }
        else for (auto& o : v) if (o.name == n) { int rc = o.run(id); printf("%s -> %d %s\n", n.c_str(), rc, rc ? lastError().c_str() : ""); }
        fflush(stdout);
        if (i + 1 < argc && std::string(argv[i + 1]) == "noobs") continue;
        Snap s = csnap(id);
        auto e = validateM2(s.m2); if (e.empty()) e = validateGeom(s.m2);
        printf("   diff: %s | valid: %s\n", diff(prev, s).c_str(), e.c_str()); fflush(stdout);
        prev = s;
    }
}
