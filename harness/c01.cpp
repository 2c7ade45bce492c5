// C01: undo/redo restore the observable state exactly, for every bounded history.
#include "ops.hpp"
using namespace mk;
using ops::Op;

namespace
{
    struct World
    {
        Run& r; int id;
        std::vector<Snap> hist; // hist[pos] is the expected observation
        size_t pos = 0;
        std::string lastOps;
        bool observe = true;
        World(Run& r_, int proj) : r(r_)
        {
            reset();
            id = alloc(proj);
            hist.push_back(csnap(id));
        }
        void record(const Snap& s) { hist.resize(pos + 1); hist.push_back(s); pos++; r.state(hash(s)); }
        // returns false when the call is rejected (its effect is property C04's concern)
        bool apply(const std::string& nm, const std::function<int(int)>& f)
        {
            int c0, r0, c1, r1; api::mkernel_undo_state_count(c0, r0);
            int rc = f(id);
            api::mkernel_undo_state_count(c1, r1);
            r.step(); r.note(fmt("%s -> %d", nm.c_str(), rc));
            lastOps += nm + ";";
            Snap s = csnap(id);
            if (rc != 0) return false;
            int added = c1 - c0;
            if (added < 0 || c1 >= 50) throw mc::Skip{};
            if (added == 0) { hist[pos] = s; return true; } // a call that is not undoable
            // a compound convenience op may push several entries: only the final observation is known
            for (int k = 1; k < added; k++) { hist.resize(pos + 1); Snap u; u.err = "?"; hist.push_back(u); pos++; }
            record(s);
            return true;
        }
        void undo()
        {
            bool u = false; int uid = -12345; int rc = api::mkernel_undo_state(u, uid);
            r.step(); r.note(fmt("undo -> rc %d undone %d id %d", rc, (int)u, uid));
            r.check(rc == 0, "undo-error:" + lastOps, "undo failed with code: " + lastError());
            if (pos == 0) { r.check(!u, "undo-empty:" + lastOps, "undo reported an action on an exhausted history"); return; }
            r.check(u, "undo-nothing:" + lastOps, "undo did nothing although there is an undoable action");
            pos--;
            cmp("undo");
        }
        void redo()
        {
            bool u = false; int uid = -12345; int rc = api::mkernel_redo_state(u, uid);
            r.step(); r.note(fmt("redo -> rc %d redone %d id %d", rc, (int)u, uid));
            r.check(rc == 0, "redo-error:" + lastOps, "redo failed with code: " + lastError());
            if (pos + 1 >= hist.size()) { r.check(!u, "redo-empty:" + lastOps, "redo reported an action although nothing was undone"); return; }
            r.check(u, "redo-nothing:" + lastOps, "redo did nothing although an action was undone");
            pos++;
            cmp("redo");
        }
        void cmp(const char* what)
        {
            Snap s = csnap(id);
            if (hist[pos].err == "?") { hist[pos] = s; return; }
            std::string d = diff(hist[pos], s);
            r.checkf(d.empty(), std::string(what) + ":" + lastOps, [&] { return std::string("after ") + what + " the state differs from the one it should restore (expected vs got): " + d; });
        }
        void base()
        {
            apply("base mesh2d_set", [](int i) { return setMesh2(i, ops::baseMesh()); });
            apply("base mesh1d_set", [](int i) { return setMesh1(i, ops::line1d(), {{0, 1}, {1, 2}, {2, 3}, {3, 4}}); });
            apply("base curvilinear_set", [](int i) { return setCG(i, 5, 5, ops::gridNodes(5, 5, 10, 1.0)); });
            apply("base network1d_set", [](int i) { Geo net; net.add(0, 0); net.add(50, 0); net.add(50, 40); net.sep(); net.add(50, 40); net.add(90, 70); return api::mkernel_network1d_set(i, net); });
            lastOps.clear();
        }
    };

    const std::vector<Op>& all() { static std::vector<Op> v = ops::all(); return v; }
    const std::vector<Op>& core() { static std::vector<Op> v = [] { std::vector<Op> r; for (auto& o : all()) if (o.core) r.push_back(o); return r; }(); return v; }
    const std::vector<Op>& small()
    {
        static std::vector<Op> v = [] {
            std::vector<std::string> names{"mesh2d_delete_edge_by_index/0", "mesh2d_delete_node/5", "mesh2d_insert_edge_from_coordinates", "mesh2d_casulli_refinement", "mesh2d_translate", "curvilinear_insert_face", "curvilinear_delete_node", "curvilinear_full_refine"};
            std::vector<Op> r; for (auto& n : names) for (auto& o : all()) if (o.name == n) r.push_back(o); return r; }();
        return v;
    }
    void walk(World& w)
    {
        // all the way back to the empty state, forward again, and a partial zig-zag
        size_t top = w.pos;
        for (size_t i = 0; i <= top; i++) w.undo();
        for (size_t i = 0; i <= top; i++) w.redo();
        w.undo(); w.undo(); w.redo(); w.undo(); w.redo(); w.redo();
    }

    void body(Run& r)
    {
        int sc = r.choose(5, "scenario");
        if (sc == 0)
        { // every ordered pair of every call
            int proj = r.thorough() ? r.choose(2, "projection") : 0;
            int a = r.choose((int)all().size(), "first"), b = r.choose((int)all().size(), "second");
            r.shard();
            World w(r, proj); w.base();
            if (!w.apply(all()[a].name, all()[a].run)) return;
            if (!w.apply(all()[b].name, all()[b].run)) return;
            walk(w);
        }
        else if (sc == 1)
        { // every triple of the core calls
            int n = (int)core().size();
            int a = r.choose(n, "first"), b = r.choose(n, "second"), c = r.choose(n, "third");
            r.shard();
            // at least two calls on the same entity, or the history is a permutation of independent pairs
            World w(r, 0); w.base();
            for (int k : {a, b, c}) if (!w.apply(core()[k].name, core()[k].run)) return;
            size_t top = w.pos;
            for (size_t i = 0; i < 3 && i < top; i++) w.undo();
            for (size_t i = 0; i < 3 && i < top; i++) w.redo();
        }
        else if (sc == 2)
        { // free interleavings of calls, undo and redo
            int depth = r.thorough() ? 6 : 4, n = (int)small().size();
            std::vector<int> seq;
            for (int i = 0; i < depth; i++) { seq.push_back(r.choose(n + 2, "step")); if (i == 2) r.shard(); }
            World w(r, 0); w.base();
            for (int k : seq)
            {
                if (k == n) w.undo();
                else if (k == n + 1) w.redo();
                else if (!w.apply(small()[k].name, small()[k].run)) return;
            }
            while (w.pos > 4) w.undo();
            while (w.pos + 1 < w.hist.size()) w.redo();
        }
        else if (sc == 3)
        { // undo without looking in between: pairs, observed only at the end
            int a = r.choose((int)all().size(), "first"), b = r.choose((int)all().size(), "second"), m = r.choose(5, "undos/redos");
            r.shard();
            reset();
            int id = alloc(0);
            ops::buildBase(id);
            Snap s0 = csnap(id);
            auto count = [] { int c, x; api::mkernel_undo_state_count(c, x); return c; };
            int c0 = count();
            if (all()[a].run(id)) return;
            int ca = count() - c0;
            r.note(all()[a].name);
            Snap s1;
            { // expected intermediate state from an independent run
                if (m == 1 || m == 3) { reset(); id = alloc(0); ops::buildBase(id); csnap(id); all()[a].run(id); s1 = csnap(id); reset(); id = alloc(0); ops::buildBase(id); csnap(id); all()[a].run(id); }
            }
            int c1 = count();
            if (all()[b].run(id)) return;
            int cb = count() - c1;
            r.note(all()[b].name);
            r.transitions += 2;
            std::string key = all()[a].name + ";" + all()[b].name + ";";
            bool u; int x;
            if (ca == 0 || cb == 0) return;
            if (m == 0) { for (int i = 0; i < ca + cb; i++) { api::mkernel_undo_state(u, x); r.step(); } auto d = diff(s0, csnap(id)); r.check(d.empty(), "undo2:" + key, "undo of two calls: " + d); }
            else if (m == 3) { csnap(id); for (int i = 0; i < cb; i++) { api::mkernel_undo_state(u, x); r.step(); } auto d = diff(s1, csnap(id)); r.check(d.empty(), "undo1o:" + key, "undo of the second call after looking at its result: " + d); }
            else if (m == 4) { csnap(id); for (int i = 0; i < ca + cb; i++) { api::mkernel_undo_state(u, x); r.step(); } auto d = diff(s0, csnap(id)); r.check(d.empty(), "undo2o:" + key, "undo of two calls after looking at the result: " + d); }
            else if (m == 1) { for (int i = 0; i < cb; i++) { api::mkernel_undo_state(u, x); r.step(); } auto d = diff(s1, csnap(id)); r.check(d.empty(), "undo1:" + key, "undo of the second call: " + d); }
            else
            {
                Snap s2 = csnap(id);
                reset(); id = alloc(0); ops::buildBase(id); csnap(id); all()[a].run(id); all()[b].run(id);
                for (int i = 0; i < ca + cb; i++) { api::mkernel_undo_state(u, x); r.step(); }
                for (int i = 0; i < ca + cb; i++) { api::mkernel_redo_state(u, x); r.step(); }
                auto d = diff(s2, csnap(id)); r.check(d.empty(), "undo2redo2:" + key, "undo and redo of two calls: " + d);
            }
        }
        else
        { // the 1D network is visible only through the mesh generated from it
            int depth = r.thorough() ? 6 : 5;
            std::vector<int> seq; for (int i = 0; i < depth; i++) seq.push_back(r.choose(5, "net step"));
            r.shard();
            reset(); int id = alloc(0);
            struct Net { int kind; std::vector<double> offs; };
            std::vector<Net> h{{-1, {}}}; size_t pos = 0;
            auto setNet = [](int i, int kind) { Geo n; if (kind == 0) { n.add(0, 0); n.add(30, 0); } else { n.add(0, 0); n.add(0, 40); n.sep(); n.add(0, 40); n.add(20, 40); } return api::mkernel_network1d_set(i, n); };
            std::string key;
            for (int k : seq)
            {
                r.step();
                if (k < 2) { setNet(id, k); h.resize(pos + 1); h.push_back({k, {}}); pos++; key += fmt("set%d;", k); }
                else if (k == 2) { if (h[pos].kind < 0) return; api::mkernel_network1d_compute_offsetted_chainages(id, 10); h[pos].offs.push_back(10); key += "offset;"; }
                else if (k == 3) { bool u; int x; api::mkernel_undo_state(u, x); r.check(u == (pos > 0), "net-undo:" + key, "undone flag"); if (pos) pos--; key += "undo;"; }
                else { bool u; int x; api::mkernel_redo_state(u, x); r.check(u == (pos + 1 < h.size()), "net-redo:" + key, "redone flag"); if (pos + 1 < h.size()) pos++; key += "redo;"; }
            }
            r.note(key);
            int rc = api::mkernel_network1d_to_mesh1d(id, 0.5);
            M1 got; getM1(id, got);
            int id2 = alloc(0);
            if (h[pos].kind >= 0) { setNet(id2, h[pos].kind); for (double o : h[pos].offs) api::mkernel_network1d_compute_offsetted_chainages(id2, o); }
            int rc2 = api::mkernel_network1d_to_mesh1d(id2, 0.5);
            M1 want; getM1(id2, want);
            r.check(rc == rc2, "net-rc:" + key, fmt("network to mesh1d: %d vs %d", rc2, rc));
            auto d = diff(want, got, 0);
            mc::Hash hh; hh.vd(got.nx); hh.vd(got.ny); r.state(hh.h);
            r.check(d.empty(), "net:" + key, "1D network after undo/redo differs: " + d);
        }
    }
}
MC_MAIN(body)
