// C03: states do not influence each other, and ids follow their life cycle, for every interleaving of two clients.
#include "ops.hpp"
using namespace mk;
using ops::Op;
namespace
{
    const std::vector<Op>& all() { static std::vector<Op> v = ops::all(); return v; }
    const std::vector<Op>& core() { static std::vector<Op> v = [] { std::vector<Op> r; for (auto& o : all()) if (o.core) r.push_back(o); return r; }(); return v; }
    Snap raw(int id) { return snap(id); }
    // the result of running calls on a state that is alone in the world (memoised)
    const Snap& alone(int proj, const std::vector<int>& ops_, std::vector<int>* rcs = nullptr)
    {
        static std::map<std::pair<int, std::vector<int>>, std::pair<Snap, std::vector<int>>> memo;
        auto k = std::make_pair(proj, ops_);
        auto it = memo.find(k);
        if (it == memo.end())
        {
            if (memo.size() > 20000) memo.clear();
            reset(); int id = alloc(proj); ops::buildBase(id);
            std::vector<int> rc; for (int o : ops_) rc.push_back(all()[o].run(id));
            it = memo.emplace(k, std::make_pair(raw(id), rc)).first;
        }
        if (rcs) *rcs = it->second.second;
        return it->second.first;
    }
    void body(Run& r)
    {
        int sc = r.choose(3, "scenario");
        if (sc == 0)
        { // client A runs a1 then a2, client B runs b in every position; A and B may differ in projection
            int n = (int)all().size();
            int pb = r.choose(2, "projection of B");
            int a = r.choose(n, "a"), b = r.choose(n, "b"), order = r.choose(3, "interleaving");
            r.shard();
            std::vector<int> ra, rb;
            Snap ea = alone(0, {a}, &ra), eb = alone(pb, {b}, &rb), b0 = alone(pb, {}), a0 = alone(0, {});
            reset(); int A = alloc(0), B = alloc(pb);
            if (order == 2) { ops::buildBase(B); ops::buildBase(A); } else { ops::buildBase(A); ops::buildBase(B); }
            std::string key = all()[a].name + "|" + all()[b].name;
            r.note(key);
            if (order == 0)
            {
                int rc = all()[a].run(A); r.step();
                r.check(rc == ra[0], "rc:" + key, fmt("call returns %d next to another state, %d alone", rc, ra[0]));
                auto d = diff(b0, raw(B)); r.check(d.empty(), "leak-to-B:" + key, "a call on state A changed state B: " + d);
                rc = all()[b].run(B); r.step();
                r.check(rc == rb[0], "rc:" + key, fmt("call returns %d next to another state, %d alone", rc, rb[0]));
            }
            else
            {
                int rc = all()[b].run(B); r.step();
                r.check(rc == rb[0], "rc:" + key, fmt("call returns %d next to another state, %d alone", rc, rb[0]));
                auto d = diff(a0, raw(A)); r.check(d.empty(), "leak-to-A:" + key, "a call on state B changed state A: " + d);
                rc = all()[a].run(A); r.step();
                r.check(rc == ra[0], "rc:" + key, fmt("call returns %d next to another state, %d alone", rc, ra[0]));
            }
            Snap sa = raw(A), sb = raw(B); r.state(hash(sa)); r.state(hash(sb));
            auto d = diff(ea, sa); r.check(d.empty(), "A-differs:" + key, "the result on state A depends on what happened to state B: " + d);
            d = diff(eb, sb); r.check(d.empty(), "B-differs:" + key, "the result on state B depends on what happened to state A: " + d);
        }
        else if (sc == 1)
        { // undo, deallocation and removal of one state never touch the other
            int n = (int)core().size();
            int a = r.choose(n, "a"), b = r.choose(n, "b"), what = r.choose(5, "event");
            r.shard();
            reset(); int A = alloc(0), B = alloc(0); ops::buildBase(A); ops::buildBase(B);
            std::string key = core()[a].name + "|" + core()[b].name + fmt("|%d", what);
            Snap a0 = raw(A);
            core()[a].run(A); Snap s = raw(A);
            int c0, x; api::mkernel_undo_state_count_for_id(B, c0, x);
            core()[b].run(B);
            int c1; api::mkernel_undo_state_count_for_id(B, c1, x);
            r.transitions += 2;
            bool u; int w;
            if (what == 0) { for (int i = c0; i < c1; i++) { api::mkernel_undo_state(u, w); r.check(w == B, "undo-target:" + key, "undo acted on another state"); } }
            else if (what == 1) api::mkernel_deallocate_state(B);
            else if (what == 2) api::mkernel_expunge_state(B);
            else if (what == 3) { api::mkernel_clear_undo_state_for_id(B); }
            else { for (int i = c0; i < c1; i++) { api::mkernel_undo_state(u, w); } for (int i = c0; i < c1; i++) { api::mkernel_redo_state(u, w); } }
            r.step();
            auto d = diff(s, raw(A)); r.check(d.empty(), "event:" + key, "an event on state B changed state A: " + d);
            if (what == 2)
            {
                M2 m; r.check(getM2(B, m) != 0, "expunged-usable:" + key, "an expunged state can still be read");
                bool ok = true; api::mkernel_is_valid_state(B, ok); r.check(!ok, "expunged-valid:" + key, "an expunged state is valid");
                ok = false; api::mkernel_is_valid_state(A, ok); r.check(ok, "other-invalid:" + key, "expunging B invalidated A");
            }
            if (what == 2 || what == 3)
            { // A's history survived
                int ca; api::mkernel_undo_state_count_for_id(A, ca, x);
                int before = ca; for (int i = 0; i < before; i++) { bool uu; api::mkernel_undo_state(uu, w); r.check(uu && w == A, "history-lost:" + key, "state A lost its history"); }
                Snap e; { reset(); int q = alloc(0); e = raw(q); (void)q; }
            }
        }
        else
        { // life cycle of ids: allocate / deallocate / expunge / clear in every order
            int depth = r.thorough() ? 7 : 5;
            std::vector<int> seq; for (int i = 0; i < depth; i++) { seq.push_back(r.choose(8, "step")); if (i == 2) r.shard(); }
            reset();
            std::map<int, int> live; std::vector<int> order; int maxId = -1; std::string key;
            auto nth = [&](int i) { return i < (int)order.size() ? order[i] : -1; };
            for (int k : seq)
            {
                r.step(); key += fmt("%d;", k);
                if (k < 3) { int id = -77; int rc = api::mkernel_allocate_state(k, id); r.check(rc == 0, "alloc-rc:" + key, "allocate failed"); r.check(!live.count(id) && id > maxId, "alloc-id:" + key, fmt("id %d handed out although %d was the largest so far", id, maxId)); maxId = id; live[id] = k; order.push_back(id); }
                else if (k == 3 || k == 4) { int id = nth(k - 3); int rc = api::mkernel_expunge_state(id); r.check((rc == 0) == (live.count(id) > 0), "expunge:" + key, fmt("expunge of id %d returned %d", id, rc)); if (live.count(id)) { live.erase(id); order.erase(order.begin() + (k - 3)); } }
                else if (k == 5) { int id = nth(0); int rc = api::mkernel_deallocate_state(id); r.check((rc == 0) == (live.count(id) > 0), "dealloc:" + key, fmt("deallocate of id %d returned %d", id, rc)); }
                else if (k == 6) { int rc = api::mkernel_clear_state(); r.check(rc == 0, "clear:" + key, "clear_state failed"); live.clear(); order.clear(); maxId = -1; }
                else { int id = -77; int before = (int)live.size(); int rc = api::mkernel_allocate_state(3 + (int)before, id); r.check(rc != 0, "alloc-bad:" + key, "unknown projection accepted"); maxId = std::max(maxId, id); }
                for (int id = -1; id <= maxId + 2; id++)
                {
                    bool ok = !live.count(id); int rc = api::mkernel_is_valid_state(id, ok);
                    r.check(rc == 0 && ok == (live.count(id) > 0), "valid:" + key, fmt("id %d valid=%d", id, (int)ok));
                    if (live.count(id)) { int p = -9; rc = api::mkernel_get_projection(id, p); r.check(rc == 0 && p == live[id], "proj:" + key, fmt("state %d has projection %d, allocated with %d", id, p, live[id])); }
                    M2 m; rc = getM2(id, m); r.check((rc == 0) == (live.count(id) > 0), "usable:" + key, fmt("reading state %d returned %d", id, rc));
                }
                mc::Hash h; for (auto& [i, p] : live) { h.i(i); h.i(p); } r.state(h.h);
            }
        }
    }
}
MC_MAIN(body)
