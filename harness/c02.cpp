// C02: the undo history is a bounded LIFO shared by all states; counts, ids, eviction and clearing follow a reference model.
#include "ops.hpp"
#include <deque>
using namespace mk;

namespace
{
    struct Val { double one, two; bool operator==(const Val& o) const { return one == o.one && two == o.two; } };
    struct Act { int who; Val before, after; };
    struct Model
    {
        std::deque<Act> done; std::vector<Act> undone; int cap = 50;
        Val v[2] = {{0, 0}, {0, 0}};
        void push(int who, Val nv)
        {
            Act a{who, v[who], nv}; v[who] = nv;
            if (cap == 0) return;
            done.push_back(a);
            undone.erase(std::remove_if(undone.begin(), undone.end(), [&](auto& x) { return x.who == who; }), undone.end());
            if ((int)done.size() > cap) done.pop_front();
        }
    };
    void set1(int id, double x) { setMesh1(id, {{x, 0}, {x + 1, 0}}, {{0, 1}}); }
    double read1(int id) { M1 m; getM1(id, m); return m.nx.empty() ? 0 : m.nx[0]; }
    double read2(int id) { M2 m; getM2(id, m); return m.nx.empty() ? 0 : m.nx[0]; }
    const char* names[] = {"set1d A", "set1d B", "move node A", "undo", "redo", "undo size 2", "undo size 1", "rejected call A", "clear undo of A", "undo size 0", "clear undo", "deallocate A", "expunge B and allocate again", "move node B", "undo size 3", "set_undo_size(-1)"};

    void body(Run& r)
    {
        std::vector<int> letters; int depth;
        int sc = r.choose(3, "alphabet");
        if (sc == 0) { for (int i = 0; i < 16; i++) letters.push_back(i); depth = r.thorough() ? 5 : 4; }
        else if (sc == 1) { letters = {0, 1, 2, 3, 4, 5, 8}; depth = r.thorough() ? 8 : 6; }
        else { letters = {0, 1, 3, 4, 14}; depth = r.thorough() ? 10 : 8; }
        std::vector<int> seq; for (int i = 0; i < depth; i++) { seq.push_back(letters[r.choose((int)letters.size(), "step")]); if (i == 2) r.shard(); }
        reset();
        int id[2] = {alloc(0), alloc(0)};
        int prevMax = std::max(id[0], id[1]);
        Model m;
        double next = 10;
        for (int w = 0; w < 2; w++) { setMesh2(id[w], grid(1, 1, 5, 5, 3 + w, 0)); m.push(w, {0, 3.0 + w}); }
        std::string key;
        auto verify = [&](const std::string& what)
        {
            int c = -1, q = -1;
            r.check(api::mkernel_undo_state_count(c, q) == 0, "count-rc:" + what, "undo_state_count failed");
            r.check(c == (int)m.done.size() && q == (int)m.undone.size(), "count:" + what, fmt("history counts (%d,%d), expected (%zu,%zu)", c, q, m.done.size(), m.undone.size()));
            for (int w = 0; w < 2; w++)
            {
                int ec = 0, eq = 0; for (auto& a : m.done) ec += a.who == w; for (auto& a : m.undone) eq += a.who == w;
                r.check(api::mkernel_undo_state_count_for_id(id[w], c, q) == 0 && c == ec && q == eq, "count-id:" + what, fmt("history counts of state %d are (%d,%d), expected (%d,%d)", w, c, q, ec, eq));
                double a = read1(id[w]), b = read2(id[w]);
                r.check(a == m.v[w].one && b == m.v[w].two, "value:" + what, fmt("state %c holds (%g,%g), expected (%g,%g)", 'A' + w, a, b, m.v[w].one, m.v[w].two));
            }
            mc::Hash h; h.i(m.cap); for (auto& a : m.done) { h.i(a.who); h.d(a.after.one); h.d(a.after.two); } h.i(-1); for (auto& a : m.undone) { h.i(a.who); h.d(a.after.one); h.d(a.after.two); } r.state(h.h);
        };
        for (int k : seq)
        {
            key += std::string(names[k]) + ";"; r.note(names[k]); r.step();
            next += 1;
            switch (k)
            {
            case 0: case 1: set1(id[k], next); m.push(k, {next, m.v[k].two}); break;
            case 2: case 13:
            {
                int w = k == 13;
                int rc = api::mkernel_mesh2d_move_node(id[w], next, 0, 0);
                if (m.v[w].two == 0) { r.check(rc != 0, "move-empty:" + key, "moving a node of an empty mesh succeeded"); break; }
                r.check(rc == 0, "move:" + key, "move failed: " + lastError());
                m.push(w, {m.v[w].one, next}); break;
            }
            case 3:
            {
                bool u = true; int x = -5; int rc = api::mkernel_undo_state(u, x);
                r.check(rc == 0, "undo-rc:" + key, "undo failed: " + lastError());
                r.check(u == !m.done.empty(), "undo-flag:" + key, fmt("undo reports %d with %zu undoable actions", (int)u, m.done.size()));
                if (!m.done.empty()) { Act a = m.done.back(); m.done.pop_back(); r.check(x == id[a.who], "undo-id:" + key, fmt("undo reports state id %d, expected %d", x, id[a.who])); m.v[a.who] = a.before; m.undone.push_back(a); }
                break;
            }
            case 4:
            {
                bool u = true; int x = -5; int rc = api::mkernel_redo_state(u, x);
                r.check(rc == 0, "redo-rc:" + key, "redo failed: " + lastError());
                r.check(u == !m.undone.empty(), "redo-flag:" + key, fmt("redo reports %d with %zu redoable actions", (int)u, m.undone.size()));
                if (!m.undone.empty()) { Act a = m.undone.back(); m.undone.pop_back(); r.check(x == id[a.who], "redo-id:" + key, fmt("redo reports state id %d, expected %d", x, id[a.who])); m.v[a.who] = a.after; m.done.push_back(a); if ((int)m.done.size() > m.cap) m.done.pop_front(); }
                break;
            }
            case 5: case 6: case 9: case 14:
            {
                int n = k == 5 ? 2 : k == 6 ? 1 : k == 9 ? 0 : 3;
                r.check(api::mkernel_set_undo_size(n) == 0, "size-rc:" + key, "set_undo_size failed");
                m.cap = n; if (n == 0) { m.done.clear(); m.undone.clear(); } while ((int)m.done.size() > n) m.done.pop_front();
                break;
            }
            case 7: r.check(api::mkernel_mesh2d_delete_node(id[0], -1) != 0, "reject:" + key, "delete_node(-1) accepted"); break;
            case 8: r.check(api::mkernel_clear_undo_state_for_id(id[0]) == 0, "clear-rc:" + key, "clear_undo_state_for_id failed");
                m.done.erase(std::remove_if(m.done.begin(), m.done.end(), [](auto& a) { return a.who == 0; }), m.done.end());
                m.undone.erase(std::remove_if(m.undone.begin(), m.undone.end(), [](auto& a) { return a.who == 0; }), m.undone.end()); break;
            case 10: r.check(api::mkernel_clear_undo_state() == 0, "clear-rc:" + key, "clear_undo_state failed"); m.done.clear(); m.undone.clear(); break;
            case 11: r.check(api::mkernel_deallocate_state(id[0]) == 0, "dealloc-rc:" + key, "deallocate_state failed"); m.push(0, {0, 0}); break;
            case 12:
            {
                r.check(api::mkernel_expunge_state(id[1]) == 0, "expunge-rc:" + key, "expunge_state failed");
                m.done.erase(std::remove_if(m.done.begin(), m.done.end(), [](auto& a) { return a.who == 1; }), m.done.end());
                m.undone.erase(std::remove_if(m.undone.begin(), m.undone.end(), [](auto& a) { return a.who == 1; }), m.undone.end());
                int c = -1, q = -1; api::mkernel_undo_state_count_for_id(id[1], c, q);
                r.check(c == 0 && q == 0, "expunge-count:" + key, fmt("an expunged state still has history (%d,%d)", c, q));
                bool ok = true; api::mkernel_is_valid_state(id[1], ok); r.check(!ok, "expunge-valid:" + key, "an expunged state is still valid");
                id[1] = alloc(0); r.check(id[1] > prevMax, "id-reuse:" + key, fmt("new state got id %d although %d was handed out before", id[1], prevMax)); prevMax = id[1];
                m.v[1] = {0, 0}; break;
            }
            case 15: r.check(api::mkernel_set_undo_size(-1) != 0, "size-neg:" + key, "negative undo size accepted"); break;
            }
            verify(key);
        }
    }
}
MC_MAIN(body)
