// Stateless exhaustive explorer: a body draws every nondeterministic decision from Run::choose and the
// explorer enumerates ALL choice sequences in lexicographic order (odometer DFS), replaying the body from
// a fresh API state for each one. No sampling, no pruning unless the body itself declares Skip.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <sstream>
#include <iomanip>
#include <exception>

namespace mc
{
    struct Skip {};      // outside this shard / not a meaningful case
    struct Violated {};  // stop this run after a violation

    inline std::string fmt(const char* f, ...)
    {
        char b[4096];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }

    struct Hash
    {
        uint64_t h = 1469598103934665603ull;
        void bytes(const void* p, size_t n)
        {
            auto c = (const unsigned char*)p;
            for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
        }
        void i(int64_t v) { bytes(&v, sizeof v); }
        void d(double v) { if (v == 0) v = 0; bytes(&v, sizeof v); }
        void s(const std::string& v) { bytes(v.data(), v.size()); i((int64_t)v.size()); }
        template <class T> void vi(const std::vector<T>& v) { i((int64_t)v.size()); for (auto x : v) i((int64_t)x); }
        void vd(const std::vector<double>& v) { i((int64_t)v.size()); for (auto x : v) d(x); }
    };

    struct Progress
    {
        volatile uint64_t counter;
        volatile uint64_t len;
        char text[16384];
    };

    struct Viol { std::string choices, key, msg, trace; };

    class Run;
    struct Config
    {
        int shard = 0, nshards = 1;
        bool thorough = false;
        bool replay = false;
        std::vector<int> start;
        bool haveStart = false;
        double timeCap = 1e9;
        std::string out, progress;
    };

    class Run
    {
    public:
        const Config* cfg = nullptr;
        std::vector<int> prefix;
        std::vector<int> c, n;
        std::vector<std::string> notes;
        bool tracing = false;
        Progress* prog = nullptr;
        std::vector<Viol>* viols = nullptr;
        std::unordered_set<uint64_t>* states = nullptr;
        std::unordered_set<uint64_t>* outcomes = nullptr;
        uint64_t transitions = 0, checks = 0, validated = 0;
        bool sharded = false;

        bool thorough() const { return cfg->thorough; }
        int choose(int k, const char* label = "")
        {
            if (k <= 0) throw Skip{};
            size_t i = c.size();
            int v = i < prefix.size() ? prefix[i] : 0;
            if (v >= k) { fprintf(stderr, "replay divergence at choice %zu (%s): %d of %d\n", i, label, v, k); _exit(97); }
            c.push_back(v);
            n.push_back(k);
            if (prog) publish();
            if (tracing) notes.push_back(fmt("choose %s = %d/%d", label, v, k));
            return v;
        }
        bool flag(const char* label = "") { return choose(2, label) == 1; }
        template <class T> const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose((int)v.size(), label)]; }
        void publish()
        {
            // only the case vector is published; the driver uses it after a crash or hang
            char* p = prog->text;
            size_t o = 0;
            for (size_t i = 0; i < c.size(); i++) { if (o + 32 > sizeof(prog->text)) break; o += sprintf(p + o, "%d:%d.", c[i], n[i]); }
            prog->len = o;
        }
        // Everything before this call decides which shard runs the case.
        void shard()
        {
            if (sharded) return;
            sharded = true;
            if (cfg->replay) return;
            Hash h;
            for (int v : c) h.i(v);
            uint64_t x = h.h; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33;
            if ((int)(x % (uint64_t)cfg->nshards) != cfg->shard) throw Skip{};
        }
        void note(const std::string& s) { notes.push_back(s); }
        void state(uint64_t h) { if (states->size() < 3000000) states->insert(h); }
        void outcome(uint64_t h) { if (outcomes->size() < 3000000) outcomes->insert(h); }
        void step() { transitions++; }
        std::string choices() const
        {
            std::string s;
            for (int v : c) { s += std::to_string(v); s += '.'; }
            return s;
        }
        // key: what identifies the failing call/history for the known-findings file
        [[noreturn]] void fail(const std::string& key, const std::string& msg)
        {
            std::string t;
            for (auto& s : notes) { t += s; t += '\n'; }
            if (viols->size() < 200)
            {
                viols->push_back({choices(), key, msg, t});
                // kept next to the result, so that a later crash of this shard does not hide it
                if (!cfg->out.empty() && !cfg->replay) if (FILE* f = fopen((cfg->out + ".viol").c_str(), "a")) { fprintf(f, "%s\t%s\n", choices().c_str(), key.c_str()); fclose(f); }
            }
            throw Violated{};
        }
        void check(bool ok, const std::string& key, const std::string& msg)
        {
            checks++;
            if (!ok) fail(key, msg);
        }
        template <class F> void checkf(bool ok, const std::string& key, F&& f)
        {
            checks++;
            if (!ok) fail(key, f());
        }
    };

    using Body = std::function<void(Run&)>;

    inline std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
            else o += (char)ch;
        }
        return o;
    }

    inline int main(int argc, char** argv, const Body& body)
    {
        Config cfg;
        std::string startStr;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            auto nx = [&]() { return std::string(argv[++i]); };
            if (a == "--shard") cfg.shard = atoi(nx().c_str());
            else if (a == "--nshards") cfg.nshards = atoi(nx().c_str());
            else if (a == "--thorough") cfg.thorough = true;
            else if (a == "--start") { startStr = nx(); cfg.haveStart = true; }
            else if (a == "--replay") { startStr = nx(); cfg.replay = true; }
            else if (a == "--out") cfg.out = nx();
            else if (a == "--progress") cfg.progress = nx();
            else if (a == "--time") cfg.timeCap = atof(nx().c_str());
        }
        { std::stringstream ss(startStr); std::string t; while (std::getline(ss, t, '.')) if (!t.empty()) cfg.start.push_back(atoi(t.c_str())); }
        Progress* prog = nullptr;
        if (!cfg.progress.empty())
        {
            int fd = open(cfg.progress.c_str(), O_RDWR | O_CREAT, 0644);
            if (ftruncate(fd, sizeof(Progress))) return 98;
            prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        }
        std::vector<Viol> viols;
        std::unordered_set<uint64_t> states, outcomes;
        uint64_t cases = 0, skipped = 0, transitions = 0, checks = 0, validated = 0;
        std::vector<std::string> samples;
        std::vector<int> prefix;
        bool capped = false, done = false;
        auto t0 = std::chrono::steady_clock::now();
        auto advance = [&](std::vector<int>& c, std::vector<int>& n)
        {
            while (!c.empty() && c.back() + 1 >= n.back()) { c.pop_back(); n.pop_back(); }
            if (c.empty()) return false;
            c.back()++;
            return true;
        };
        if (cfg.replay) prefix = cfg.start;
        if (cfg.haveStart) prefix = cfg.start;
        while (!done)
        {
            Run r;
            r.cfg = &cfg; r.prefix = prefix; r.prog = prog; r.viols = &viols; r.states = &states; r.outcomes = &outcomes;
            r.tracing = cfg.replay;
            if (prog) prog->counter = prog->counter + 1;
            bool ran = true;
            try { body(r); }
            catch (const Skip&) { ran = false; }
            catch (const Violated&) {}
            catch (const std::exception& e)
            {
                std::string t; for (auto& s : r.notes) { t += s; t += '\n'; }
                viols.push_back({r.choices(), "escaped-exception", std::string("exception escaped: ") + e.what(), t});
            }
            catch (...)
            {
                std::string t; for (auto& s : r.notes) { t += s; t += '\n'; }
                viols.push_back({r.choices(), "escaped-exception", "unknown exception escaped", t});
            }
            if (ran) { cases++; } else skipped++;
            transitions += r.transitions; checks += r.checks; validated += r.validated;
            if (ran && !cfg.replay)
            {
                if (cases == 1 || cases == 1000 || cases == 20000)
                {
                    std::string s = "choices " + r.choices();
                    for (auto& t : r.notes) { s += " | "; s += t; if (s.size() > 1500) break; }
                    samples.push_back(s);
                }
            }
            if (cfg.replay)
            {
                for (auto& s : r.notes) printf("  %s\n", s.c_str());
                break;
            }
            if (viols.size() >= 200) { capped = true; break; }
            auto c = r.c, n = r.n;
            // a prefix longer than what was consumed would loop forever
            done = !advance(c, n);
            prefix = c;
            if ((cases + skipped) % 64 == 0)
            {
                double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
                if (el > cfg.timeCap) { capped = true; break; }
            }
        }
        std::string js = "{";
        js += fmt("\"cases\":%llu,\"skipped\":%llu,\"transitions\":%llu,\"checks\":%llu,\"validated\":%llu,\"states\":%llu,\"outcomes\":%llu,\"capped\":%s,",
                  (unsigned long long)cases, (unsigned long long)skipped, (unsigned long long)transitions, (unsigned long long)checks,
                  (unsigned long long)validated, (unsigned long long)states.size(), (unsigned long long)outcomes.size(), capped ? "true" : "false");
        js += "\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) js += (i ? ",\"" : "\"") + jesc(samples[i]) + "\"";
        js += "],\"violations\":[";
        for (size_t i = 0; i < viols.size(); i++)
            js += std::string(i ? "," : "") + "{\"choices\":\"" + viols[i].choices + "\",\"key\":\"" + jesc(viols[i].key) + "\",\"msg\":\"" + jesc(viols[i].msg) + "\",\"trace\":\"" + jesc(viols[i].trace) + "\"}";
        js += "]}";
        if (!cfg.out.empty())
        {
            FILE* f = fopen((cfg.out + ".tmp").c_str(), "w");
            fputs(js.c_str(), f);
            fclose(f);
            f = fopen((cfg.out + ".states").c_str(), "wb");
            for (auto h : states) fwrite(&h, 8, 1, f);
            fclose(f);
            f = fopen((cfg.out + ".outcomes").c_str(), "wb");
            for (auto h : outcomes) fwrite(&h, 8, 1, f);
            fclose(f);
            rename((cfg.out + ".tmp").c_str(), cfg.out.c_str());
        }
        if (cfg.replay)
        {
            for (auto& v : viols) printf("FAIL key=%s\n%s\n", v.key.c_str(), v.msg.c_str());
            if (viols.empty()) printf("PASS\n");
        }
        fflush(stdout);
        // skip global destructors of the library: irrelevant to the property and they may take long
        _exit(viols.empty() ? 0 : 3);
    }
}
#define MC_MAIN(BODY) int main(int argc, char** argv) { return mc::main(argc, argv, BODY); }
