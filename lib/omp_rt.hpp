// A deterministic OpenMP run time for exploring the parallel loops of the library: the members of a team are fibers of one
// thread, the order in which they run is chosen by the explorer, and every memory access of the library (compiled with
// thread-sanitizer instrumentation, whose hooks are defined here) is recorded per member. Two accesses of different members
// to the same byte, one of them a write, without a barrier in between and not both atomic or inside a critical section, is a
// conflict. Without conflicts all interleavings of a region are equivalent to any serial order of its members.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <ucontext.h>
#include <sys/mman.h>

namespace omprt
{
    struct Mask { uint8_t r = 0, w = 0, cr = 0, cw = 0; };
    using Set = std::unordered_map<uintptr_t, Mask>;
    constexpr size_t STACK = 1 << 20;
    constexpr int MAXT = 8;
    struct Fiber { ucontext_t c; char* stack = nullptr; bool done = true, atBarrier = false; Set set; long iter = 0; };
    inline Fiber F[MAXT];
    inline ucontext_t mainc;
    inline int team = 1;             // threads per region
    inline std::vector<int> order;   // who goes first
    inline bool spread = false;      // dynamic chunks: switch after each chunk
    inline int cur = -1, size_ = 1;  // running member, size of the active team
    inline int crit = 0;
    inline bool quiet = false;
    inline unsigned long long regions = 0, accesses = 0, conflicts = 0, switches = 0;
    inline std::string report;
    inline std::vector<void*> deferred;
    inline void (*fn)(void*); inline void* data;
    struct Loop { long next = 0, end = 0, incr = 1, chunk = 1; bool set = false; int left = 0; } inline loop;

    extern "C" void __real_free(void*);
    inline void record(uintptr_t a, size_t n, bool w, bool at)
    {
        char* p = (char*)a; if (p >= F[cur].stack && p < F[cur].stack + STACK) return;
        char* tp = (char*)__builtin_thread_pointer(); if (p < tp && p >= tp - 65536) return;
        quiet = true; accesses++;
        while (n)
        {
            uintptr_t g = a & ~uintptr_t(7); int o = a - g; size_t k = std::min<size_t>(n, 8 - o); uint8_t m = uint8_t(((1u << k) - 1) << o);
            Mask& x = F[cur].set[g]; if (at || crit) (w ? x.cw : x.cr) |= m; else (w ? x.w : x.r) |= m;
            a += k; n -= k;
        }
        quiet = false;
    }
    inline void hit(const void* p, size_t n, bool w, bool at = false) { if (__builtin_expect(cur >= 0 && !quiet && n, 0)) record((uintptr_t)p, n, w, at); }
    inline void judge()
    {
        quiet = true;
        for (int i = 0; i < size_; i++) for (int j = i + 1; j < size_; j++)
        {
            const Set &A = F[i].set.size() < F[j].set.size() ? F[i].set : F[j].set, &B = &A == &F[i].set ? F[j].set : F[i].set;
            for (auto& [g, x] : A) { auto it = B.find(g); if (it == B.end()) continue; auto& y = it->second; uint8_t xa = x.r | x.w | x.cr | x.cw, ya = y.r | y.w | y.cr | y.cw, c = (x.w & ya) | (y.w & xa) | (x.cw & (y.r | y.w)) | (y.cw & (x.r | x.w)); if (c) { conflicts++; if (report.empty()) { char t[200]; snprintf(t, sizeof t, "members %d and %d of a team of %d use the same memory in a parallel loop, at least one of them writes", i, j, size_); report = t; } } }
        }
        for (int i = 0; i < size_; i++) F[i].set.clear();
        quiet = false;
    }
    inline void yieldTo() { int me = cur; switches++; swapcontext(&F[me].c, &mainc); }
    inline void entry() { fn(data); F[cur].done = true; int me = cur; swapcontext(&F[me].c, &mainc); }
    inline void parallel(void (*f)(void*), void* d, unsigned want)
    {
        if (cur >= 0 || team <= 1) { int oc = size_; if (cur < 0) size_ = 1; f(d); size_ = oc; return; }
        (void)want; regions++; fn = f; data = d; size_ = team;
        for (int i = 0; i < size_; i++)
        {
            if (!F[i].stack) F[i].stack = (char*)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            getcontext(&F[i].c); F[i].c.uc_stack.ss_sp = F[i].stack; F[i].c.uc_stack.ss_size = STACK; F[i].c.uc_link = nullptr; makecontext(&F[i].c, entry, 0); F[i].done = F[i].atBarrier = false; F[i].set.clear();
        }
        int live = size_, pos = 0;
        while (live)
        {
            int k = -1; for (int t = 0; t < size_; t++) { int c = order[(pos + t) % size_] % size_; if (!F[c].done && !F[c].atBarrier) { k = c; pos = (pos + t) % size_; break; } }
            if (k < 0) { judge(); for (int i = 0; i < size_; i++) F[i].atBarrier = false; pos = 0; continue; }
            cur = k; swapcontext(&mainc, &F[k].c); cur = -1; if (F[k].done) live--; else if (spread) pos = (pos + 1) % size_;
        }
        judge(); size_ = 1; loop = {}; for (void* p : deferred) __real_free(p); deferred.clear();
    }
    inline bool next(long* s, long* e)
    {
        if (cur >= 0 && spread) yieldTo();
        if (loop.incr > 0 ? loop.next >= loop.end : loop.next <= loop.end) return false;
        long c = loop.chunk < 1 ? 1 : loop.chunk; *s = loop.next; *e = loop.next + c * loop.incr; if (loop.incr > 0 ? *e > loop.end : *e < loop.end) *e = loop.end; loop.next = *e; return true;
    }
    inline void init(long s, long e, long i, long c) { if (!loop.set) { loop.next = s; loop.end = e; loop.incr = i; loop.chunk = c; loop.set = true; loop.left = size_; } }
    inline void barrier() { if (cur >= 0) { F[cur].atBarrier = true; yieldTo(); } }
    inline void loopEnd() { if (--loop.left <= 0) loop.set = false; }
}

extern "C"
{
    using namespace omprt;
    int omp_get_num_threads() noexcept { return cur >= 0 ? size_ : 1; }
    int omp_get_thread_num() noexcept { return cur >= 0 ? cur : 0; }
    int omp_get_max_threads() noexcept { return team; }
    int omp_get_num_procs() noexcept { return team; }
    int omp_in_parallel() noexcept { return cur >= 0; }
    void omp_set_num_threads(int) noexcept {}
    double omp_get_wtime() noexcept { return 0; }
    void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned) { parallel(f, d, n); }
#define LOOPP(name) void GOMP_parallel_loop_##name(void (*f)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { loop = {}; int t = cur >= 0 || team <= 1 ? 1 : team; loop.next = s; loop.end = e; loop.incr = i; loop.chunk = c; loop.set = true; loop.left = t; parallel(f, d, n); loop = {}; }
#define LOOPR(name) void GOMP_parallel_loop_##name(void (*f)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { loop = {}; int t = cur >= 0 || team <= 1 ? 1 : team; loop.next = s; loop.end = e; loop.incr = i; loop.chunk = 1; loop.set = true; loop.left = t; parallel(f, d, n); loop = {}; }
    LOOPP(static) LOOPP(dynamic) LOOPP(guided) LOOPP(nonmonotonic_dynamic) LOOPP(nonmonotonic_guided)
    LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
#define LOOPS(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { init(s, e, i, c); return next(a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }
    LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPQ(name) bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { init(s, e, i, 1); return next(a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); }
    LOOPQ(runtime) LOOPQ(nonmonotonic_runtime) LOOPQ(maybe_nonmonotonic_runtime)
    void GOMP_loop_end() { loopEnd(); barrier(); }
    void GOMP_loop_end_nowait() { loopEnd(); }
    bool GOMP_loop_end_cancel() { loopEnd(); barrier(); return false; }
    void GOMP_barrier() { barrier(); }
    bool GOMP_single_start() { return cur <= 0; }
    void GOMP_critical_start() { crit++; }
    void GOMP_critical_end() { crit--; }
    void GOMP_critical_name_start(void**) { crit++; }
    void GOMP_critical_name_end(void**) { crit--; }
    void GOMP_atomic_start() { crit++; }
    void GOMP_atomic_end() { crit--; }

    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { hit(p, n, false); } void __tsan_write##n(void* p) { hit(p, n, true); } void __tsan_unaligned_read##n(void* p) { hit(p, n, false); } void __tsan_unaligned_write##n(void* p) { hit(p, n, true); } \
    void __tsan_volatile_read##n(void* p) { hit(p, n, false); } void __tsan_volatile_write##n(void* p) { hit(p, n, true); } void __tsan_unaligned_volatile_read##n(void* p) { hit(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { hit(p, n, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { hit(p, n, false); }
    void __tsan_write_range(void* p, unsigned long n) { hit(p, n, true); }
    void __tsan_vptr_update(void** p, void*) { hit(p, 8, true); }
    void __tsan_vptr_read(void** p) { hit(p, 8, false); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* a, int) { hit((void*)a, sizeof(T), false, true); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { hit((void*)a, sizeof(T), true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { hit((void*)a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { hit((void*)a, sizeof(T), true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) {}
    void __tsan_atomic_signal_fence(int) {}

    void* __real_memcpy(void*, const void*, size_t);
    void* __real_memmove(void*, const void*, size_t);
    void* __real_memset(void*, int, size_t);
    void* __wrap_memcpy(void* d, const void* s, size_t n) { hit(s, n, false); hit(d, n, true); return __real_memcpy(d, s, n); }
    void* __wrap_memmove(void* d, const void* s, size_t n) { hit(s, n, false); hit(d, n, true); return __real_memmove(d, s, n); }
    void* __wrap_memset(void* d, int c, size_t n) { hit(d, n, true); return __real_memset(d, c, n); }
    void __wrap_free(void* p) { if (cur >= 0 && !quiet && p) { quiet = true; deferred.push_back(p); quiet = false; } else __real_free(p); }
    int __real_pthread_mutex_lock(void*);
    int __real_pthread_mutex_unlock(void*);
    int __wrap_pthread_mutex_lock(void* m) { crit++; return __real_pthread_mutex_lock(m); }
    int __wrap_pthread_mutex_unlock(void* m) { crit--; return __real_pthread_mutex_unlock(m); }
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
