// Race detector: the run-time half of -fsanitize=thread. Every memory access and atomic operation of the instrumented code (library
// headers, asio, libstdc++ templates, worlds) arrives here; happens-before is kept with vector clocks over the synchronisation the
// simulator implements (mutexes, threads, once, guards, descriptors) and over C++ atomics and fences. Two conflicting accesses that
// are not ordered are a violation whatever order this run happened to execute them in. Each access may also be a scheduling point.
// Not recorded: environment threads and NoPreempt sections (harness bookkeeping).
#include "core.h"
#include <sys/mman.h>
#include <malloc.h>
#include <pthread.h>
#include <cxxabi.h>
#include <atomic>
using namespace sim; using namespace sim::detail;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;

namespace {
constexpr int MAXT = 256, NE = 6;
char* g_cur; char* g_end;
void* arena(size_t n)
{
    n = (n + 15) & ~(size_t)15;
    if (!g_cur || g_cur + n > g_end) { size_t k = 8u << 20; g_cur = (char*)mmap(nullptr, k, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_end = g_cur + k; }
    void* p = g_cur; g_cur += n; return p;
}
struct Clock { u32 c[MAXT]; };
int g_nt = 1;
void join(Clock& a, const Clock& b) { for (int i = 0; i < g_nt; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
struct Sync { uintptr_t addr; Sync* next; Clock c; };
struct Acc { u16 tid; u8 mask, fl; u32 clk; void* pc; void* pc2; }; // fl: 1 write, 2 atomic, 4 free
struct Cell { Sync* sync; u8 n; Acc a[NE]; };
struct Block { uintptr_t key; Block* next; Cell cell[64]; };       // 512 bytes of memory
constexpr size_t HB = 1 << 14;
Block* g_tab[HB];
struct TS { Clock c, pend, fence; bool started; void* st[64]; int d; };
TS* g_ts[MAXT];
Clock g_harness; bool g_off;
u64 g_checked;

size_t hs(uintptr_t k) { return (size_t)((k * 0x9e3779b97f4a7c15ull) >> 50); }
Block* find(uintptr_t a, bool make)
{
    uintptr_t k = a >> 9; Block** h = &g_tab[hs(k)];
    for (Block* b = *h; b; b = b->next) if (b->key == k) return b;
    if (!make) return nullptr;
    Block* b = (Block*)arena(sizeof(Block)); b->key = k; b->next = *h; *h = b; return b;
}
TS& ts(int t)
{
    if (!g_ts[t]) { g_ts[t] = (TS*)arena(sizeof(TS)); g_ts[t]->c.c[t] = 1; if (t >= g_nt) g_nt = t + 1; }
    return *g_ts[t];
}
Sync* sync_at(const void* p, bool make)
{
    Block* b = find((uintptr_t)p, make); if (!b) return nullptr;
    Cell& c = b->cell[((uintptr_t)p >> 3) & 63];
    for (Sync* s = c.sync; s; s = s->next) if (s->addr == (uintptr_t)p) return s;
    if (!make) return nullptr;
    Sync* s = (Sync*)arena(sizeof(Sync)); s->addr = (uintptr_t)p; s->next = c.sync; c.sync = s; return s;
}
bool usable(int t) { if (t >= MAXT) { if (!g_off) { g_off = true; probe("race_detection_off"); } } return !g_off; }
void do_acquire(int t, const void* o) { if (!usable(t)) return; if (Sync* s = sync_at(o, false)) join(ts(t).c, s->c); }
void do_release(int t, const void* o) { if (!usable(t)) return; TS& x = ts(t); join(sync_at(o, true)->c, x.c); x.c.c[t]++; }
void do_fork(int p, int ch) { if (!usable(ch) || !usable(p)) return; TS& a = ts(p); join(ts(ch).c, a.c); a.c.c[p]++; }
void do_join(int, int) {}
// harness synchronisation: what happened before a NoPreempt section of a program thread is known to threads the harness starts or wakes later
void do_harness_release(int t) { if (!usable(t)) return; TS& x = ts(t); join(g_harness, x.c); x.c.c[t]++; }
void do_harness_acquire(int t) { if (!usable(t)) return; join(ts(t).c, g_harness); }
void clear(uintptr_t a, size_t n)
{
    for (uintptr_t k = a >> 9; k <= (a + n - 1) >> 9; ++k)
    {
        Block* b = find(k << 9, false); if (!b) continue;
        uintptr_t lo = k << 9 > a ? k << 9 : a, hi = ((k + 1) << 9) < a + n ? (k + 1) << 9 : a + n;
        for (uintptr_t p = lo & ~(uintptr_t)7; p < hi; p += 8) { Cell& c = b->cell[(p >> 3) & 63]; c.n = 0; c.sync = nullptr; }
    }
}
void do_start(int t)
{
    if (!usable(t)) return;
    ts(t).started = true;
    pthread_attr_t at; if (pthread_getattr_np(pthread_self(), &at)) return;
    void* sp; size_t sz; pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at);
    uintptr_t lo = (uintptr_t)sp, hi = lo + sz; // whatever used this stack before is gone
    for (auto& h : g_tab) for (Block* b = h; b; b = b->next) if (b->key << 9 >= lo && b->key << 9 < hi) for (auto& c : b->cell) { c.n = 0; c.sync = nullptr; }
}
std::string where(void* pc)
{
    if (!pc) return "?";
    Dl_info i{}; char buf[64]; pc = (char*)pc - 1;
    if (!dladdr(pc, &i) || !i.dli_fbase) { snprintf(buf, sizeof buf, "%p", pc); return buf; }
    std::string f = i.dli_fname ? i.dli_fname : "?"; f = f.substr(f.rfind('/') + 1);
    snprintf(buf, sizeof buf, "+0x%lx", (unsigned long)((char*)pc - (char*)i.dli_fbase)); return f + buf;
}
[[noreturn]] void race(TS& me, int tid, uintptr_t a, const Acc& old, bool w, bool at, bool fr, void* pc)
{
    Thread* t = sim::detail::self; t->in_core++;
    std::string s = std::string(fr ? "deallocation" : at ? (w ? "atomic write" : "atomic read") : w ? "write" : "read") + " by thread " + std::to_string(tid) + " (" + t->name + ") at " + where(pc);
    for (int i = me.d - 1, k = 0; i >= 0 && k < 5; --i, ++k) s += " < " + where(me.st[i & 63]);
    s += " is not ordered with the " + std::string(old.fl & 4 ? "deallocation" : old.fl & 2 ? "atomic " : "") + (old.fl & 4 ? "" : old.fl & 1 ? "write" : "read") + " by thread " + std::to_string(old.tid) + " (" + threads[old.tid]->name + ") at " + where(old.pc) + " < " + where(old.pc2);
    (void)a;
    violation("C04", "data-race", s);
}
void check_cell(TS& me, int tid, Cell& c, uintptr_t a, u8 mask, bool w, bool at, bool fr, void* pc, void* pc2)
{
    const u8 fl = (u8)((w ? 1 : 0) | (at ? 2 : 0)); int k = 0;
    for (int i = 0; i < c.n; ++i)
    {
        Acc& e = c.a[i]; bool before = e.tid == tid || e.clk <= me.c.c[e.tid];
        if (!before && (e.mask & mask) && (w || (e.fl & 1)) && !(at && (e.fl & 2))) race(me, tid, a, e, w, at, fr, pc);
        bool covered = before && !(e.mask & ~mask) && (w ? true : (e.tid == tid && !(e.fl & 1))) && (!at || (e.fl & 2));
        if (!covered) { if (k != i) c.a[k] = e; ++k; }
    }
    if (k == NE) { for (int i = 1; i < NE; ++i) c.a[i - 1] = c.a[i]; k = NE - 1; }
    c.a[k] = Acc{ (u16)tid, mask, fl, me.c.c[tid], pc, pc2 }; c.n = (u8)(k + 1);
}
inline bool syncing() { Thread* t = sim::detail::self; return t && !t->in_core && !t->env && !g_off && hb_acquire && usable(t->id); }
inline bool recording() { Thread* t = sim::detail::self; return t && !t->in_core && !t->env && !t->nopreempt && !g_off && hb_acquire; }
void access(uintptr_t a, size_t n, bool w, bool at, void* pc)
{
    int tid = sim::detail::self->id; if (!usable(tid)) return;
    TS& me = ts(tid); g_checked++; void* pc2 = me.d ? me.st[(me.d - 1) & 63] : nullptr;
    while (n)
    {
        size_t off = a & 7, m = 8 - off < n ? 8 - off : n; u8 mask = (u8)(((1u << m) - 1) << off);
        Block* b = find(a, true); check_cell(me, tid, b->cell[(a >> 3) & 63], a, mask, w, at, false, pc, pc2);
        a += m; n -= m;
    }
}
void freed(void* p)
{
    size_t n = malloc_usable_size(p); if (!n) return;
    if (recording() && usable(sim::detail::self->id))
    {
        int tid = sim::detail::self->id; TS& me = ts(tid); uintptr_t a = (uintptr_t)p;
        for (uintptr_t q = a & ~(uintptr_t)7; q < a + n; q += 8) if (Block* b = find(q, false))
        {
            Cell& c = b->cell[(q >> 3) & 63];
            for (int i = 0; i < c.n; ++i) { Acc& e = c.a[i]; if (e.tid != tid && e.clk > me.c.c[e.tid]) race(me, tid, q, e, true, false, true, __builtin_return_address(0)); }
        }
        else q = (q | 511) - 7;
    }
    clear((uintptr_t)p, n);
}
inline void tick() { block_tick(); }
struct Init { Init() { hb_acquire = do_acquire; hb_release = do_release; hb_fork = do_fork; hb_join = do_join; hb_start = do_start; hb_harness_release = do_harness_release; hb_harness_acquire = do_harness_acquire; hb_end = [] { stat_add("memory_accesses_checked", g_checked); }; } } g_init;

// atomics
bool acq_order(int o) { return o == __ATOMIC_ACQUIRE || o == __ATOMIC_CONSUME || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
bool rel_order(int o) { return o == __ATOMIC_RELEASE || o == __ATOMIC_ACQ_REL || o == __ATOMIC_SEQ_CST; }
void a_load(const volatile void* p, size_t n, int o, void* pc)
{
    tick(); if (!syncing()) return;
    int t = sim::detail::self->id; if (recording()) access((uintptr_t)p, n, false, true, pc);
    if (Sync* s = sync_at((const void*)p, false)) { TS& x = ts(t); if (acq_order(o)) join(x.c, s->c); else join(x.pend, s->c); }
}
void a_store(volatile void* p, size_t n, int o, bool rmw, void* pc)
{
    if (!syncing()) return;
    int t = sim::detail::self->id; if (recording()) access((uintptr_t)p, n, true, true, pc);
    TS& x = ts(t); Sync* s = sync_at((const void*)p, true);
    if (rmw) { if (acq_order(o)) join(x.c, s->c); else join(x.pend, s->c); }
    else memset(&s->c, 0, sizeof(u32) * (size_t)g_nt); // a plain store starts a new release sequence
    if (rel_order(o)) { join(s->c, x.c); x.c.c[t]++; } else join(s->c, x.fence);
}
} // namespace

#define RA __builtin_return_address(0)
#define ACC(N, NAME, W_) void NAME(void* p) { tick(); if (recording()) access((uintptr_t)p, N, W_, false, RA); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { Thread* t = sim::detail::self; if (t && !t->env && t->id < MAXT && hb_acquire) { TS& x = ts(t->id); x.st[x.d & 63] = pc; x.d++; } }
void __tsan_func_exit() { Thread* t = sim::detail::self; if (t && !t->env && t->id < MAXT && hb_acquire) { TS& x = ts(t->id); if (x.d) x.d--; } }
ACC(1, __tsan_read1, false) ACC(2, __tsan_read2, false) ACC(4, __tsan_read4, false) ACC(8, __tsan_read8, false) ACC(16, __tsan_read16, false)
ACC(1, __tsan_write1, true) ACC(2, __tsan_write2, true) ACC(4, __tsan_write4, true) ACC(8, __tsan_write8, true) ACC(16, __tsan_write16, true)
ACC(2, __tsan_unaligned_read2, false) ACC(4, __tsan_unaligned_read4, false) ACC(8, __tsan_unaligned_read8, false) ACC(16, __tsan_unaligned_read16, false)
ACC(2, __tsan_unaligned_write2, true) ACC(4, __tsan_unaligned_write4, true) ACC(8, __tsan_unaligned_write8, true) ACC(16, __tsan_unaligned_write16, true)
ACC(1, __tsan_volatile_read1, false) ACC(2, __tsan_volatile_read2, false) ACC(4, __tsan_volatile_read4, false) ACC(8, __tsan_volatile_read8, false) ACC(16, __tsan_volatile_read16, false)
ACC(1, __tsan_volatile_write1, true) ACC(2, __tsan_volatile_write2, true) ACC(4, __tsan_volatile_write4, true) ACC(8, __tsan_volatile_write8, true) ACC(16, __tsan_volatile_write16, true)
void __tsan_read_range(void* p, size_t n) { tick(); if (n && recording()) access((uintptr_t)p, n, false, false, RA); }
void __tsan_write_range(void* p, size_t n) { tick(); if (n && recording()) access((uintptr_t)p, n, true, false, RA); }
void __tsan_vptr_update(void** p, void* v) { tick(); if (*p != v && recording()) access((uintptr_t)p, 8, true, false, RA); }
void __tsan_vptr_read(void** p) { tick(); if (recording()) access((uintptr_t)p, 8, false, false, RA); }

#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(const volatile T* p, int o) { a_load(p, sizeof(T), o, RA); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##B##_store(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, false, RA); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_exchange(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int o) { tick(); a_store(p, sizeof(T), o, true, RA); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
static int cas##B(volatile T* p, T* e, T v, int o, int fo, void* pc) { tick(); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) a_store(p, sizeof(T), o, true, pc); else a_load(p, sizeof(T), fo, pc); return ok; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) { return cas##B(p, e, v, o, fo, RA); } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { return cas##B(p, e, v, o, fo, RA); }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int o)
{
    if (!syncing()) return;
    int t = sim::detail::self->id; TS& x = ts(t);
    if (acq_order(o)) join(x.c, x.pend);
    if (rel_order(o)) { x.fence = x.c; x.c.c[t]++; }
}
void __tsan_atomic_signal_fence(int) {}

// memory functions: also reached from libstdc++.so
void* memcpy(void* d, const void* s, size_t n) noexcept
{
    if (n && recording()) { access((uintptr_t)s, n, false, false, RA); access((uintptr_t)d, n, true, false, RA); }
    void* r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r;
}
void* memmove(void* d, const void* s, size_t n) noexcept
{
    if (n && recording()) { access((uintptr_t)s, n, false, false, RA); access((uintptr_t)d, n, true, false, RA); }
    void* r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
    else { char* x = (char*)d + n - 1; const char* y = (const char*)s + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(x), "+S"(y), "+c"(n)::"memory"); }
    return r;
}
void* memset(void* d, int v, size_t n) noexcept
{
    if (n && recording()) access((uintptr_t)d, n, true, false, RA);
    void* r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r;
}
extern void __libc_free(void*); extern void* __libc_realloc(void*, size_t);
void free(void* p) noexcept { if (p && sim::detail::self) freed(p); __libc_free(p); }
void* realloc(void* p, size_t n) noexcept { if (p && sim::detail::self) freed(p); return __libc_realloc(p, n); }
}
